"""C11: backward slices (data and control dependence) of everything an entry point
returns, changes, prints or raises; plus an audit of every call at which a function
that has an option calls another function with the same option."""
import os

from ..interp import MUTATORS
from ..slicing import Slicer, seeds
from ..values import show

RULE = ('Rule 1: every parameter of a function occurs in the backward slice of its results, effects and errors (per argument-class variant). '
        'Rule 2: where a function holding an option calls (directly, or through helpers that do not hold it) a library function with the same option, the option is passed and the '
        'passed value depends on the caller\'s. The option "tol" is a name used for several unrelated tolerances, so for it the delegations are listed one by one.')
ASSUME = ['a dependence in the value-flow graph is taken as taking effect; how large the effect is, is not decided',
          'parameters of the callback signature rule(op_string, info) need not be used']

REVIEWED = set(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'reviewed_functions.txt')).read().split())

# (function, parameter, variant type): no effect on that path by definition
NO_EFFECT = {('transformation.Transformation.apply', 'tol', 'OperatorString')}

# (option, callee): callers for which the callee's option of the same name has another meaning
OTHER_MEANING = {
    ('return_extended_basis', 'algebra.structure_constants'): ('algebra._liouvillian_matrix_opstrings', 'algebra._liouvillian_matrix_operators'),
    ('filter_fun', 'algorithms._truncate_basis'): ('algorithms.selected_ci',),
    ('threshold', 'algorithms._truncate_operator'): ('algorithms.selected_ci_sweep',),
    ('max_basis_size', 'algorithms._truncate_operator'): ('algorithms.selected_ci_sweep',),
    ('op_strings', 'basis.Basis.__init__'): ('basis.Operator.__init__',),
}

TOL = {('algebra.generate_lie_algebra', 'basis.Operator.remove_zeros'), ('algorithms.selected_ci_greedy_many_ops', 'algorithms.selected_ci_greedy'),
       ('core.SymmetricOperatorGenerator._generate_noncumulative', 'core.commuting_operators'), ('core.SymmetricOperatorGenerator._generate_noncumulative', 'core.invariant_operators'),
       ('core.SymmetricOperatorGenerator._generate_cumulative', 'core.commuting_operators'), ('core.SymmetricOperatorGenerator._generate_cumulative', 'core.invariant_operators'),
       ('core.SymmetricOperatorGenerator.generate', 'core.SymmetricOperatorGenerator._generate_cumulative'),
       ('core.SymmetricOperatorGenerator.generate', 'core.SymmetricOperatorGenerator._generate_noncumulative'),
       ('core.SymmetricOperatorGenerator.generate', 'core.commuting_operators'), ('core.SymmetricOperatorGenerator.generate', 'core.invariant_operators'),
       ('symmetrization.symmetrize_lattice', 'symmetrization._symmetrize_atoms'), ('symmetrization.symmetrize_lattice', 'symmetrization._remove_duplicate_atoms'),
       ('transformation._symmetry_matrix_operators', 'transformation._symmetry_matrix_opstrings'), ('transformation.symmetry_matrix', 'transformation._symmetry_matrix_opstrings'),
       ('transformation.symmetry_matrix', 'transformation._symmetry_matrix_operators'),
       ('visualization.print_vectors', 'basis.Operator.remove_zeros'), ('visualization.print_operators', 'basis.Operator.remove_zeros')}


def where(fn, node):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(node, 'lineno', 0), fn.qual)


def run(ck):
    ctx = ck.ctx
    byname = {id(f.node): f for f in ctx.prog.functions()}
    attrs = {}
    for c in ctx.prog.by_class.values():
        import ast
        names = set()
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and m.params() and n.value.id == m.params()[0]:
                    names.add(n.attr)
        attrs[c.name] = names
    for r in ctx.entries():
        fn, I = r.fn, r.I
        S = Slicer(I)
        ps = fn.params() + [a.arg for a in fn.node.args.kwonlyargs]
        callback = len(ps) > 1 and ps[1] == 'info'
        if I.returns and (r.public or fn.qual in REVIEWED and not callback):
            seen, keys = S.close(*seeds(r))
            for p in ps:
                if fn.cls is not None and not fn.static and p == ps[0]:
                    continue
                if r.types.get(p) == 'none' or any(q == fn.qual and pp == p and t in r.types.values() for q, pp, t in NO_EFFECT):
                    continue
                if I.params[p].key in keys:
                    ck.ok('parameters in the slice', '%s: %s influences the result' % (r.name, p))
                else:
                    ck.bad('parameter without effect', '%s %s' % (r.name, p), where(fn, fn.node), 'the parameter %s of %s influences neither its result, its effects nor its errors' % (p, r.name))
        forward(ck, r, S, ps, byname, attrs)
    ck.floor('parameters in the slice', 300)
    ck.floor('options passed on', 45)


def forward(ck, r, S, ps, byname, attrs):
    fn, I = r.fn, r.I
    cache = {}
    own = {p: I.params[p] for p in ps if p in I.params}
    held = {}
    if fn.cls is not None and not fn.static and ps:
        for a in attrs.get(fn.cls.name, ()):
            if a not in own:
                held[a] = I.params[ps[0]]
    for (g, bound, given, starred, node, fr) in I.called:
        if fr.stack and fr.stack[0] == '<module init>':
            continue
        gd = g.defaults()
        chain = [byname.get(id(n)) for n, _ in fr.stack[1:]] + ([byname.get(id(fr.fn.node))] if fr.stack else [])
        for p in list(own) + list(held):
            if p not in gd or p in ('self',):
                continue
            if p in held and (g.cls is fn.cls or chain):
                continue
            if p == 'tol':
                # helpers extracted later are looked through
                if any(h is not None and h.qual in REVIEWED for h in chain):
                    continue
                if (fn.qual, g.qual) not in TOL:
                    continue
            else:
                if any(h is not None and p in h.params() and h.qual in REVIEWED for h in chain):
                    continue
                callers = OTHER_MEANING.get((p, g.qual))
                if callers is not None and (fn.qual in callers or fn.qual not in REVIEWED):
                    continue
            via = ''.join(' through ' + h.qual for h in chain if h is not None)
            if p not in given:
                if starred:
                    ck.unsure('starred call', '%s -> %s' % (fn.qual, g.qual))
                    continue
                ck.bad('option not passed on', '%s %s %s' % (fn.qual, p, g.qual), where(fr.fn, node),
                       '%s has the option %s but calls %s%s without it, so the default is used' % (fn.qual, p, g.qual, via))
                continue
            k = (p, bound[p].uid)
            if k not in cache:
                keys = S.close([bound[p]])[1]
                cache[k] = (own[p].key in keys) if p in own else attr_in(I, S, held[p], p, bound[p])
            if cache[k]:
                ck.ok('options passed on', '%s passes %s to %s' % (fn.qual, p, g.qual))
            else:
                ck.bad('option replaced', '%s %s %s' % (fn.qual, p, g.qual), where(fr.fn, node),
                       '%s passes %s=%s to %s%s, which does not depend on its own %s' % (fn.qual, p, show(bound[p], 3), g.qual, via, p))


def attr_in(I, S, me, p, v):
    seen, keys = S.close([v])
    stack, done = [v], set()
    while stack:
        w = stack.pop()
        if w.uid in done:
            continue
        done.add(w.uid)
        if w.op == 'attr' and w.x == p:
            return True
        stack += list(w.args) + list(w.back)
    h = [s for s in I.final_heap for k in s if k[1] == p or k[-1] == p]
    return bool(h)
