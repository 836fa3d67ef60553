"""C10: each function that takes a named option or dispatches on the class of an
argument is interpreted with an argument whose value/class is none of those the
code compares it with; operands of two different op_types and letters/labels that
do not fit are supplied as constants.  A normal return of such a run is a
violation."""
from ..values import V, const, show
from ..common import transformation_rules
from ..entries import Run, variants
from ..interp import Interp

RULE = ('Rule: with an option value (or argument class) equal to none of the constants (classes) it is compared with, every path must end in a raise; a path that is only '
        'reached by iterating over an empty collection is exempt. Same for operands whose op_type fields hold two different constants and for constant letters/labels that do not fit.')
ASSUME = ['an option is only required to be checked when at least one element is processed (empty bases and lists may return early)',
          'arguments have the types the docstrings give them']

OPTIONS = {'op_type', 'operation_mode', 'to_op_type', 'mode', 'fmt', 'method', 'convert_to'}
# options whose accepted values are nowhere enumerated, or which are documented to be deduced when strings are given
SKIP = {('diagonalization.diagonalize', 'mode'), ('core.SymmetricOperatorGenerator.add_symmetry', 'operation_mode'), ('tools.connected_components', 'mode')}
SKIP_VARIANT = {('basis.Operator.__init__', 'op_type', 0), ('basis.Operator.__init__', 'op_type', 1)}

CLASSES = [('algebra.product', 'op_A'), ('algebra.product', 'op_B'), ('algebra.commutator', 'op_A'), ('algebra.commutator', 'op_B'),
           ('algebra.anticommutator', 'op_A'), ('algebra.anticommutator', 'op_B'), ('algebra.liouvillian_matrix', 'basis'), ('algebra.commutant_matrix', 'basis'),
           ('algebra.generate_lie_algebra', 'operators'), ('core.commuting_operators', 'basis'), ('core.invariant_operators', 'basis'),
           ('conversion.convert', 'operator'), ('diagonalization.to_matrix', 'operator'), ('algorithms.selected_ci_greedy', 'com_ops'),
           ('basis.cluster_basis', 'k'), ('basis.Basis.__add__', 'other'), ('basis.Basis.__iadd__', 'other'), ('basis.Operator.__init__', 'op_strings'),
           ('diagonalization.reduced_density_matrix', 'vector'), ('diagonalization.diagonalize', 'operator'),
           ('tools.project_out_nullspace', 'matrix'), ('transformation.time_reversal', 'spin_info'), ('transformation.symmetry_matrix', 'basis'),
           ('transformation.Transformation.apply', 'operator')]

MISMATCH = [('algebra.product', 'op_A', 'op_B'), ('algebra.commutator', 'op_A', 'op_B'), ('algebra.anticommutator', 'op_A', 'op_B'),
            ('basis.Operator.__add__', 'self', 'other'), ('basis.Operator.__iadd__', 'self', 'other'),
            ('basis.Operator.__sub__', 'self', 'other'), ('basis.Operator.__isub__', 'self', 'other')]

LETTERS = [(('X', 'Y'), (1,), 'Pauli'), (('A',), (1, 2), 'Majorana'), ((), (3,), 'Fermion'), (('CDag', 'C'), (1,), 'Fermion'),
           (('X',), (1,), 'Majorana'), (('A', 'B'), (1, 2), 'Pauli'), (('CDag',), (1,), 'Pauli'), (('D',), (4,), 'Fermion'), (('Q',), (1,), 'Pauli'), (('X',), (1,), 'Foo')]


MAJORANA_ONLY = ('transformation.particle_hole', 'transformation.charge_conjugation', 'transformation.spin_parity_symmetry')
NAMES = [('X 1 Y', None), ('X', 'Pauli'), ('A 1 B 2 D', None), ('X 1', 'Majorana'), ('CDag 1 X 2', None), ('X 1 A 2', None), ('1j X 1', None), ('Q 1', None), ('I', None), ('', None), ('A 1', 'Pauli')]

UNSUPPORTED = [('algebra.product', 'Fermion'), ('algebra.commutator', 'Fermion'), ('algebra.anticommutator', 'Fermion'), ('diagonalization.diagonalize_quadratic', 'Pauli'),
               ('diagonalization.diagonalize_bdg', 'Pauli'), ('diagonalization._apply_opstring', 'Fermion'), ('diagonalization._apply_opstring', 'Majorana')]


# valid requests
VALID_NAMES = [('X 1', None), ('X 1', 'Pauli'), ('X 1 Y 2 Z 10', 'Pauli'), ('A 1', 'Majorana'), ('A 1 B 2 D 3', None), ('A 1 B 2', 'Majorana'), ('CDag 1 C 2', None), ('CDag 1', 'Fermion'), ('CDag 1 C 1', 'Fermion'), ('I', 'Pauli'), ('1', 'Majorana'),
               ('1.0', 'Fermion'), ('I', 'Majorana'), ('1 X 1', None), ('1.0 X 1', 'Pauli'), ('1j A 1 B 2', None), ('1j CDag 1 C 2', 'Fermion'), ('1j CDag 1 CDag 2 C 1', None), ('', 'Pauli')]
VALID_STRINGS = [(('X', 'Y'), (1, 2), 'Pauli', None), (('Z',), (0,), 'Pauli', 1), (('A', 'B', 'D'), (1, 2, 5), 'Majorana', None), (('A',), (1,), 'Majorana', 1j), ((), (), 'Majorana', None), ((), (), 'Pauli', 1.0), ((), (), 'Fermion', 1),
                 (('CDag', 'C'), (1, 2), 'Fermion', None), (('CDag', 'C'), (1, 2), 'Fermion', 1j), (('CDag', 'CDag', 'C', 'C'), (1, 2, 2, 1), 'Fermion', 1.0), (('CDag', 'C'), (3, 3), 'Fermion', None)]
OPTION_VALUES = [('basis.cluster_basis', 'op_type', ('Pauli', 'Majorana', 'Fermion')), ('basis.distance_basis', 'op_type', ('Pauli', 'Majorana', 'Fermion')), ('core.commuting_operators', 'operation_mode', ('commutator', 'anticommutator')),
                 ('core.invariant_operators', 'operation_mode', ('commutator', 'anticommutator')), ('algebra.structure_constants', 'operation_mode', ('commutator', 'anticommutator', 'product')),
                 ('algebra.liouvillian_matrix', 'operation_mode', ('commutator', 'anticommutator')), ('core.SymmetricOperatorGenerator.generate', 'mode', ('cumulative', 'noncumulative')),
                 ('tools.connected_components', 'mode', ('BFS', 'DFS')), ('tools.sort_sign', 'method', ('insertionsort', 'mergesort'))]
SUPPORTED = [('algebra.product', ('Pauli', 'Majorana')), ('algebra.commutator', ('Pauli', 'Majorana')), ('algebra.anticommutator', ('Pauli', 'Majorana')), ('diagonalization.to_matrix', ('Pauli',)), ('diagonalization.diagonalize', ('Pauli', 'Majorana', 'Fermion')),
             ('diagonalization.diagonalize_quadratic', ('Majorana', 'Fermion')), ('diagonalization.diagonalize_bdg', ('Fermion',)), ('diagonalization.diagonalize_quadratic_tightbinding', ('Fermion',)),
             ('basis.Operator.__add__', ('Pauli', 'Majorana', 'Fermion')), ('basis.Operator.__sub__', ('Pauli', 'Majorana', 'Fermion')), ('basis.Operator.__iadd__', ('Pauli', 'Majorana', 'Fermion')), ('basis.Operator.__isub__', ('Pauli', 'Majorana', 'Fermion'))]


def live(run):
    """normal returns that do not depend on an empty iteration, nor on a test of the given values that the analysis cannot evaluate"""
    return [(v, g, n) for v, g, n, s in run.I.returns if not any(c.op == 'zeroiter' for c, p in g) and not run.I.isdead(s) and not any(untested(c) for c, p in g)]


def untested(c):
    """a condition on the probed value itself (an unlisted value or only constants) that was not decided"""
    if c.op not in ('cmp', 'call', 'rcall', 'mcall', 'bool', 'un', 'item'):
        return False
    st, ground = [c], True
    while st:
        x = st.pop()
        if x.op == 'unlisted':
            return True
        if x.op in ('param', 'elem', 'idx', 'mu', 'global', 'unknown', 'dyn', 'join', 'new', 'inst', 'zeroiter', 'undef', 'star'):
            ground = False
        st.extend(x.args)
    return ground


def line(n, fn):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(n, 'lineno', 0), fn.qual)


def run(ck):
    ctx = ck.ctx
    for fn in list(ctx.prog.judged()):
        for p in fn.params():
            if p in OPTIONS and (fn.qual, p) not in SKIP:
                for i, tys in enumerate(variants(fn)):
                    if (fn.qual, p, i) in SKIP_VARIANT:
                        continue
                    probe(ck, fn, p, tys, i, 'option', 'an unknown value of %s' % p)
    for q, p in CLASSES:
        fn = ck.need(q)
        if p not in fn.params():
            ck.floors.append('%s has no parameter %s' % (q, p))
            continue
        for i, tys in enumerate(variants(fn)[:1] if q != 'transformation.time_reversal' else variants(fn)[:1]):
            probe(ck, fn, p, tys, i, 'class', 'an argument %s of an unsupported class' % p)
    for q, a, b in MISMATCH:
        fn = ck.need(q)
        for i, tys in enumerate(variants(fn)):
            for ta, tb in (('Pauli', 'Majorana'), ('Majorana', 'Fermion')):
                r = operands(ctx, fn, tys, i, ((a, ta), (b, tb)))
                l = live(r)
                # products are formed term by term; a returned operator without any examined pair is exempt
                if l:
                    ck.bad('mismatched op_types accepted', '%s %s/%s' % (r.name, ta, tb), line(l[0][2], fn), '%s returns normally for operands of op_type %s and %s' % (r.name, ta, tb),
                           [show(c, 3) + ('' if p else ' is false') for c, p in l[0][1]])
                else:
                    ck.ok('op_type mismatch', '%s with op_types %s/%s raises on every path' % (r.name, ta, tb))
    for q, a, b in MISMATCH[:5]:
        fn = ck.need(q)
        tys = variants(fn)[-1] if q.startswith('algebra') else variants(fn)[0]
        r = ctx.run_one(fn, tys, 0, heap={(a, 'op_type'): const('Pauli'), (b, 'op_type'): const('Majorana')})
        # here the strings are unknown (there may be none): the op_types of the operators alone decide
        l = [x for x in r.I.returns if not r.I.isdead(x[3])]
        if l:
            ck.bad('mismatched op_types accepted', '%s with any strings' % fn.qual, line(l[0][2], fn), '%s returns normally for operators of op_type Pauli and Majorana (for example zero operators)' % fn.qual)
        else:
            ck.ok('op_type mismatch', '%s for operators with any strings' % fn.qual)
    fn = ck.need('operatorstring.OperatorString.__init__')
    ps = fn.params()
    for letters, labels, t in LETTERS:
        if True:
            args = {ps[1]: V('tuple', [const(x) for x in letters]), ps[2]: V('tuple', [const(x) for x in labels]), ps[3]: const(t)}
            r = ctx.run_one(fn, {ps[0]: 'OperatorString'}, 0, args=args)
            l = live(r)
            if l:
                ck.bad('inconsistent operator string accepted', 'OperatorString(%r, %r, %r)' % (letters, labels, t), line(l[0][2], fn),
                       'OperatorString(%r, %r, %r) is accepted' % (list(letters), list(labels), t))
            else:
                ck.ok('inconsistent strings', 'OperatorString(%r, %r, %r) raises' % (list(letters), list(labels), t))
    # operator strings given by name
    fn = ck.need('operatorstring.opstring')
    for name, t in NAMES:
        r = ctx.run_one(fn, {}, 0, args={'op_string_name': const(name), 'op_type': const(t)})
        l = live(r)
        if l:
            ck.bad('inconsistent operator string accepted', 'opstring(%r, %r)' % (name, t), line(l[0][2], fn), 'opstring(%r, %r) is accepted' % (name, t))
        else:
            ck.ok('inconsistent names', 'opstring(%r, %r) raises' % (name, t))
    # operators of a type the function does not support
    for q, t in UNSUPPORTED:
        fn = ck.need(q)
        for i, tys in enumerate(variants(fn)):
            ps = [x for x in fn.params() if tys.get(x) in ('OperatorString', 'Operator')]
            r = operands(ctx, fn, tys, i, tuple((x, t) for x in ps))
            l = live(r)
            if l:
                ck.bad('unsupported op_type accepted', '%s %s' % (r.name, t), line(l[0][2], fn), '%s returns normally for an operand of op_type %s' % (r.name, t), [show(c, 3) + ('' if p else ' is false') for c, p in l[0][1]])
            else:
                ck.ok('unsupported op_type', '%s for op_type %s raises on every path' % (r.name, t))
    # rules of the library's symmetry transformations are defined for some op_types only
    rules = transformation_rules(ctx)
    for q, (f, uses) in sorted(rules.items()):
        if any(c == 'transformation.Transformation.__mul__' for c, *_ in uses):
            continue
        ps = f.params()
        bad = ['unlisted', 'Fermion'] + (['Pauli'] if any(c in MAJORANA_ONLY for c, *_ in uses) else [])
        l = []
        for t in bad:
            I = Interp(ctx.prog)
            v = V('param', (), (f.qual, ps[0], 'OperatorString'))
            I.seedheap = {I.hkey(v, 'op_type'): V('unlisted', (), 'op_type') if t == 'unlisted' else const(t)}
            I.run(f, args={ps[0]: v}, types={})
            l += live(Run(f, {}, I, 0, False))
        if l:
            ck.bad('unsupported op_type accepted', f.qual, line(l[0][2], f), 'the rule of %s returns normally for a string of unsupported op_type' % '/'.join(sorted({c for c, *_ in uses})))
        else:
            ck.ok('unsupported op_type', 'the rule %s rejects strings of other op_types' % f.qual)
    # an empty operator needs a type; symmetries are checked when they are used
    fn = ck.need('basis.Operator.__init__')
    r = ctx.run_one(fn, {'self': 'Operator'}, 0, args={p: const(None) for p in fn.params()[1:]})
    if live(r):
        ck.bad('operator without type accepted', 'Operator()', line(live(r)[0][2], fn), 'Operator() without strings and op_type is accepted')
    else:
        ck.ok('inconsistent names', 'Operator() without op_type raises')
    fn = ck.need('core.SymmetricOperatorGenerator.generate')
    for mode in ('cumulative', 'noncumulative'):
        I = Interp(ctx.prog)
        me = V('param', (), (fn.qual, 'self', 'SymmetricOperatorGenerator'))
        lst = V('new', (), 'list')
        I.objinit[lst.uid] = [V('unlisted', (), 'symmetry')]
        b = V('param', (), (fn.qual, 'self.basis', 'Basis'))
        strings = V('new', (), 'list')
        I.objinit[strings.uid] = [V('param', (), (fn.qual, 'string', 'OperatorString'))]
        I.seedheap = {I.hkey(me, 'input_symmetries'): lst, I.hkey(me, 'basis'): b, I.hkey(b, 'op_strings'): strings}
        I.run(fn, args={'self': me, 'mode': const(mode)}, types=variants(fn)[0])
        r = Run(fn, {}, I, 0, True)
        if live(r):
            ck.bad('class not rejected', 'generate(%s)' % mode, line(live(r)[0][2], fn), 'generate(mode=%r) returns normally for a symmetry that is neither an Operator nor a Transformation' % mode)
        else:
            ck.ok('class', 'generate(mode=%r) with a foreign symmetry raises' % mode)
    # mixed op_types in one Operator
    fn = ck.need('basis.Operator.__init__')
    for ta, tb in (('Pauli', 'Majorana'), ('Majorana', 'Fermion')):
        a = V('param', (), (fn.qual, 'first', 'OperatorString'))
        b = V('param', (), (fn.qual, 'second', 'OperatorString'))
        r = mixed(ctx, fn, a, b, ta, tb)
        l = live(r)
        if l:
            ck.bad('strings of different op_types accepted', 'Operator.__init__ %s/%s' % (ta, tb), line(l[0][2], fn), 'an Operator can be built from strings of op_type %s and %s' % (ta, tb))
        else:
            ck.ok('mixed strings', 'Operator of %s and %s strings raises' % (ta, tb))
    fixed(ck)
    accepted(ck)
    ck.floor('option', 25)
    ck.floor('class', 23)
    ck.floor('op_type mismatch', 14)
    ck.floor('inconsistent strings', 9)


def fixed(ck):
    """requests that are invalid for particular constant values"""
    def test(fn, tys, what, args=None, heap=None, opaque=()):
        r = ck.ctx.run_one(fn, tys, 0, args=args, heap=heap, opaque=opaque)
        l = live(r)
        if l:
            ck.bad('invalid value accepted', '%s: %s' % (fn.qual, what), line(l[0][2], fn), '%s returns normally for %s' % (fn.qual, what), [show(c, 3) + ('' if q else ' is false') for c, q in l[0][1]])
        else:
            ck.ok('constant values', '%s raises for %s' % (fn.qual, what))
    fn = ck.need('transformation.Transformation.__pow__')
    n = fn.params()[1]
    for x in (-1, -2, -7, 2.5, '2'):
        test(fn, {fn.params()[0]: 'Transformation'}, 'the exponent %r' % (x,), {n: const(x)})
    fn = ck.need('operatorstring.OperatorString.__init__')
    ps = fn.params()
    for letters, labels, t, x in ((('X', 'Y'), (1, 2), 'Pauli', 2.0), (('X',), (1,), 'Pauli', 1j), (('Z',), (3,), 'Pauli', -1.0),
                                  (('CDag', 'C'), (1, 2), 'Fermion', -1j), (('CDag', 'C'), (1, 2), 'Fermion', 0.5), ((), (), 'Pauli', 1j), ((), (), 'Fermion', 2.0)):
        test(fn, {ps[0]: 'OperatorString'}, 'the prefactor %s of a %s string' % (x, t), {ps[1]: V('tuple', [const(y) for y in letters]), ps[2]: V('tuple', [const(y) for y in labels]), ps[3]: const(t), ps[4]: const(x)})
    # the prefactor of a Majorana string is replaced where the letters require 1j; elsewhere a wrong one must be able to end in an error
    for letters, labels, x in ((('A',), (1,), 2.0), (('B',), (3,), -1.0), (('D',), (1,), 0.5), ((), (), 3.0)):
        r = ck.ctx.run_one(fn, {ps[0]: 'OperatorString'}, 0, args={ps[1]: V('tuple', [const(y) for y in letters]), ps[2]: V('tuple', [const(y) for y in labels]), ps[3]: const('Majorana'), ps[4]: const(x)})
        what = 'the prefactor %s of the Majorana string %s' % (x, ' '.join(letters) or 'without letters')
        if any(e.kind == 'raise' for e in r.I.trace):
            ck.ok('constant values', '%s can raise for %s' % (fn.qual, what))
        elif live(r):
            ck.bad('invalid value accepted', '%s: %s' % (fn.qual, what), line(live(r)[0][2], fn), '%s returns normally for %s' % (fn.qual, what))
    for q, p in (('diagonalization.apply_transformation', 'transformation'), ('diagonalization.apply_transformation_conf', 'transformation')):
        fn = ck.need(q)
        ps = fn.params()
        for info, what in ((const(None), 'a transformation that is no permutation'), (V('tuple', [const(1), const(0)]), 'a permutation of 2 labels for 3 orbitals')):
            test(fn, {p: 'Transformation'}, what, {ps[2]: const(3)}, {(p, 'info'): info})
    fn = ck.need('tools.intersection')
    ps = fn.params()
    test(fn, {}, 'matrices with 3 and 4 rows', None, {(ps[0], 'shape'): V('tuple', [const(3), const(2)]), (ps[1], 'shape'): V('tuple', [const(4), const(2)])})
    for q, t, letters, labels in (('diagonalization.diagonalize_quadratic', 'Majorana', ('A', 'B', 'A', 'B'), (0, 1, 2, 3)), ('diagonalization.diagonalize_quadratic', 'Majorana', ('D', 'D'), (0, 1)), ('diagonalization.diagonalize_quadratic', 'Majorana', ('A',), (0,)),
                                  ('diagonalization.diagonalize_quadratic', 'Majorana', ('A', 'B', 'D'), (0, 1, 2)), ('diagonalization.diagonalize_bdg', 'Fermion', ('CDag', 'CDag', 'C', 'C'), (0, 1, 2, 3)),
                                  ('diagonalization.diagonalize_bdg', 'Fermion', ('CDag',), (0,)), ('diagonalization.diagonalize_bdg', 'Fermion', ('CDag', 'CDag'), (1, 1))):
        fn = ck.need(q)
        tys = variants(fn)[0]
        p = [x for x in fn.params() if tys.get(x) == 'Operator']
        r = operands(ck.ctx, fn, tys, 0, ((p[0], t),), (letters, labels))
        l = live(r)
        if l:
            ck.bad('invalid value accepted', '%s %s' % (q, ' '.join(letters)), line(l[0][2], fn), '%s returns normally for an operator with the string %s' % (q, ' '.join('%s %d' % x for x in zip(letters, labels))))
        else:
            ck.ok('constant values', '%s raises for an operator with the string %s' % (q, ' '.join('%s %d' % x for x in zip(letters, labels))))
    for q in ('visualization.plot', 'visualization.plot_opstring'):
        fn = ck.need(q)
        for d in (4, 0):
            test(fn, {**variants(fn)[0]}, 'a lattice of dimension %d' % d, None, {('lattice', 'dim'): const(d)})
    # a relabelling that sends an orbital outside of the lattice
    for q in ('transformation.space_group_symmetry', 'transformation.spin_flip_symmetry'):
        fn = ck.need(q)
        r = ck.ctx.run_one(fn, variants(fn)[0], 0, opaque={'lattice.Lattice.index', 'transformation.label_permutation'})
        missing(ck, fn, r.I)


def accepted(ck):
    """valid requests do not end in an error on every path"""
    ctx = ck.ctx

    def ends(r):
        return [x for x in r.I.returns if not r.I.isdead(x[3])]

    def test(r, fn, what):
        if ends(r):
            ck.ok('valid requests', '%s: %s' % (fn.qual, what))
            return
        es = [e for e in r.I.trace if e.kind == 'raise']
        if es and all(any(x.op in ('call', 'ext') and 'NotImplementedError' in str(x.x) for x in r.I.roots(e.args[0])) for e in es if e.args):
            return
        if es:
            ck.bad('valid request rejected', '%s: %s' % (fn.qual, what), es[-1].where, '%s raises for %s' % (fn.qual, what))
        else:
            ck.unsure('no normal return', fn.qual)
    for r in ctx.entries(private=True):
        test(r, r.fn, 'every argument' if r.name == r.fn.qual else 'every argument of the kind %s' % r.name[len(r.fn.qual):])
    fn = ck.need('operatorstring.opstring')
    for name, t in VALID_NAMES:
        test(ctx.run_one(fn, {}, 0, args={'op_string_name': const(name), 'op_type': const(t)}), fn, '(%r, %r)' % (name, t))
    fn = ck.need('operatorstring.OperatorString.__init__')
    ps = fn.params()
    for letters, labels, t, x in VALID_STRINGS:
        args = {ps[1]: V('tuple', [const(y) for y in letters]), ps[2]: V('tuple', [const(y) for y in labels]), ps[3]: const(t)}
        if x is not None:
            args[ps[4]] = const(x)
        test(ctx.run_one(fn, {ps[0]: 'OperatorString'}, 0, args=args), fn, '(%r, %r, %r%s)' % (list(letters), list(labels), t, '' if x is None else ', %r' % x))
    fn = ck.need('transformation.Transformation.__pow__')
    for x in (1, 2, 5):
        test(ctx.run_one(fn, {fn.params()[0]: 'Transformation'}, 0, args={fn.params()[1]: const(x)}), fn, 'the exponent %d' % x)
    fn = ck.need('tools.intersection')
    ps = fn.params()
    for a, b in (((3, 2), (3, 2)), ((4, 2), (4, 3)), ((5, 1), (5, 5)), ((7, 3), (7, 1))):
        test(ctx.run_one(fn, {}, 0, heap={(ps[0], 'shape'): V('tuple', [const(y) for y in a]), (ps[1], 'shape'): V('tuple', [const(y) for y in b])}), fn, 'matrices of the shapes %r and %r' % (a, b))
    for q, p, values in OPTION_VALUES:
        fn = ck.need(q)
        for x in values:
            for i, tys in enumerate(variants(fn)):
                test(ctx.run_one(fn, tys, i, args={p: const(x)}), fn, '%s=%r' % (p, x))
    for q, ts in SUPPORTED:
        fn = ck.need(q)
        for i, tys in enumerate(variants(fn)):
            ps = [x for x in fn.params() if tys.get(x) in ('OperatorString', 'Operator')]
            for t in ts:
                test(operands(ctx, fn, tys, i, tuple((x, t) for x in ps)), fn, 'operands of op_type %s' % t)


def missing(ck, fn, I):
    from ..summary import NONE, Unknown, bare, evaluate

    def leaf(v):
        if v.op == 'rcall' and (v.x[0] if isinstance(v.x, tuple) else v.x) == 'lattice.Lattice.index':
            return 0 if good else -1
        if v.op == 'cmp' and v.x == 'In':
            xs = entries(bare(v.args[1]))
            if xs is not None:
                return evaluate(v.args[0], leaf) in both(xs)
        if v.op == 'call' and v.x[0] in ('builtins.any', 'builtins.all', 'builtins.min', 'builtins.max', 'numpy.any', 'numpy.all', 'numpy.min', 'numpy.max', 'numpy.amin') and len(v.args) == 1:
            xs = entries(bare(v.args[0]))
            if xs:
                return {'any': any, 'all': all, 'min': min, 'max': max, 'amin': min}[v.x[0].split('.')[1]](both(xs))
        if v.op == 'zeroiter':
            return False
        if v.op == 'elem' or v.op == 'item' and bare(v.args[1]).op == 'idx':
            xs = entries(bare(v.args[0]))
            if xs and len(xs) == 1:
                return evaluate(xs[0], leaf)
        return NONE

    good = []

    def both(xs):
        """the entries of the orbital without an image, and of one that has an image"""
        out = [evaluate(x, leaf) for x in xs]
        good.append(1)
        try:
            return out + [evaluate(x, leaf) for x in xs]
        finally:
            good.pop()

    def entries(w):
        if w.op in ('new',) and not I.objinit.get(w.uid):
            evs = I.byobj.get(w.uid, ())
            if evs and all(e.kind == 'method' and e.x in ('append', 'add') for e in evs):
                return [e.args[1] for e in evs]
        if w.op == 'cmp' or w.op == 'bin':
            ks = [entries(bare(a)) for a in w.args]
            if len(ks) == 2 and (ks[0] is None) != (ks[1] is None):
                return [V(w.op, (x, w.args[1]) if ks[0] else (w.args[0], x), w.x) for x in (ks[0] or ks[1])]
        return None

    def dep(v):
        st, seen = [v], set()
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op == 'rcall':
                return True
            if x.op == 'new':
                st.extend(a for e in I.byobj.get(x.uid, ()) for a in e.args[1:])
            st.extend(x.args)
        return False
    what = 'an orbital whose image is not on the lattice'
    if not any(x.kind == 'rcall' and (x.x[0] if isinstance(x.x, tuple) else x.x) == 'lattice.Lattice.index' for x in I.trace):
        ck.unsure('invalid value', '%s: %s' % (fn.qual, what))
        return
    raises = [e for e in I.trace if e.kind in ('raise', 'assert')]
    unknown = False
    for e in raises:
        try:
            gs = list(e.guards)
            if e.kind == 'assert':
                gs.append((e.args[0], False))
            vals = []
            for c, p in gs:
                vals.append(bool(evaluate(c, leaf)) == p)
            if all(vals):
                ck.ok('constant values', '%s raises for %s' % (fn.qual, what))
                return
        except Unknown:
            if any(dep(c) for c, p in gs):
                unknown = True
    if unknown:
        ck.unsure('invalid value', '%s: %s' % (fn.qual, what))
    else:
        ck.bad('invalid value accepted', fn.qual, line(fn.node, fn), '%s raises nothing for %s' % (fn.qual, what))


def operands(ctx, fn, tys, i, spec, string=None):
    """run with operands whose op_type (and that of their only string) is a constant"""
    I = Interp(ctx.prog)
    args, h = {}, {}
    for p, t in spec:
        v = args[p] = V('param', (), (fn.qual, p, tys.get(p)))
        h[I.hkey(v, 'op_type')] = const(t)
        if tys.get(p) == 'Operator':
            b = V('param', (), (fn.qual, p + "'s basis", 'Basis'))
            o = V('param', (), (fn.qual, p + "'s string", 'OperatorString'))
            lst = V('new', (), 'list')
            I.objinit[lst.uid] = [o]
            cs = V('new', (), 'list')
            I.objinit[cs.uid] = [V('param', (), (fn.qual, p + "'s coefficient", 'num'))]
            h[I.hkey(v, 'coeffs')] = cs
            h[I.hkey(v, '_basis')] = b
            h[I.hkey(b, 'op_strings')] = lst
            h[I.hkey(o, 'op_type')] = const(t)
            if string:
                h[I.hkey(o, 'orbital_operators')] = V('tuple', [const(x) for x in string[0]])
                h[I.hkey(o, 'orbital_labels')] = V('tuple', [const(x) for x in string[1]])
    I.seedheap = h
    I.run(fn, args=args, types=tys)
    return Run(fn, tys, I, i, True)


def mixed(ctx, fn, a, b, ta, tb):
    from ..entries import Run
    I = Interp(ctx.prog)
    lst = V('new', (), 'list')
    I.objinit[lst.uid] = [a, b]
    args = {'op_strings': lst, 'first': a, 'second': b}
    st = {}
    for v, t in ((a, ta), (b, tb)):
        st[(v, 'op_type')] = const(t)
    I.seedheap = {I.hkey(v, f): c for (v, f), c in st.items()}
    I.run(fn, args={'op_strings': lst}, types={'self': 'Operator', 'coeffs': 'array[complex]', 'op_type': 'none'})
    return Run(fn, {}, I, 0, True)


def probe(ck, fn, p, tys, i, kind, what):
    r = ck.ctx.run_one(fn, tys, i, args={p: V('unlisted', (), p)})
    l = live(r)
    n = len([e for e in r.I.trace if e.kind == 'raise'])
    if l:
        v, g, node = l[0]
        ck.bad('%s not rejected' % kind, '%s(%s)' % (r.name, p), line(node, fn), '%s returns normally for %s' % (fn.qual, what), [show(c, 3) + ('' if q else ' is false') for c, q in g])
    else:
        ck.ok(kind, '%s with %s ends in a raise on every path' % (r.name, what))
