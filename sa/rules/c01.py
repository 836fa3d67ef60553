"""C01: no public call changes an object it was given."""
from ..alias import Alias, mutations
from ..common import transformation_rules
from ..entries import is_public, variants
from ..interp import AnalysisError

# entry -> parameter -> allowed first fields (None: anything of that argument)
ALLOWED = {
    'basis.Basis.__iadd__': {'self': None},
    'basis.Operator.__iadd__': {'self': None},
    'basis.Operator.__isub__': {'self': None},
    'basis.Operator.normalize': {'self': {'coeffs', ''}},
    'lattice.UnitCell.add_atom': {'self': {'atom_positions', 'atom_orbitals', ''}},
    'core.SymmetricOperatorGenerator.add_symmetry': {'self': 'not basis'},
    'core.SymmetricOperatorGenerator.generate': {'self': 'not inputs'},
}
EXPLORED = {'explored_data'}


def allowed(fn, p, path):
    if fn.name == '__init__' and fn.cls is not None and p == fn.params()[0]:
        return True
    if fn.name.startswith('selected_ci') and p in EXPLORED:
        return True
    a = ALLOWED.get(fn.qual, {})
    if p not in a:
        return False
    r = a[p]
    if r is None:
        return True
    first = path[0] if path else ''
    if r == 'not basis':
        return first != 'basis'
    if r == 'not inputs':
        return not (first == 'basis' or (first == 'input_symmetries' and len(path) > 1))
    return first in r


LISTS = {'list[int]': 'array[int]', '?list[int]': 'array[int]', 'list[float]': 'array[float]', 'tuple': 'array[int]', '?tuple': 'array[int]', 'list[array[float]]': 'array[float]'}


def calls(ck):
    """every public function, once more with arrays where lists are accepted, and the rules that a transformation runs on its own info"""
    rules = transformation_rules(ck.ctx)
    for r in ck.ctx.entries(private=False):
        if is_public(r.fn):
            yield r, None
    more = [(fn, {p: LISTS.get(t, t) for p, t in tys.items()}, i, None) for fn in list(ck.ctx.prog.judged()) if is_public(fn) for i, tys in enumerate(variants(fn)) if any(t in LISTS for t in tys.values())]
    for q, (fn, made) in rules.items():
        for i, tys in enumerate(variants(fn)):
            more.append((fn, dict(tys, info='array[int]'), i, 'info'))
    for fn, tys, i, only in more:
        try:
            r = ck.ctx.run_one(fn, tys, i)
        except (AnalysisError, RecursionError) as e:
            ck.ctx.failures.append('%s: %s' % (fn.qual, e))
            continue
        if r is not None:
            yield r, only


def run(ck):
    for r, only in calls(ck):
        I = r.I
        A = Alias(I)
        n = 0
        bad = set()
        names = [p for p, v in I.params.items()]
        for e, target, what in mutations(I):
            n += 1
            for ob in A.pts(target):
                if ob[0] == 'P' and only in (None, ob[1]) and not allowed(r.fn, ob[1].lstrip('*'), ob[2]):
                    bad.add(ob[1])
                    ck.bad('argument-mutated', '%s modifies its argument %s in %s' % (r.fn.qual, ob[1], e.fn.qual), e.where,
                           '%s: %s on an object reachable from argument %r (access path %s) of entry point %s' % (e.where, what, ob[1], '.'.join((ob[1],) + ob[2]), r.name))
        ck.count('mutating operations examined', n)
        ck.count('entry points')
        for p in names:
            if p not in bad:
                ck.ok('argument obligations', '%s leaves %s alone (%d mutating operations reachable)' % (r.name, p, n))
    ck.floor('entry points', 110)
    ck.floor('mutating operations examined', 2500)
