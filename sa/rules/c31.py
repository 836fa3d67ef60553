"""C31: the library's functions hand one another values of the documented kind."""
from ..entries import variants
from ..types import ATTRS, RET, base, targs

RULE = ('The kinds of all values (operator string, operator, basis, transformation, lattice, number, text, sequence of ..., '
        'sparse matrix) are inferred along the paths of every entry point.  At each call from one library function to another '
        'the kind of each argument is compared with the kinds the called function documents for that parameter, the kind of '
        'each returned value with the documented result and of each value kept in an object with what the class keeps there, and numpy/scipy routines for dense arrays are checked not to be '
        'given sparse matrices or objects of the library.')

NUM = {'int', 'float', 'num', 'complex', 'bool'}
SEQ = {'list', 'tuple', 'array', 'set', 'iter'}
CLASSES = {'OperatorString', 'Operator', 'Basis', 'Transformation', 'Lattice', 'UnitCell', 'SymmetricOperatorGenerator'}
# what iterating over an object of the library yields
ELEMENTS = {'Basis': 'OperatorString', 'Operator': 'tuple[complex,OperatorString]', 'OperatorString': 'tuple[str,int]'}
KNOWN = NUM | SEQ | CLASSES | {'str', 'none', 'dict', 'sparse', 'func'}
OPER = ('tuple[num,?OperatorString]', 'Operator')
PAIR = ('tuple[array,array]', 'tuple[sparse,sparse]', 'tuple[array,sparse]', 'tuple[sparse,array]')
CI = ('tuple[Operator,num,list[Operator],list[num]]',)
# documented results of functions that are not typed in the engine
RESULT = {
    'algebra._operation_opstring': OPER[:1], 'algebra.product': OPER, 'algebra.commutator': OPER, 'algebra.anticommutator': OPER,
    'algebra.structure_constants': ('list', 'dict[OperatorString,list]'),
    'algebra.liouvillian_matrix': ('sparse', 'tuple[sparse,Basis]'), 'algebra._liouvillian_matrix_opstrings': ('sparse', 'tuple[sparse,Basis]'),
    'algebra._liouvillian_matrix_operators': ('sparse', 'tuple[sparse,Basis]'), 'algebra.commutant_matrix': ('sparse', 'tuple[sparse,sparse]'),
    'algorithms._l_matrix': ('sparse',), 'algorithms._com_matrix': ('sparse',), 'algorithms._orthogonalize_com_matrix': ('sparse',),
    'algorithms._symmetrize_com_matrix': ('sparse',),
    'algorithms.selected_ci_simple': CI, 'algorithms.selected_ci': CI, 'algorithms.selected_ci_sweep': CI, 'algorithms.selected_ci_greedy_simple': CI,
    'algorithms.highest_fidelity_operator': ('tuple[array,array,num]', 'tuple[array,int,num]'),
    'algorithms.selected_ci_greedy_many_ops': ('tuple[list[list[Operator]],list]',), 'algorithms.selected_ci_greedy_many_ops2': ('tuple[list[list[Operator]],list]',),
    'basis.Operator.to_vector': ('array[complex]', 'sparse'), 'conversion._fermion_string_from_cdag_c_labels': ('OperatorString',),
    'core.commuting_operators': ('array', 'tuple[array,sparse,array,array]'), 'core.invariant_operators': ('array', 'tuple[array,sparse,array,array]'),
    'core._ladder_operators': ('tuple[array,array]', 'tuple[list[Operator],array]'),
    'core._ladder_operators_original': ('tuple[array,array]', 'tuple[list[Operator],array]'),
    'core._inverse_ladder_operators': ('tuple[array,array]', 'tuple[Operator,list[Operator]]', 'tuple[none,array]'),
    'diagonalization.to_operator': ('Operator',), 'diagonalization.apply_transformation': ('array[complex]',), 'diagonalization.apply_transformation_conf': ('int',),
    'diagonalization._apply_opstring': ('tuple[num,int]',), 'diagonalization.reduced_density_matrix': ('array',), 'diagonalization.renyi_entropy': ('num',),
    'diagonalization.diagonalize': ('tuple[array,array]',), 'diagonalization.diagonalize_quadratic': ('tuple[num,array,array,array]',),
    'diagonalization.diagonalize_quadratic_tightbinding': ('tuple[array,array]',), 'diagonalization.diagonalize_bdg': ('tuple[array,array,array]',),
    'lattice.cubic': ('Lattice',), 'lattice.square': ('Lattice',), 'lattice.chain': ('Lattice',), 'lattice.kagome': ('Lattice',), 'lattice.Lattice.__str__': ('str',),
    'symmetrization._symmetrize_opstring': ('Operator',), 'symmetrization.symmetrize_basis': ('list[Operator]',), 'symmetrization.symmetrize_lattice': ('Lattice',),
    'symmetrization._symmetrize_atoms': ('Lattice',), 'symmetrization._expand_lattice': ('Lattice',), 'symmetrization._remove_duplicate_atoms': ('Lattice',),
    'tools.argsort': ('list[int]',), 'tools.remove_duplicates': ('list',), 'tools.compose_permutations': ('array[int]',),
    'transformation._permutation_rule': ('Operator',), 'transformation._time_reversal_rule': ('Operator',), 'transformation._particle_hole_rule': ('Operator',),
    'transformation._sz_rule': ('Operator',), 'transformation.Transformation._product_rule': ('Operator',),
    **{'transformation.' + n: ('Transformation',) for n in ('label_permutation', 'space_group_symmetry', 'spin_flip_symmetry', 'spin_parity_symmetry', 'time_reversal',
                                                             'particle_hole', 'charge_conjugation', 'Transformation.__mul__', 'Transformation.__pow__')},
}
DENSE = {'numpy.dot', 'numpy.vdot', 'numpy.inner', 'numpy.outer', 'numpy.kron', 'numpy.diag', 'numpy.hstack', 'numpy.vstack', 'numpy.allclose',
         'numpy.concatenate', 'numpy.argsort', 'numpy.trace', 'numpy.isclose', 'numpy.real_if_close'}


def clash(want, t, deep=True):
    """why a value of kind t can never be what is documented as `want`; None if it can"""
    if t.startswith('?') or want == 'unknown' or t == 'unknown':
        return None
    maybe, w = want.startswith('?'), want.lstrip('?')
    b, c = base(w), base(t)
    if b not in KNOWN or c not in KNOWN:
        return None
    if c == 'none':
        return None if maybe or b == 'none' else 'None'
    if b == 'none':
        return t
    if b in NUM:
        return None if c in NUM or c == 'array' else t
    if b == 'str':
        return None if c == 'str' else t
    if b in CLASSES:
        return None if c == b else t
    if b == 'dict':
        return None if c == 'dict' else t
    if b == 'func':
        return t if c in NUM | SEQ | {'str', 'dict', 'sparse', 'OperatorString', 'Operator', 'Basis', 'Lattice'} else None
    if b == 'sparse':
        return t if c in NUM | CLASSES | {'str', 'dict', 'func', 'set'} or (c in SEQ and elements(t) in CLASSES | {'str'}) else None
    if b in SEQ:
        if c in NUM:
            return t
        if c == 'sparse':
            return None if b == 'array' else t
        if c == 'func':
            return t
        if c == 'dict':
            return t
        if b == 'tuple' and len(targs(w)) > 1:
            if c == 'tuple' and len(targs(t)) > 1:
                if len(targs(w)) != len(targs(t)):
                    return t
                return next((t for x, y in zip(targs(w), targs(t)) if clash(x, y)), None)
            return t if c in CLASSES | {'str'} else None
        x = elements(w)
        y = elements(t)
        if c == 'str':
            return t if x not in ('str', 'unknown') else None
        if c in CLASSES and c not in ELEMENTS:
            return t
        if x == 'unknown' or y == 'unknown':
            return None
        return t if clash(x, y) else None
    return None


def elements(t):
    b, a = base(t), targs(t)
    if b in ELEMENTS:
        return ELEMENTS[b]
    if b in ('list', 'set', 'array', 'iter') and a:
        return a[0]
    if b == 'tuple' and a:
        return a[0] if len(set(a)) == 1 else 'unknown'
    return 'unknown'


def run(ck):
    prog = ck.ctx.prog
    for r in ck.ctx.entries():
        T = r.I.T
        for e in r.I.trace:
            if e.kind in ('icall', 'rcall'):
                arguments(ck, prog, T, e)
            elif e.kind == 'store_attr':
                attributes(ck, prog, T, e)
            elif e.kind == 'call':
                external(ck, prog, T, e)
        results(ck, r, T)
    ck.floor('arguments of known kind', 3000)
    ck.floor('results of known kind', 90)
    ck.floor('attributes of known kind', 2000)


def arguments(ck, prog, T, e):
    q = e.x[0] if e.kind == 'icall' else e.x
    fn = prog.find(q) if isinstance(q, str) else None
    if fn is not None and not hasattr(fn, 'params'):
        fn = prog.find(q + '.__init__')
    if fn is None or prog.helper(fn):
        return
    names = fn.params() + [x.arg for x in fn.node.args.kwonlyargs]
    if e.kind == 'rcall' and q + '.__init__' == fn.qual:
        names = names[1:]
    wants = variants(fn)
    for n, v in zip(names, e.args):
        if n == 'self' and fn.cls is not None:
            continue
        ws = sorted({w.get(n, 'unknown') for w in wants})
        t = T.ty(v)
        if t in ('unknown', 'undef', 'opaque') or 'unknown' in ws:
            continue
        why = [clash(w, t) for w in ws]
        who = prog.owner(e)
        if all(why):
            ck.bad('wrong kind of argument', '%s: %s of %s' % (who.qual, n, fn.qual), e.where,
                   'parameter %s of %s is documented as %s and given %s' % (n, fn.qual, ' or '.join(ws), t))
        else:
            ck.ok('arguments of known kind', '%s: %s of %s is %s' % (who.qual, n, fn.qual, t))


def attributes(ck, prog, T, e):
    want = ATTRS.get(base(T.ty(e.args[0])), {}).get(e.x[0])
    t = T.ty(e.args[1]) if len(e.args) > 1 else 'unknown'
    if want is None or want == 'unknown' or base(t) in ('unknown', 'undef', 'opaque', 'none'):
        return
    if clash(want, t):
        ck.bad('wrong kind in an attribute', '%s: %s' % (prog.owner(e).qual, e.x[0]), e.where,
               'attribute %s of %s holds %s and is given %s' % (e.x[0], base(T.ty(e.args[0])), want, t))
    else:
        ck.ok('attributes of known kind', '%s.%s is %s' % (base(T.ty(e.args[0])), e.x[0], t))


def external(ck, prog, T, e):
    q = e.x[0] if isinstance(e.x, tuple) else e.x
    if not isinstance(q, str) or not q.startswith(('numpy.', 'scipy.')):
        return
    for v in e.args:
        t = T.ty(v)
        if t.startswith('?'):
            continue
        c = base(t)
        if c in CLASSES - {'Basis', 'Operator', 'OperatorString'} or (c in CLASSES and not q.startswith('numpy.array')):
            ck.bad('library object for a numerical routine', '%s: %s' % (prog.owner(e).qual, q), e.where, '%s is given an object of class %s' % (q, c))
        elif c == 'sparse' and (q in DENSE or q.startswith('numpy.linalg.') or (q.startswith('scipy.linalg.'))):
            ck.bad('sparse matrix for a dense routine', '%s: %s' % (prog.owner(e).qual, q), e.where, '%s does not handle sparse matrices and is given one' % q)
        elif c != 'unknown':
            ck.ok('arguments of numerical routines')


def results(ck, r, T):
    want = RESULT.get(r.fn.qual) or (RET.get(r.fn.qual, 'unknown'),)
    if 'unknown' in want:
        return
    for v, g, node, st in r.I.returns:
        if r.I.isdead(st):
            continue
        for x in ([v] if v.op != 'join' else list(v.args)):
            t = T.ty(x)
            if t in ('unknown', 'undef', 'opaque'):
                continue
            if all(clash(w, t) for w in want):
                ck.bad('wrong kind of result', r.fn.qual, 'qosy/%s.py:%s' % (r.fn.qual.split('.')[0], getattr(node, 'lineno', r.fn.node.lineno)),
                       'the result of %s is documented as %s and can be %s' % (r.fn.qual, ' or '.join(want), t))
            else:
                ck.ok('results of known kind', '%s returns %s' % (r.fn.qual, t))
