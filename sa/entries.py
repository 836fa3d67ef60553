"""Entry points: which functions are analysed and with which parameter types.

Parameter types come from reading the docstrings; a leading '?' means the
argument may be None.  A parameter not mentioned has type 'unknown', which
makes every rule silent about it."""
import ast

from .interp import Interp, Program, FuncRef, AnalysisError
from .values import V

OS, OP, B, LAT, TR = 'OperatorString', 'Operator', 'Basis', 'Lattice', 'Transformation'
LOS, LOP, LTR = 'list[OperatorString]', 'list[Operator]', 'list[Transformation]'

BY_NAME = {
    'op_string': OS, 'op_string_A': OS, 'op_string_B': OS,
    'operator': OP, 'operatorA': OP, 'operatorB': OP, 'H': OP, 'initial_operator': OP, 'ladder_operator': OP, 'target_operator': '?' + OP,
    'basis': B, 'basisA': B, 'basisB': B, 'basis_from': B, 'basis_to': B,
    'operators': LOP, 'initial_operators': LOP, 'orth_ops': '?' + LOP, 'com_ops': LOP, 'transformations': '?' + LTR,
    'lattice': LAT, 'transform': TR, 'transformation': TR, 'group_generators': LTR, 'symmetry_group': LTR,
    'vector': 'array[complex]', 'vectors': 'array[complex]', 'evecs': 'array[complex]', 'evals': 'array[float]', 'rho': 'array[complex]',
    'com_matrix': 'sparse', 's_constants': 'dict[OperatorString,list]',
    'explored_basis': B, 'explored_extended_basis': B, 'explored_s_constants_data': 'dict[OperatorString,tuple[list[int],list[int],list[complex]]]',
    'explored_data': '?tuple[Basis,Basis,dict[OperatorString,tuple[list[int],list[int],list[complex]]]]',
    'operation_mode': 'str', 'mode': 'str', 'op_type': 'str', 'to_op_type': 'str', 'fmt': 'str', 'method': 'str',
    'tol': 'float', 'threshold': 'float', 'return_extended_basis': 'bool', 'return_data_tuple': 'bool', 'return_superoperator': 'bool',
    'return_operators': 'bool', 'return_tuple': 'bool', 'return_final_params': 'bool', 'include_identity': 'bool', 'verbose': 'bool',
    'sparsification': 'bool', 'orthogonalization': 'bool', 'orthogonalize': 'bool', 'num_vecs': '?int', 'num_orbitals': 'int',
    'num_steps': 'int', 'num_sweeps': 'int', 'permutation': 'list[int]', 'permA': 'list[int]', 'permB': 'list[int]', 'lattice_vectors': 'list[array[float]]',
    'cluster_labels': 'list[int]', 'adjacency_lists': 'list[list[int]]', 'unit_cell': 'UnitCell', 'allowed_orbitals': '?list[int]',
    'orbital_names': '?list[str]', 'positions': 'list[array[float]]', 'position': 'array[float]', 'position1': 'array[float]', 'position2': 'array[float]',
    'orbitals': '?list[str]', 'atom_positions': '?list[array[float]]', 'atom_orbitals': '?list[list[str]]', 'R': 'array[float]', 'd': 'array[float]',
    'point_group_generators': 'list[array[float]]', 'G': 'list[array[float]]', 'delta': 'array[float]', 'precision': 'int', 'up_name': 'str', 'dn_name': 'str',
    'string': 'str', 'nameA': 'str', 'nameB': 'str', 'op_string_name': 'str', 'orbital_name': 'str', 'orb_index': 'int',
    'A': 'array[complex]', 'B': 'array[complex]', 'objects': 'list', 'remaining_orbital_labels': 'list[int]', 'conf': 'int',
    'keywords': '?list[str]', 'convert_to': '?str', 'num_cells': 'tuple', 'c_dag_labels': 'array[int]', 'c_labels': 'array[int]',
    'labelsI': 'array[int]', 'labelsJ': 'array[int]', 'mylist': 'list', 'orbital_operators': 'list[str]', 'orbital_labels': 'list[int]',
    'allowed_labels': '?set[int]', 'basis_size': 'int', 'periodic_boundaries': '?tuple', 'substitutions': 'dict[str,str]',
    'eval_threshold': '?float', 'target_com_norm': '?float', 'min_relative_change': '?float', 'target_fidelity': '?float', 'maxiter_scale': 'int',
    'min_num_evecs': 'int', 'max_num_evecs': 'int', 'num_O_terms': 'int', 'expand_unitary': '?int', 'weight': 'float',
}

# (function, parameter) -> type where the name alone is not enough
BY_PARAM = {
    ('tools.sort_sign', 'vector'): 'array[int]',
    ('lattice.cubic', 'd'): 'int',
    ('basis.Basis.__init__', 'op_strings'): '?' + LOS,
    ('basis.Operator.__init__', 'op_strings'): '?' + LOS,
    ('basis.Operator.__init__', 'coeffs'): '?array[complex]',
    ('basis.Operator.__init__', 'op_type'): '?str',
    ('operatorstring.opstring', 'op_type'): '?str',
    ('basis.Basis.__contains__', 'item'): OS,
    ('basis.Basis.__getitem__', 'index'): 'int',
    ('basis.Basis.__add__', 'other'): B, ('basis.Basis.__iadd__', 'other'): B, ('basis.Basis.__eq__', 'other'): B,
    ('basis.Operator.__add__', 'other'): OP, ('basis.Operator.__iadd__', 'other'): OP, ('basis.Operator.__sub__', 'other'): OP,
    ('basis.Operator.__isub__', 'other'): OP, ('basis.Operator.__eq__', 'other'): OP, ('basis.Operator.__mul__', 'other'): 'num',
    ('basis.Operator.__rmul__', 'other'): 'num', ('operatorstring.OperatorString.__eq__', 'other'): OS,
    ('transformation.Transformation.__mul__', 'other'): TR,
    ('tools.gram_schmidt', 'matrix'): 'array[complex]', ('tools.project_out_nullspace', 'matrix'): 'array[complex]',
    ('diagonalization.to_vector', 'matrix'): 'sparse', ('diagonalization.to_operator', 'matrix'): 'sparse',
    ('core.SymmetricOperatorGenerator.add_symmetry', 'symmetry'): OP,
    ('visualization.print_operators', 'operators'): LOP,
    ('basis.Operator.norm', 'order'): 'unknown', ('operatorstring.OperatorString.__init__', 'prefactor'): 'num',
    ('algorithms._truncate_basis', 'max_basis_size'): 'int', ('algorithms._truncate_operator', 'max_basis_size'): 'int',
    ('transformation.time_reversal', 'spin_info'): 'unknown',
    ('conversion._fermion_string_from_cdag_c_labels', 'prefactor'): 'num',
}

VARIANTS = {
    'algebra.product': [{'op_A': OS, 'op_B': OS}, {'op_A': OP, 'op_B': OP}],
    'algebra.commutator': [{'op_A': OS, 'op_B': OS}, {'op_A': OP, 'op_B': OP}],
    'algebra.anticommutator': [{'op_A': OS, 'op_B': OS}, {'op_A': OP, 'op_B': OP}],
    'algebra.liouvillian_matrix': [{'basis': B}, {'basis': LOP}],
    'algebra.commutant_matrix': [{'basis': B}, {'basis': LOP}],
    'algebra.generate_lie_algebra': [{'operators': B}, {'operators': LOP}],
    'core.commuting_operators': [{'basis': B}, {'basis': LOP}],
    'core.invariant_operators': [{'basis': B}, {'basis': LOP}],
    'transformation.symmetry_matrix': [{'basis': B}, {'basis': LOP}],
    'transformation.Transformation.apply': [{'operator': OS}, {'operator': OP}],
    'conversion.convert': [{'operator': OS}, {'operator': OP}],
    'diagonalization.to_matrix': [{'operator': OS}, {'operator': OP}],
    'basis.Operator.__init__': [{'op_strings': LOS}, {'op_strings': B}, {'op_strings': 'none'}],
    'basis.Basis.__add__': [{'other': B}, {'other': OS}],
    'basis.Basis.__iadd__': [{'other': B}, {'other': OS}],
    'diagonalization.reduced_density_matrix': [{'vector': 'array[complex]'}, {'vector': 'tuple[array[complex],array[complex]]'}],
    'tools.gram_schmidt': [{'matrix': 'array[complex]'}, {'matrix': 'sparse'}],
    'algorithms.selected_ci_greedy': [{'com_ops': OP}, {'com_ops': LOP}],
    'visualization.print_operators': [{}],
    'core.SymmetricOperatorGenerator.add_symmetry': [{'symmetry': OP}, {'symmetry': TR}],
    'lattice.Lattice.distance': [{'position1': 'array[float]', 'position2': 'array[float]'}, {'position1': 'int', 'position2': 'int'}],
    'basis.cluster_basis': [{'k': 'int'}, {'k': 'list[int]'}],
    'transformation.time_reversal': [{'spin_info': LAT}, {'spin_info': 'none'}, {'spin_info': 'tuple[Lattice,str,str]'}],
}


def param_types(fn):
    tys = {}
    if fn.cls is not None and not fn.static:
        ps = fn.params()
        if ps:
            tys[ps[0]] = fn.cls.name
    none = {n for n, e in fn.defaults().items() if isinstance(e, ast.Constant) and e.value is None}
    for p in fn.params() + [x.arg for x in fn.node.args.kwonlyargs]:
        if (fn.qual, p) in BY_PARAM:
            tys[p] = BY_PARAM[(fn.qual, p)]
        elif p in BY_NAME and p not in tys:
            tys[p] = BY_NAME[p]
        elif p not in tys:
            t = guess(p)
            if t:
                tys[p] = t
        if p in none and tys.get(p) and tys[p] not in ('unknown', 'none') and not tys[p].startswith('?'):
            tys[p] = '?' + tys[p]
    return tys


def guess(p):
    """types of parameters of functions added later (helpers): by name prefix"""
    for k, t in (('op_string', OS), ('opstring', OS), ('operator', OP), ('basis', B), ('lattice', LAT), ('transformation', TR), ('num_', 'int'), ('return_', 'bool'), ('ind_', 'int')):
        if p.startswith(k) and not p.endswith('s') and 'size' not in p:
            return t
    return None


def variants(fn):
    base = param_types(fn)
    out = []
    for v in VARIANTS.get(fn.qual, [{}]):
        d = dict(base)
        ok = all(k in fn.params() for k in v)
        if ok:
            d.update(v)
        out.append(d)
    return out


def is_public(fn):
    n = fn.name
    dunder = n.startswith('__') and n.endswith('__')
    return dunder or not n.startswith('_')


PRIVATE_ENTRIES = {
    'algebra._operation_opstring', 'algebra._operation_operator', 'algorithms._truncate_basis', 'algorithms._truncate_operator',
    'algorithms._explore',
}


class Run:
    __slots__ = ('fn', 'types', 'I', 'variant', 'public')

    def __init__(self, fn, types, I, variant, public):
        self.fn, self.types, self.I, self.variant, self.public = fn, types, I, variant, public

    @property
    def name(self):
        v = VARIANTS.get(self.fn.qual)
        if v and len(v) > 1:
            d = v[self.variant]
            return '%s(%s)' % (self.fn.qual, ', '.join('%s: %s' % kv for kv in sorted(d.items())))
        return self.fn.qual


class Context:
    def __init__(self, root='/repo'):
        self.prog = Program(root)
        self.cache = {}
        self.failures = []

    def run_one(self, fn, types, variant=0, opaque=(), heap=None, args=None, hook=None, **kw):
        I = Interp(self.prog, opaque=opaque, **kw)
        I.hook = hook
        I.run(fn, args=args, types=types, heap=heap(I) if callable(heap) else heap)
        return Run(fn, types, I, variant, is_public(fn))

    def entries(self, only=None, opaque=(), private=True, tag=''):
        """run (and remember) every entry function x variant"""
        for fn in list(self.prog.functions()):
            if only is not None and not only(fn):
                continue
            if self.prog.helper(fn) and only is None:
                continue
            if not private and not is_public(fn) and fn.qual not in PRIVATE_ENTRIES:
                continue
            for i, tys in enumerate(variants(fn)):
                k = (fn.qual, i, frozenset(opaque), tag)
                if k not in self.cache:
                    try:
                        self.cache[k] = self.run_one(fn, tys, i, opaque)
                    except (AnalysisError, RecursionError) as e:
                        self.failures.append('%s: %s' % (fn.qual, e))
                        self.cache[k] = None
                r = self.cache[k]
                if r is not None:
                    yield r
