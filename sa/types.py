"""Light-weight type inference for value-flow nodes.

Types are strings: 'Operator', 'list[Basis]', 'array[complex]', 'num', ...
'unknown' means the rules stay silent about the value."""

SCALARS = {'int', 'float', 'complex', 'num', 'bool', 'str', 'none', 'type', 'func'}
NUMS = ('bool', 'int', 'float', 'num', 'complex')

# declared attribute types of the library classes (only consulted for
# attributes the class really assigns)
ATTRS = {
    'OperatorString': {'orbital_operators': 'array[str]', 'orbital_labels': 'array[int]', 'op_type': 'str', 'prefactor': 'num',
                       'name': 'str', '_indices_orbital_labels': 'dict[int,int]', '_labels_ab_operators': 'array[int]'},
    'Basis': {'op_strings': 'list[OperatorString]', '_indices': 'dict[OperatorString,int]'},
    'Operator': {'coeffs': 'array[complex]', '_basis': 'Basis', 'op_type': 'str'},
    'Transformation': {'rule': 'rule', 'info': 'unknown'},
    'UnitCell': {'lattice_vectors': 'list[array[float]]', 'atom_positions': 'list[array[float]]', 'atom_orbitals': 'list[list[str]]'},
    'Lattice': {'unit_cell': 'UnitCell', 'num_cells': 'tuple', 'precision': 'int', 'tol': 'float',
                '_orbitals': 'list[tuple[array[float],str,tuple]]', '_indices_orbitals': 'dict', 'dim': 'int',
                'periodic_boundaries': 'array[bool]', '_boundary_vectors': 'list[array[float]]'},
    'SymmetricOperatorGenerator': {'basis': 'Basis', 'operation_modes': 'list[str]', 'input_symmetries': 'list', 'num_vecs': 'list',
                                   'superoperators': 'list[sparse]', 'eigenvalues': 'list[array[float]]', 'eigenvectors': 'list[array]',
                                   'output_operators': 'list[array]', 'projected_superoperators': 'list',
                                   'projected_eigenvalues': 'list', 'projected_eigenvectors': 'list', 'projected_output_operators': 'list'},
}

# parameter types of constructors, used to infer undeclared attributes
RET = {
    'basis.Basis.index': 'int', 'basis.Basis.__len__': 'int', 'basis.Basis.__getitem__': 'OperatorString',
    'basis.Basis.__iter__': 'list[OperatorString]', 'basis.Basis.__contains__': 'bool', 'basis.Basis.__add__': 'Basis',
    'basis.Basis.__iadd__': 'Basis', 'basis.Basis.__eq__': 'bool', 'basis.Basis.__str__': 'str',
    'basis.Operator.norm': 'float', 'basis.Operator.__len__': 'int', 'basis.Operator.__add__': 'Operator',
    'basis.Operator.__iadd__': 'Operator', 'basis.Operator.__mul__': 'Operator', 'basis.Operator.__rmul__': 'Operator',
    'basis.Operator.__sub__': 'Operator', 'basis.Operator.__neg__': 'Operator', 'basis.Operator.__isub__': 'Operator',
    'basis.Operator.remove_zeros': 'Operator', 'basis.Operator.normalize': 'none', 'basis.Operator.__str__': 'str', 'basis.Operator.__eq__': 'bool',
    'basis.Operator.__iter__': 'list[tuple[complex,OperatorString]]',
    'operatorstring.OperatorString': 'OperatorString', 'basis.Basis': 'Basis', 'basis.Operator': 'Operator',
    'operatorstring.OperatorString.__eq__': 'bool', 'operatorstring.OperatorString.__hash__': 'int', 'operatorstring.OperatorString.__str__': 'str',
    'operatorstring.opstring': 'OperatorString',
    'transformation.Transformation.apply': 'Operator', 'transformation.Transformation': 'Transformation',
    'transformation.symmetry_matrix': 'sparse', 'transformation._symmetry_matrix_opstrings': 'sparse',
    'transformation._symmetry_matrix_operators': 'sparse',
    'lattice.Lattice.index': 'int', 'lattice.Lattice.distance': 'float', 'lattice.Lattice.position': 'array[float]',
    'lattice.Lattice.__len__': 'int', 'lattice.Lattice': 'Lattice', 'lattice.UnitCell': 'UnitCell',
    'lattice.Lattice.__iter__': 'list[tuple[array[float],str,tuple]]',
    'tools.sort_sign': 'tuple[array,int]', 'tools.sign': 'int', 'tools.compare': 'int', 'tools.gram_schmidt': 'unknown',
    'tools.intersection': 'array', 'tools.sparsify': 'array', 'tools.maximal_cliques': 'list[list[int]]', 'tools.swap': 'str', 'tools.replace': 'str',
    'tools.connected_components': 'list[list[int]]',
    'algebra._operation_opstring': 'tuple[num,OperatorString]', 'algebra._operation_operator': 'Operator',
    'algebra.generate_lie_algebra': 'unknown',
    'conversion.convert': 'Operator', 'conversion._convert_operator': 'Operator', 'conversion._convert_operator_string': 'Operator',
    'conversion._convert_majorana_string': 'Operator', 'conversion._convert_fermion_string': 'Operator',
    'conversion._jordan_wigner': 'tuple[num,OperatorString]', 'conversion.conversion_matrix': 'sparse',
    'algorithms._truncate_basis': 'Basis', 'algorithms._truncate_operator': 'Operator',
    'algorithms._explore': 'tuple[sparse,Basis]',
    'basis.cluster_basis': 'Basis', 'basis.distance_basis': 'Basis',
    'diagonalization._to_matrix_opstring': 'unknown', 'diagonalization.to_vector': 'array[complex]', 'diagonalization.to_matrix': 'sparse',
}

ARRAY_CALLS = {'zeros', 'ones', 'empty', 'full', 'eye', 'identity', 'arange', 'linspace', 'dot', 'hstack', 'vstack', 'concatenate', 'pad', 'kron',
               'outer', 'matmul', 'diag', 'copy', 'transpose', 'sort', 'argsort', 'where', 'array2string', 'zeros_like', 'empty_like', 'ones_like',
               'cumsum', 'roll', 'flip', 'unique', 'nonzero', 'flatnonzero', 'tensordot', 'einsum', 'logical_and', 'logical_or', 'logical_not',
               'triu', 'tril', 'repeat', 'tile', 'stack', 'column_stack', 'take', 'delete', 'append', 'lexsort', 'isin', 'in1d', 'union1d', 'setdiff1d'}
ELEMWISE = {'abs', 'absolute', 'real', 'imag', 'conj', 'conjugate', 'sqrt', 'exp', 'log', 'sin', 'cos', 'square', 'power', 'minimum', 'maximum',
            'multiply', 'add', 'subtract', 'divide', 'true_divide', 'sign', 'isclose', 'angle', 'round', 'around', 'negative', 'asarray', 'fabs', 'arctan2'}
REDUCE = {'sum', 'prod', 'max', 'min', 'amax', 'amin', 'mean', 'trace', 'vdot', 'inner', 'argmax', 'argmin', 'count_nonzero'}
SPARSE_CLASSES = {'csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'dok_matrix', 'eye', 'identity', 'diags', 'hstack', 'vstack', 'block_diag', 'bmat', 'kron', 'csr_array', 'csc_array', 'dia_matrix', 'spdiags'}
SPARSE_SAME = {'dot', 'getH', 'transpose', 'conj', 'conjugate', 'copy', 'tocsr', 'tocsc', 'tocoo', 'tolil', 'multiply', 'astype', 'todia', 'todok', 'getrow', 'getcol', 'power', 'asformat'}


def base(t):
    t = t[1:] if t.startswith('?') else t
    return t.split('[', 1)[0]


def targs(t):
    t = t[1:] if t.startswith('?') else t
    if '[' not in t:
        return []
    s = t[t.index('[') + 1:-1]
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '[':
            depth += 1
        elif ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def joint(ts):
    ts = [t for t in ts if t not in ('undef',)]
    if not ts:
        return 'unknown'
    nn = [t for t in ts if t != 'none']
    maybe = len(nn) != len(ts) or any(t.startswith('?') for t in nn)
    nn = [t[1:] if t.startswith('?') else t for t in nn]
    if not nn:
        return 'none'
    s = set(nn)
    if len(s) == 1:
        r = nn[0]
    else:
        bs = {base(t) for t in s}
        if len(bs) == 1:
            b = bs.pop()
            ar = [targs(t) for t in s]
            full = [a for a in ar if a]
            if b in ('list', 'set', 'array', 'dict') and full:
                # unrefined ('list' with no contents) joins with the refined one
                r = '%s[%s]' % (b, ','.join(joint([a[i] for a in full]) for i in range(min(len(a) for a in full))))
            elif b == 'tuple' and len({len(a) for a in ar}) == 1 and ar[0]:
                r = 'tuple[%s]' % ','.join(joint([a[i] for a in ar]) for i in range(len(ar[0])))
            else:
                r = b
        elif all(x in NUMS for x in bs):
            r = 'complex' if 'complex' in bs and 'num' not in bs else 'num'
        else:
            r = 'unknown'
    if r == 'unknown':
        return r
    return '?' + r if maybe else r


class Types:
    def __init__(self, interp):
        self.I = interp
        self.busy = set()
        self.steps, self.partial = 0, None
        self.assigned = {}

    # -------------------------------------------------------------- classes
    def repo_class(self, t):
        if not t:
            return None
        b = base(t)
        return self.I.prog.by_class.get(b)

    def class_attrs(self, c):
        """attributes assigned anywhere to self in the class, or by name on other objects"""
        import ast
        if c.qual not in self.assigned:
            s = set()
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        s.add(n.attr)
            s |= set(c.attrs) | set(c.methods)
            self.assigned[c.qual] = s
        return self.assigned[c.qual]

    def attr_type(self, tname, attr):
        t = ATTRS.get(tname, {}).get(attr)
        return t or 'unknown'

    def mutable(self, v):
        t = self.ty(v)
        b = base(t)
        if b in ('list', 'set', 'dict', 'array', 'sparse'):
            return True
        return self.repo_class(t) is not None

    # -------------------------------------------------------------- inference
    def ty(self, v):
        c = v.tyc
        if c is not None:
            return c
        if v.uid in self.busy:
            return 'undef' if v.op in ('mu', 'new', 'join') else 'unknown'
        # values that contain each other: a question that takes too many steps is finished with remembered partial answers
        if not self.busy:
            self.steps, self.partial = 0, None
        elif self.partial is not None and v.uid in self.partial:
            return self.partial[v.uid]
        self.steps += 1
        if self.steps == 3000:
            self.partial = {}
        self.busy.add(v.uid)
        try:
            t = self._ty(v)
        finally:
            self.busy.discard(v.uid)
        if self.partial is not None:
            self.partial[v.uid] = t
        if v.op in ('param', 'const', 'inst', 'tuple', 'narrow', 'call', 'rcall', 'func') and not self.busy:
            if t not in ('unknown', 'undef') and 'unknown' not in t and v.op != 'tuple':
                v.tyc = t
        return t

    def elem(self, t):
        b, a = base(t), targs(t)
        if b in ('list', 'set', 'array', 'iter') and a:
            return a[0]
        if b == 'dict' and a:
            return a[0]
        if b == 'tuple' and a:
            return joint(a)
        if b == 'str':
            return 'str'
        if b == 'Basis':
            return 'OperatorString'
        if b == 'Operator':
            return 'tuple[complex,OperatorString]'
        if b == 'OperatorString':
            return 'tuple[str,int]'
        if b == 'Lattice':
            return 'tuple[array[float],str,tuple]'
        return 'unknown'

    def _ty(self, v):
        o = v.op
        if o == 'const':
            x = v.x
            if x is None:
                return 'none'
            n = type(x).__name__
            return n if n in ('str', 'int', 'float', 'complex', 'bool', 'tuple') else 'unknown'
        if o == 'param':
            return v.x[2] or 'unknown'
        if o == 'unlisted':
            return 'opaque'
        if o == 'inst':
            return v.x.name
        if o in ('func', 'bound', 'cls', 'ext'):
            return 'func'
        if o == 'idx':
            return 'int'
        if o == 'tuple':
            return 'tuple[%s]' % ','.join(self.ty(a) for a in v.args) if v.args else 'tuple'
        if o == 'narrow':
            t = self.ty(v.args[0])
            if base(t) == v.x and not t.startswith('?'):
                return t
            if base(t) == v.x:
                return t[1:]
            return v.x
        if o == 'join':
            return joint([self.ty(a) for a in v.args])
        if o == 'mu':
            ts = [self.ty(v.args[0])] + [self.ty(b) for b in v.back]
            return joint(ts)
        if o == 'undef':
            return 'undef'
        if o == 'new':
            return self._new(v)
        if o == 'attr':
            return self._attr(v)
        if o == 'elem':
            t = self._elemv(v.args[0])
            return t
        if o == 'item':
            return self._item(v)
        if o == 'slice':
            return 'slice'
        if o in ('bin', 'aug'):
            return self._bin(v.x, self.ty(v.args[0]), self.ty(v.args[1]))
        if o == 'un':
            t = self.ty(v.args[0])
            return 'bool' if v.x == 'not' else t
        if o == 'cmp':
            if v.x in ('In', 'Is'):
                return 'bool'
            bs = {base(self.ty(a)) for a in v.args}
            if 'array' in bs:
                return 'array[bool]'
            if 'sparse' in bs:
                return 'sparse'
            if bs <= SCALARS | {'list', 'tuple', 'opaque'} or any(self.repo_class(b) for b in bs):
                return 'bool'
            return 'unknown'
        if o == 'bool':
            t = joint([self.ty(a) for a in v.args])
            return t
        if o == 'call':
            return self._call(v)
        if o == 'mcall':
            return self._mcall(v)
        if o == 'rcall':
            t = self.I.ret_types.get(v.x) or RET.get(v.x)
            if t:
                return t
            return 'unknown'
        if o == 'dyn':
            f = v.args[0]
            if f.op == 'attr' and f.x == 'rule':
                return 'Operator'
            if self.ty(f) == 'rule':
                return 'Operator'
            return 'unknown'
        return 'unknown'

    def _new(self, v):
        k = v.x
        I = self.I
        if k == 'dict':
            ks, vs = [], []
            for kk, w in (I.objinit.get(v.uid) or []):
                if kk is not None:
                    ks.append(self.ty(kk))
                vs.append(self.ty(w))
            for e in I.byobj.get(v.uid, ()):
                if e.kind == 'store_item' and e.args[0] is v:
                    ks.append(self.ty(e.args[1]))
                    vs.append(self.ty(e.args[2]))
            if not ks:
                return 'dict'
            return 'dict[%s,%s]' % (joint(ks), joint(vs or ['unknown']))
        cs = I.contents(v)
        ext = []
        for e in I.byobj.get(v.uid, ()):
            if e.kind == 'method' and e.x == 'extend' and e.args[0] is v:
                ext.append(self._elemv(e.args[1]))
        if not cs and not ext:
            return k
        return '%s[%s]' % (k, joint([self.ty(c) for c in cs] + ext))

    def _elemv(self, it):
        t = self.ty(it)
        return self.elem(t)

    def _attr(self, v):
        t = self.ty(v.args[0])
        c = self.repo_class(t)
        if c is not None:
            return self.attr_type(base(t), v.x)
        b = base(t)
        if b == 'array':
            if v.x in ('T', 'real', 'imag'):
                return t
            if v.x == 'shape':
                return 'tuple'
            if v.x in ('ndim', 'size'):
                return 'int'
        if b == 'sparse':
            if v.x in ('H', 'T', 'real', 'imag', 'A'):
                return 'sparse' if v.x != 'A' else 'array'
            if v.x in ('row', 'col', 'indices', 'indptr'):
                return 'array[int]'
            if v.x == 'data':
                return 'array[complex]'
            if v.x == 'shape':
                return 'tuple[int,int]'
            if v.x == 'nnz':
                return 'int'
        if b in NUMS and v.x in ('real', 'imag'):
            return 'float'
        return 'unknown'

    def _item(self, v):
        b, i = v.args
        t = self.ty(b)
        bb, a = base(t), targs(t)
        if bb == 'dict':
            return a[1] if len(a) > 1 else 'unknown'
        if i.op == 'slice':
            return t if bb in ('list', 'array', 'str', 'tuple') and not (bb == 'tuple' and a) else ('sparse' if bb == 'sparse' else 'tuple' if bb == 'tuple' else 'unknown')
        it = self.ty(i)
        ib = base(it)
        if bb == 'tuple':
            if i.op == 'const' and isinstance(i.x, int) and a and -len(a) <= i.x < len(a):
                return a[i.x]
            return joint(a) if a else 'unknown'
        if bb == 'list':
            return a[0] if a else 'unknown'
        if bb == 'str':
            return 'str'
        if bb == 'array':
            if ib in ('array', 'list'):
                return t
            if ib in NUMS:
                return a[0] if a else 'unknown'
            if i.op == 'tuple':
                if any(x.op == 'slice' or base(self.ty(x)) in ('array', 'list') for x in i.args):
                    return 'array'
                return 'num'
            return 'unknown'
        if bb == 'sparse':
            if i.op == 'tuple':
                if any(x.op == 'slice' or base(self.ty(x)) in ('array', 'list') for x in i.args):
                    return 'sparse'
                if all(base(self.ty(x)) in NUMS for x in i.args):
                    return 'num'
            if ib in ('array', 'list'):
                return 'sparse'
            return 'unknown'
        if bb == 'Basis':
            return 'OperatorString'
        return 'unknown'

    def _bin(self, op, a, b):
        ab, bb = base(a), base(b)
        if ab == 'sparse' or bb == 'sparse':
            return 'sparse' if (ab in NUMS + ('sparse', 'unknown')) and (bb in NUMS + ('sparse', 'unknown')) else 'unknown'
        if ab == 'array' or bb == 'array':
            ts = [targs(x)[0] if targs(x) else None for x, y in ((a, ab), (b, bb)) if y == 'array']
            if all(ts) and len(ts) == 2 and ts[0] == ts[1]:
                return 'array[%s]' % ts[0]
            if len(ts) == 1 and ts[0]:
                if ts[0] == 'complex':
                    return 'array[complex]'
                other = bb if ab == 'array' else ab
                if other in NUMS:
                    j = joint([ts[0], other])
                    return 'array[%s]' % ('float' if op == 'Div' and j in ('int',) else 'num' if ts[0] != other else j)
            return 'array'
        if ab == 'list' and bb == 'list' and op == 'Add':
            return joint([a, b])
        if ab == 'set' and bb == 'set' and op in ('BitOr', 'BitAnd', 'BitXor', 'Sub'):
            return joint([a, b]) if op in ('BitOr', 'BitXor') else a
        if op == 'Mult' and ((ab == 'list' and bb in NUMS) or (bb == 'list' and ab in NUMS)):
            return a if ab == 'list' else b
        if op == 'Mult' and ((ab in ('tuple', 'str') and bb == 'int') or (bb in ('tuple', 'str') and ab == 'int')):
            return ab if ab in ('tuple', 'str') else bb
        if ab == 'tuple' and bb == 'tuple' and op == 'Add':
            return 'tuple'
        if ab == 'str' and (bb == 'str' or op == 'Mod'):
            return 'str'
        if ab in NUMS and bb in NUMS:
            if op == 'Div':
                return 'float' if ab in ('int', 'bool', 'float') and bb in ('int', 'bool', 'float') else 'num'
            return joint([a, b])
        return 'unknown'

    def _dtype(self, v):
        """dtype keyword of a numpy/scipy call"""
        kn = v.x[1]
        if 'dtype' in kn:
            n = len(kn)
            d = v.args[len(v.args) - n + kn.index('dtype')]
            if d.op == 'ext':
                s = d.x.split('.')[-1]
                for k in ('complex', 'float', 'int', 'bool', 'str'):
                    if s.startswith(k):
                        return k
            if d.op == 'const' and isinstance(d.x, str):
                for k in ('complex', 'float', 'int', 'bool', 'str'):
                    if d.x.startswith(k):
                        return k
            return 'unknown'
        return None

    def _call(self, v):
        n = v.x[0]
        a = v.args
        if n.startswith('builtins.'):
            f = n[9:]
            if f in ('list', 'sorted', 'reversed', 'iter', 'tuple', 'set', 'frozenset'):
                k = {'sorted': 'list', 'reversed': 'iter', 'iter': 'iter', 'frozenset': 'set'}.get(f, f)
                if not a:
                    return k
                if f == 'tuple':
                    return 'tuple'
                e = self._elemv(a[0])
                return '%s[%s]' % (k, e) if e != 'unknown' else k
            if f == 'enumerate' and a:
                return 'iter[tuple[int,%s]]' % self._elemv(a[0])
            if f == 'zip':
                return 'iter[tuple[%s]]' % ','.join(self._elemv(x) for x in a)
            if f == 'range':
                return 'iter[int]'
            if f in ('len', 'hash', 'id', 'ord'):
                return 'int'
            if f == 'int':
                return 'int'
            if f == 'float':
                return 'float'
            if f == 'complex':
                return 'complex'
            if f in ('str', 'repr', 'format', 'chr'):
                return 'str'
            if f in ('bool', 'isinstance', 'any', 'all', 'callable', 'hasattr'):
                return 'bool'
            if f == 'dict':
                return self.ty(a[0]) if a and base(self.ty(a[0])) == 'dict' else 'dict'
            if f in ('abs',):
                t = self.ty(a[0])
                return 'float' if base(t) in NUMS and base(t) != 'int' else t
            if f in ('min', 'max') and len(a) == 1:
                return self._elemv(a[0])
            if f in ('min', 'max'):
                return joint([self.ty(x) for x in a])
            if f == 'sum':
                e = self._elemv(a[0]) if a else 'unknown'
                return e if e in NUMS else 'unknown'
            if f == 'type':
                return 'type'
            if f == 'print':
                return 'none'
            if f == 'next':
                return self._elemv(a[0]) if a else 'unknown'
            if f == 'divmod':
                return 'tuple[int,int]'
            if f == 'pow' or f == 'round':
                return 'num'
            return 'unknown'
        if n.startswith('copy.'):
            return self.ty(a[0]) if a else 'unknown'
        parts = n.split('.')
        f = parts[-1]
        if n.startswith('scipy.sparse') and not n.startswith('scipy.sparse.linalg'):
            if f in SPARSE_CLASSES:
                return 'sparse'
            return 'unknown'
        if n.startswith('itertools.'):
            if f in ('product', 'combinations', 'permutations', 'combinations_with_replacement'):
                return 'iter[tuple]'
            return 'iter'
        if n.startswith(('numpy.linalg.', 'scipy.linalg.', 'scipy.sparse.linalg.')):
            if f in ('eigh', 'eigsh'):
                return 'tuple[array[float],array]'
            if f in ('eig', 'eigs'):
                return 'tuple[array[complex],array]'
            if f == 'svd':
                return 'tuple[array,array[float],array]'
            if f in ('lu', 'schur', 'qr'):
                return 'tuple[array,array]'
            if f in ('norm', 'det'):
                return 'float'
            if f in ('pinv', 'inv', 'expm'):
                return 'array'
            return 'unknown'
        if n.startswith('numpy.'):
            dt = self._dtype(v)
            if f == 'where' and len(a) == 1:
                return 'tuple[array[int]]'
            if f in ('array', 'asarray', 'ascontiguousarray'):
                if dt and dt != 'unknown':
                    return 'array[%s]' % dt
                t = self.ty(a[0]) if a else 'unknown'
                e = targs(t)[0] if base(t) in ('list', 'array') and targs(t) else None
                return 'array[%s]' % e if e in ('int', 'float', 'complex', 'str', 'bool', 'num') else 'array'
            if f in ('argsort', 'flatnonzero', 'lexsort', 'arange') and not dt:
                return 'array[int]'
            if f == 'copy' and a:
                t = self.ty(a[0])
                return t if base(t) == 'array' else 'array'
            if f in ('zeros', 'ones', 'empty', 'full'):
                one = a and base(self.ty(a[0])) in NUMS
                return 'array[%s]' % (dt or 'float') if one else 'array'
            if f in ('sort', 'pad', 'flip', 'roll', 'unique', 'append', 'delete') and a:
                t = self.ty(a[0])
                return t if base(t) == 'array' else 'array'
            if f == 'concatenate' and a and a[0].op == 'tuple':
                return joint([self.ty(x) if base(self.ty(x)) == 'array' else 'array' for x in a[0].args])
            if f == 'array2string':
                return 'str'
            if f in ARRAY_CALLS:
                if f == 'dot':
                    ts = {base(self.ty(x)) for x in a}
                    return 'array' if ts == {'array'} else 'unknown'
                return 'array'
            if f in ('allclose', 'iscomplexobj', 'array_equal', 'isscalar'):
                return 'bool'
            if f in ELEMWISE:
                ts = [self.ty(x) for x in a[:2]] if f in ('minimum', 'maximum', 'multiply', 'add', 'subtract', 'divide', 'isclose', 'power', 'arctan2') else [self.ty(a[0])] if a else ['unknown']
                bs = {base(t) for t in ts}
                if f in ('abs', 'absolute', 'real', 'imag', 'angle', 'fabs'):
                    b0 = base(ts[0])
                    if b0 == 'array':
                        return 'array[float]' if targs(ts[0]) else 'array'
                    if b0 == 'list':
                        return 'array[float]'
                    return 'float' if b0 in NUMS else 'sparse' if b0 == 'sparse' else 'unknown'
                if 'array' in bs or 'list' in bs:
                    return ts[0] if len(ts) == 1 and base(ts[0]) == 'array' else 'array'
                if bs <= set(NUMS):
                    return joint(ts)
                if bs == {'sparse'}:
                    return 'sparse'
                return 'unknown'
            if f in REDUCE:
                if 'axis' in v.x[1] or len(a) > 1:
                    return 'unknown'
                t = self.ty(a[0]) if a else 'unknown'
                return self.elem(t) if base(t) in ('array', 'list') and self.elem(t) in NUMS else 'num' if base(t) in ('array', 'list') else 'unknown'
            if parts[1] == 'random':
                return 'unknown'
            if f in ('float64', 'float32'):
                return 'float'
            if f in ('int64', 'int32'):
                return 'int'
            if f in ('complex128',):
                return 'complex'
        return 'unknown'

    def _mcall(self, v):
        m = v.x[0]
        t = self.ty(v.args[0])
        b, a = base(t), targs(t)
        if b == 'dict':
            if m == 'keys':
                return 'iter[%s]' % a[0] if a else 'iter'
            if m == 'values':
                return 'iter[%s]' % a[1] if len(a) > 1 else 'iter'
            if m == 'items':
                return 'iter[tuple[%s]]' % ','.join(a[:2]) if len(a) > 1 else 'iter'
            if m in ('get', 'setdefault', 'pop'):
                if len(a) > 1:
                    if m == 'get' and len(v.args) < 3:
                        return '?' + a[1] if a[1] != 'unknown' else 'unknown'
                    return joint([a[1], self.ty(v.args[2])]) if len(v.args) > 2 else a[1]
                return 'unknown'
            if m == 'copy':
                return t
            if m in ('update', 'clear'):
                return 'none'
        if b == 'set':
            if m in ('union', 'intersection', 'difference', 'copy', 'symmetric_difference'):
                return t
            if m == 'pop':
                return a[0] if a else 'unknown'
            if m in ('issubset', 'issuperset', 'isdisjoint'):
                return 'bool'
            if m in ('add', 'discard', 'remove', 'update', 'clear'):
                return 'none'
        if b == 'list':
            if m == 'pop':
                return a[0] if a else 'unknown'
            if m == 'copy':
                return t
            if m in ('index', 'count'):
                return 'int'
            if m in ('append', 'extend', 'sort', 'reverse', 'insert', 'clear', 'remove'):
                return 'none'
        if b == 'str':
            if m in ('join', 'format', 'strip', 'replace', 'lower', 'upper', 'lstrip', 'rstrip', 'capitalize'):
                return 'str'
            if m in ('split', 'splitlines'):
                return 'list[str]'
            if m in ('startswith', 'endswith', 'isdigit'):
                return 'bool'
            if m in ('find', 'index', 'count'):
                return 'int'
        if b == 'array':
            if m in ('flatten', 'copy', 'reshape', 'conj', 'conjugate', 'transpose', 'ravel', 'astype', 'dot', 'squeeze', 'round', 'diagonal'):
                return t if m in ('copy', 'flatten', 'ravel', 'conj', 'conjugate') else 'array'
            if m in ('all', 'any'):
                return 'bool'
            if m == 'tolist':
                return 'list[%s]' % a[0] if a else 'list'
            if m in ('sum', 'max', 'min', 'mean', 'prod'):
                return a[0] if a else 'num'
            if m == 'argsort':
                return 'array[int]'
        if b == 'sparse':
            if m in ('toarray', 'todense', 'diagonal'):
                return 'array'
            if m in SPARSE_SAME:
                if m == 'dot' and len(v.args) > 1 and base(self.ty(v.args[1])) == 'array':
                    return 'array'
                if m == 'dot' and len(v.args) > 1 and base(self.ty(v.args[1])) not in ('sparse',):
                    return 'unknown'
                return 'sparse'
            if m == 'nonzero':
                return 'tuple[array[int],array[int]]'
            if m == 'sum':
                return 'num'
        if b == 'Operator' and m == 'to_vector':
            return 'array'
        return 'unknown'
