"""Index spaces: which basis (list of strings, list of eigenvectors, ...) the positions of an array, a list or an index refer to.

A space is a term:
  ('atom', id)        the positions of a basis, list or Operator that is a parameter, a field, a fresh object or a component of the result of a call
  ('grow', S, id)     S after strings were added to its end (indices into S stay valid)
  ('mu', id)          the value of a loop-carried variable
  ('sel', k, S)       positions of S selected / permuted / sliced by k
  ('eig', id)         eigenvectors (values) of one solver call
  ('phi', ...)        one of several alternatives, with their guards
  ('const', n), ('expr', id)   plain sizes
None: unknown.  compare() answers 'same', 'diff' (certainly) or None."""
from .summary import bare
from .values import V, const, is_const

COPIES = {'copy.deepcopy', 'copy.copy', 'numpy.copy', 'builtins.list', 'builtins.tuple', 'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray'}
SHAPE = {  # same axes as the first argument
    'numpy.abs', 'numpy.absolute', 'numpy.real', 'numpy.imag', 'numpy.conj', 'numpy.conjugate', 'numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.sqrt', 'numpy.round', 'numpy.around',
    'copy.deepcopy', 'copy.copy', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.angle', 'numpy.log', 'numpy.exp', 'numpy.square', 'numpy.sign', 'numpy.isclose', 'numpy.real_if_close', 'numpy.absolute', 'numpy.negative',
    'numpy.logical_not', 'builtins.abs', 'numpy.nan_to_num', 'numpy.asfortranarray', 'numpy.ascontiguousarray', 'numpy.matrix', 'numpy.asmatrix',
}
ELEMENTWISE2 = {'numpy.logical_and', 'numpy.logical_or', 'numpy.maximum', 'numpy.minimum', 'numpy.multiply', 'numpy.add', 'numpy.subtract', 'numpy.divide', 'numpy.power'}
MSHAPE = {'copy', 'toarray', 'todense', 'tocsc', 'tocsr', 'tocoo', 'tolil', 'astype', 'conj', 'conjugate', 'asfptype', 'round', 'todok'}
SPARSE = {'scipy.sparse.' + f + '_' + k for f in ('csr', 'csc', 'coo', 'lil', 'dok', 'bsr') for k in ('matrix', 'array')}
EIGH = {'numpy.linalg.eigh', 'scipy.linalg.eigh', 'numpy.linalg.eig', 'scipy.linalg.eig', 'scipy.sparse.linalg.eigsh', 'scipy.sparse.linalg.eigs'}
SVD = {'numpy.linalg.svd', 'scipy.linalg.svd', 'scipy.sparse.linalg.svds'}

# axes of the results of public functions, in terms of their parameters; 'ext' is the basis returned as the second item
SIG = {
    'algebra.liouvillian_matrix': ('ext', 'basis'),
    'algorithms._explore': ('ext', 'basis'),
    'algebra.commutant_matrix': ('basis', 'basis'),
    'transformation.symmetry_matrix': ('basis', 'basis'),
    'conversion.conversion_matrix': ('basis_to', 'basis_from'),
}
OTHER = {'algebra.structure_constants', 'algorithms._truncate_basis', 'tools.gram_schmidt', 'tools.sparsify', 'tools.intersection', 'core.commuting_operators', 'core.invariant_operators', 'algebra._operation_opstring', 'conversion.convert',
         'transformation.Transformation.apply', 'algebra.commutator', 'algebra.anticommutator', 'algebra.product', 'diagonalization._apply_opstring', 'diagonalization._to_matrix_opstring', 'tools.remove_zeros'}
METHODS = ('basis.Basis.', 'basis.Operator.', 'operatorstring.OperatorString.')


def opaque(prog, fn=None, also=()):
    out = {f.qual for f in prog.functions() if f.qual.startswith(METHODS) and not prog.helper(f)} | set(SIG) | OTHER | set(also)
    if fn is not None:
        out.discard(fn.qual)
    return out


def rq(v):
    q = v.x
    return q[0] if isinstance(q, tuple) else q


def gk(guards):
    return tuple((g.key, bool(p)) for g, p in guards)


class Spaces:
    def __init__(self, I, fn):
        self.I, self.fn = I, fn
        self.memo = {}
        self.imemo = {}
        self.bmemo = {}
        self.busy = set()
        self.ubusy = {}
        self.vof = {}
        self.created = {}
        self.mutated = {}
        for e in I.trace:
            if e.kind == 'instantiate' and e.val is not None:
                self.created.setdefault(e.val.uid, e)
            if e.kind == 'method' and e.x in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear') and e.args:
                self.mutated.setdefault(e.args[0].uid, []).append(e)
        self.stores = {}
        for e in I.trace:
            if e.kind == 'store_item' and e.args:
                self.stores.setdefault(bare(e.args[0]).uid, []).append(e)

    # ---- which basis is v ------------------------------------------------------------------------------------------------

    def cls(self, v):
        t = self.I.T.ty(v)
        return (t or '').lstrip('?')

    def atom(self, v):
        t = ('atom', v.key)
        self.vof.setdefault(t, v)
        return t

    def basis(self, v):
        v = bare(v)
        if v.uid in self.bmemo:
            return self.bmemo[v.uid]
        if v.uid in self.busy:
            return ('mu', v.uid) if v.op == 'mu' else None
        self.busy.add(v.uid)
        try:
            t = self._basis(v)
        finally:
            self.busy.discard(v.uid)
        self.bmemo[v.uid] = t
        if t is not None:
            self.vof.setdefault(t, v)
        return t

    def _basis(self, v):
        o = v.op
        if o == 'param':
            if self.cls(v) == 'Operator':
                return self.basis(self.field(v, '_basis'))
            return self.atom(v)
        if o == 'attr':
            if v.x in ('op_strings', '_op_strings'):
                return self.basis(v.args[0])
            if v.x in ('_basis', 'coeffs'):
                b = bare(v.args[0])
                if b.op == 'inst' and b.uid in self.created:
                    d = dict(self.created[b.uid].x[1])
                    s = d.get('op_strings')
                    return self.basis(s) if s is not None else None
                if b.op == 'call' and b.x[0] in COPIES and b.args:
                    return self.basis(V('attr', (b.args[0],), '_basis'))
                if v.x == 'coeffs':
                    return self.basis(V('attr', (b,), '_basis'))
                if b.op in ('join', 'mu', 'unknown'):
                    t = self.basis(b)
                    return t
                return self.atom(V('attr', (b,), v.x))
            return self.atom(v)
        if o == 'inst':
            e = self.created.get(v.uid)
            if e is None:
                return None
            d = dict(e.x[1])
            n = v.x.name
            if n == 'Operator':
                s = d.get('op_strings')
                return self.basis(s) if s is not None and not is_const(s, None) else self.atom(v)
            if n == 'Basis':
                s = d.get('op_strings')
                if s is None or is_const(s, None):
                    return self.atom(v)
                return self.basis(s) or self.atom(v)
            return None
        if o == 'rcall':
            q = rq(v)
            if q in ('basis.Basis.__iadd__', 'basis.Basis.__add__'):
                a = self.basis(v.args[0])
                return ('grow', a, v.key) if a is not None else None
            if q.startswith('basis.Operator.') or q in ('conversion.convert', 'algebra.commutator', 'algebra.product', 'algebra.anticommutator', 'transformation.Transformation.apply'):
                return self.atom(v)
            if q == 'algorithms._truncate_basis':
                return self.atom(v)
            if q == 'basis.Basis.__getitem__':
                return None
            return None
        if o == 'item':
            b = bare(v.args[0])
            if b.op == 'rcall' and (rq(b) in SIG or rq(b) == 'algebra.structure_constants') and is_const(v.args[1], 1):
                return self.ext(b)
            if v.args[1].op == 'slice':
                t = self.basis(b)
                return self.select(t, v.args[1])
            return self.atom(v)
        if o == 'elem':
            if self.cls(v) == 'Operator':
                return self.atom(V('attr', (v,), '_basis'))
            return None
        if o == 'call':
            if v.x[0] in COPIES and v.args:
                t = self.basis(v.args[0])
                if v.uid in self.mutated:
                    return ('grow', t, v.uid) if t is not None and all(e.x in ('append', 'extend') for e in self.mutated[v.uid]) else self.atom(v)
                return t
            if v.x[0] in ('builtins.sorted', 'builtins.reversed', 'builtins.set', 'numpy.unique'):
                t = self.basis(v.args[0]) if v.args else None
                return ('sel', (v.x[0],), t) if t is not None else None
            return None
        if o == 'new':
            return self.listspace(v)
        if o == 'mu':
            return ('mu', v.uid)
        if o == 'join':
            return self.phi(v, self.basis)
        if o in ('aug', 'bin') and v.x == 'Add':
            a = self.basis(v.args[0])
            return ('grow', a, v.key) if a is not None else None
        return None

    def field(self, v, name):
        return V('attr', (v,), name)

    def ext(self, call):
        t = ('ext', call.key)
        self.vof.setdefault(t, call)
        return t

    def listspace(self, v):
        """the positions of a list that is filled by appending"""
        evs = list(self.I.byobj.get(v.uid, ()))
        if self.I.objinit.get(v.uid):
            xs = self.I.objinit[v.uid]
            if evs or v.x == 'dict' or any(x.op == 'star' for x in xs):
                return None
            return ('const', len(xs))
        if not evs:
            return self.atom(v)
        if any(e.kind != 'method' or e.x != 'append' for e in evs):
            return None
        if len(evs) == 1 and len(evs[0].loops) >= 1:
            e = evs[0]
            L = e.loops[-1]
            own = [l for l in e.loops if not self.outer(l, v)]
            if len(own) == 1 and own[0] is L and not e.guards[len(L.guards):] and len(L.ends) <= 1 and not L.brk:
                return self.loopspace(L)
        groups = frozenset((tuple(l.id for l in e.loops), gk(e.guards)) for e in evs)
        t = ('list', groups)
        self.vof.setdefault(t, v)
        return t

    def outer(self, L, v):
        """was v created inside of loop L?  (then L repeats the whole list)"""
        # an object that is created inside of the loop body has a larger number than the loop and its appends name the loop
        return v.uid > L.id

    def loopspace(self, L):
        if L.iter is None:
            return None
        return self.iterspace(L.iter)

    def iterspace(self, it):
        it = bare(it)
        if it.op == 'call' and it.x[0] == 'builtins.range':
            if len(it.args) == 1:
                return self.dim(it.args[0])
            if len(it.args) == 2 and is_const(it.args[0], 0):
                return self.dim(it.args[1])
            return None
        if it.op == 'call' and it.x[0] in ('numpy.arange',) and len(it.args) == 1:
            return self.dim(it.args[0])
        if it.op == 'call' and it.x[0] in ('builtins.enumerate', 'builtins.iter'):
            return self.iterspace(it.args[0])
        if it.op == 'call' and it.x[0] == 'builtins.zip':
            for a in it.args:
                t = self.iterspace(a)
                if t is not None:
                    return t
            return None
        t = self.axes(it)
        if t:
            return t[0]
        return self.basis(it)

    def phi(self, v, f):
        ts = [f(a) for a in v.args]
        return self.merge([(gk(g), t) for g, t in zip(v.x, ts)])

    def merge(self, alts):
        """one of several spaces"""
        if all(t is None or t == ('unknown',) for g, t in alts):
            return None
        alts = [(g, t or ('unknown',)) for g, t in alts]
        flat = []
        for g, t in alts:
            if t[0] == 'phi':
                flat += [(g + h, u) for h, u in t[1]]
            else:
                flat.append((g, t))
        ts = {t for g, t in flat}
        if len(ts) == 1:
            return ts.pop()
        # one condition that decides between the alternatives
        keys = [k for k, p in flat[0][0]]
        for k in keys:
            by = {}
            for g, t in flat:
                d = dict(g)
                if k not in d:
                    by = {}
                    break
                by.setdefault(d[k], set()).add(t)
            if len(by) == 2 and all(len(x) == 1 for x in by.values()):
                return ('phi', tuple((((k, p),), by[p].copy().pop()) for p in (True, False)))
        return ('phi', tuple(flat))

    def given(self, t, guards):
        """t where the conditions hold"""
        if t is None or t[0] not in ('phi', 'sel', 'grow'):
            return t
        if t[0] == 'phi':
            d = dict(gk(guards))
            keep = [(g, self.given(x, guards)) for g, x in t[1] if not any(d.get(k, p) != p for k, p in g)]
            return self.merge(keep) if keep else t
        i = 1 if t[0] == 'grow' else 2
        return t[:i] + (self.given(t[i], guards),) + t[i + 1:]

    def leaves(self, t):
        """kinds of space that t may be made of"""
        if t is None:
            return {None}
        if t[0] == 'phi':
            return set().union(*[self.leaves(x) for g, x in t[1]])
        if t[0] == 'sel':
            return self.leaves(t[2])
        if t[0] == 'grow':
            return self.leaves(t[1])
        return {t[0]}

    def canon(self, t):
        """loop variables that always hold the same strings count as one"""
        if t is None:
            return None
        if t[0] == 'mu':
            return ('mu', self.twin(t))
        if t[0] in ('grow', 'sel'):
            i = 1 if t[0] == 'grow' else 2
            x = self.canon(t[i])
            if x is None:
                return None
            wrap = lambda y: y if y == ('unknown',) else t[:i] + (y,) + t[i + 1:]
            if x[0] == 'phi':
                return ('phi', tuple((g, wrap(y)) for g, y in x[1]))
            return wrap(x)
        if t[0] == 'phi':
            x = self.merge([(g, self.canon(x)) for g, x in t[1]])
            return self.collapse(x) if x is not None and x[0] == 'phi' else x
        return t

    def collapse(self, t):
        """what a loop variable was before and after any number of passes: the variable"""
        ts = {x for g, x in t[1]}
        for m in sorted({u[1] for x in ts for u in self.parts(x) if u[0] == 'mu'}):
            m = ('mu', m)
            own = self.cycle(m)
            if own and len(ts & own) > 1 and own <= ts | {m}:
                ts = (ts - own) | {m}
                t = ('phi', tuple((g, m if x in own else x) for g, x in t[1]))
        return ts.pop() if len(ts) == 1 else t

    def twin(self, t):
        k = ('twin', t)
        if k in self.memo:
            return self.memo[k]
        if self.busy or self.ubusy:
            return t[1]
        self.memo[k] = t[1]
        v = self.mu(t)
        L = self.I.loops.get(v.x[0]) if v is not None else None
        out = t[1]
        if L is not None and L.ends and v.args:
            a0 = self.basis(v.args[0])
            for name, m in sorted(L.mus.items(), key=lambda z: z[1].uid):
                if m.uid >= out or name == v.x[1] or not m.args:
                    continue
                if a0 is None or self.basis(m.args[0]) != a0:
                    continue
                ok = True
                for s in L.ends:
                    x, y = self.basis(s.env.get(v.x[1], v)), self.basis(s.env.get(name, m))
                    if x is None or y is None or not (x == y or {x, y} <= {t, ('mu', m.uid)}):
                        ok = False
                        break
                if ok:
                    out = m.uid
                    break
        self.memo[k] = out
        return out

    def parts(self, t):
        out = [t]
        while t[0] in ('grow', 'sel') and isinstance(t[1] if t[0] == 'grow' else t[2], tuple):
            t = t[1] if t[0] == 'grow' else t[2]
            out.append(t)
        return out

    def cycle(self, t):
        """the values a loop variable has before and after each pass"""
        k = ('cycle', t)
        if k in self.memo:
            return self.memo[k]
        if self.busy or self.ubusy:
            return None
        self.memo[k] = None
        v = self.mu(t)
        L = self.I.loops.get(v.x[0]) if v is not None else None
        out = None
        if L is not None and v.args:
            vs = [v.args[0]] + [s.env.get(v.x[1], v) for s in L.ends]
            out = set()
            for x in vs:
                b = self.canon(self.basis(x))
                if b is None:
                    out = None
                    break
                out |= {u for g, u in b[1]} if b[0] == 'phi' else {b}
        self.memo[k] = out
        return out

    # ---- sizes -----------------------------------------------------------------------------------------------------------

    def dim(self, e):
        e = bare(e)
        if e.op == 'const':
            return ('const', e.x) if isinstance(e.x, int) else None
        if e.op == 'rcall' and rq(e) in ('basis.Basis.__len__', 'basis.Operator.__len__'):
            return self.basis(e.args[0])
        if e.op == 'call' and e.x[0] == 'builtins.len':
            a = self.axes(e.args[0])
            return a[0] if a else self.basis(e.args[0])
        if e.op == 'call' and e.x[0] in ('builtins.int',) and len(e.args) == 1:
            return self.dim(e.args[0])
        if e.op == 'item' and bare(e.args[0]).op == 'attr' and bare(e.args[0]).x == 'shape' and e.args[1].op == 'const':
            a = self.axes(bare(e.args[0]).args[0])
            k = e.args[1].x
            return a[k] if a and -len(a) <= k < len(a) else None
        if e.op == 'attr' and e.x == 'size':
            a = self.axes(e.args[0])
            return a[0] if a and len(a) == 1 else None
        if e.op == 'item' and bare(e.args[0]).op == 'attr' and bare(e.args[0]).x == 'shape':
            return None
        if e.op == 'join':
            return self.phi(e, self.dim)
        if e.op == 'mu':
            return None
        return ('expr', e.key)

    # ---- arrays ----------------------------------------------------------------------------------------------------------

    def axes(self, v):
        v = bare(v)
        if v.uid in self.memo:
            return self.memo[v.uid]
        if v.uid in self.ubusy:
            return None
        self.ubusy[v.uid] = 1
        try:
            t = self._axes(v)
        except RecursionError:
            t = None
        finally:
            self.ubusy.pop(v.uid, None)
        self.memo[v.uid] = t
        return t

    def argument(self, q, call, name):
        fn = self.I.prog.find(q) if hasattr(self.I, 'prog') else None
        ps = fn.params() if fn is not None else []
        return call.args[ps.index(name)] if name in ps and ps.index(name) < len(call.args) else None

    def matrix(self, call):
        """axes of the matrix that an opaque function returns"""
        q = rq(call)
        if q not in SIG:
            return None
        out = []
        for n in SIG[q]:
            if n == 'ext':
                out.append(self.ext(call))
            else:
                a = self.argument(q, call, n)
                out.append(self.basis(a) if a is not None else None)
        return tuple(out)

    def eig(self, call, which):
        t = ('eig', call.key)
        self.vof.setdefault(t, call)
        q = call.x[0]
        a = self.axes(call.args[0]) if call.args else None
        if q in EIGH:
            if which == 0:
                return (t,)
            return (a[0] if a and len(a) == 2 else None, t) if which == 1 else None
        if which == 0:
            return (a[0] if a and len(a) == 2 else None, t)
        if which == 1:
            return (t,)
        return (t, a[1] if a and len(a) == 2 else None)

    def _axes(self, v):
        o = v.op
        if o == 'attr':
            if v.x == 'coeffs':
                t = self.basis(v)
                return (t,) if t is not None else None
            if v.x in ('T', 'H'):
                a = self.axes(v.args[0])
                return tuple(reversed(a)) if a else None
            if v.x in ('real', 'imag', 'A'):
                return self.axes(v.args[0])
            return None
        if o == 'un':
            return self.axes(v.args[0])
        if o in ('bin', 'aug'):
            if v.x == 'MatMult':
                return self.dot(v.args[0], v.args[1])
            a, b = self.axes(v.args[0]), self.axes(v.args[1])
            if a and b:
                return self.broad(a, b)
            if v.x in ('Add', 'Mult') and (self.islist(v.args[0]) or self.islist(v.args[1])):
                return None
            return a or b
        if o == 'cmp':
            a, b = self.axes(v.args[0]), self.axes(v.args[1])
            if a and b:
                return self.broad(a, b)
            return a or b
        if o == 'join':
            ts = [self.axes(a) for a in v.args]
            ns = {len(t) for t in ts if t}
            if len(ns) != 1:
                return None
            out = []
            for i in range(ns.pop()):
                col = [t[i] if t else None for t in ts]
                if all(c is None for c in col):
                    out.append(None)
                else:
                    out.append(self.merge([(gk(g), t) for g, t in zip(v.x, col)]))
            return tuple(out)
        if o == 'mu':
            # an array that is only updated in the loop keeps its axes
            a = self.axes(v.args[0]) if v.args else None
            L = self.I.loops.get(v.x[0])
            if not a or L is None:
                return None
            self.memo[v.uid] = a
            for s in L.ends:
                e = s.env.get(v.x[1])
                if e is None or bare(e).uid == v.uid:
                    continue
                b = self.axes(e)
                if not b or len(b) != len(a) or any(x is None or self.compare(x, y) == 'diff' for x, y in zip(b, a)):
                    self.memo.pop(v.uid, None)
                    return None
            return a
        if o == 'new':
            if self.islist(v) and (v.uid in self.I.byobj or self.I.objinit.get(v.uid)):
                t = self.listspace(v)
                return (t,) if t is not None else None
            return None
        if o == 'item':
            return self.itemaxes(v)
        if o == 'rcall':
            q = rq(v)
            if q == 'basis.Operator.to_vector':
                t = self.basis(v.args[1])
                f = v.args[2] if len(v.args) > 2 else None
                if f is not None and f.op == 'const' and f.x == 'csc':
                    return (t, ('const', 1))
                return (t,) if f is None or f.op == 'const' else None
            if q in ('tools.gram_schmidt', 'tools.sparsify'):
                a = self.axes(v.args[0])
                return (a[0] if a and len(a) == 2 else None, ('expr', v.key))
            if q == 'tools.intersection':
                a = self.axes(v.args[0])
                return (a[0] if a and len(a) == 2 else None, ('expr', v.key))
            if q in SIG:
                return self.matrix(v)
            if q in ('core.commuting_operators', 'core.invariant_operators'):
                t = self.basis(v.args[0])
                return (t, ('expr', v.key)) if t is not None else None
            return None
        if o == 'call':
            return self.callaxes(v)
        if o == 'mcall':
            n, a0 = v.x[0], v.args[0]
            if n in MSHAPE:
                return self.axes(a0)
            if n in ('dot', 'matmul') and len(v.args) == 2:
                return self.dot(a0, v.args[1])
            if n == 'multiply' and len(v.args) == 2:
                return self.axes(a0) or self.axes(v.args[1])
            if n in ('getH', 'transpose') and len(v.args) == 1:
                a = self.axes(a0)
                return tuple(reversed(a)) if a else None
            if n in ('flatten', 'ravel') and len(v.args) == 1:
                a = self.axes(a0)
                if a and len(a) == 1:
                    return a
                if a and len(a) == 2 and ('const', 1) in a:
                    return (a[0] if a[1] == ('const', 1) else a[1],)
                return None
            if n == 'reshape':
                return self.reshape(v.args[1:])
            if n == 'diagonal' and len(v.args) == 1:
                a = self.axes(a0)
                return (a[0],) if a and len(a) == 2 else None
            if n == 'argsort' and len(v.args) == 1:
                a = self.axes(a0)
                return (('sel', ('argsort', a0.key), a[0]),) if a and len(a) == 1 and a[0] else None
            return None
        return None

    def islist(self, v):
        v = bare(v)
        return v.op == 'new' and v.x == 'list'

    def broad(self, a, b):
        if len(a) == len(b):
            return tuple(x if x is not None and x != ('const', 1) else y for x, y in zip(a, b))
        return a if len(a) > len(b) else b

    def reshape(self, args):
        xs = args
        if len(xs) == 1 and xs[0].op == 'tuple':
            xs = xs[0].args
        out = tuple(self.dim(x) for x in xs)
        return out if out and all(t != ('const', -1) for t in out) else None

    def dot(self, x, y):
        a, b = self.axes(x), self.axes(y)
        if not a or not b:
            return None
        if len(a) == 2 and len(b) == 2:
            return (a[0], b[1])
        if len(a) == 2 and len(b) == 1:
            return (a[0],)
        if len(a) == 1 and len(b) == 2:
            return (b[1],)
        return ()

    def callaxes(self, v):
        f, args = v.x[0], v.args
        kws = v.x[1] if len(v.x) > 1 else ()
        npos = len(args) - len(kws)
        kw = dict(zip(kws, args[npos:]))
        if f in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'):
            s = kw.get('shape') or (args[0] if npos else None)
            return self.shape(s)
        if f in ('numpy.random.rand', 'numpy.random.randn') and npos:
            return tuple(self.dim(x) for x in args[:npos])
        if f in ('numpy.random.random',) and npos:
            return self.shape(args[0])
        if f in SPARSE:
            if 'shape' in kw:
                return self.shape(kw['shape'])
            if npos:
                a = bare(args[0])
                if a.op == 'tuple':
                    if npos > 1 and bare(args[1]).op == 'tuple':
                        return self.shape(args[1])
                    if len(a.args) == 2 and all(bare(x).op != 'tuple' for x in a.args) and self.scalar(a.args[0]):
                        return self.shape(a)
                    return None
                r = self.axes(a)
                if r and len(r) == 1:
                    return (('const', 1), r[0])
                return r
            return None
        if f in ('scipy.sparse.eye', 'scipy.sparse.identity', 'numpy.eye', 'numpy.identity') and npos:
            d = self.dim(args[0])
            e = self.dim(args[1]) if npos > 1 else d
            return (d, e)
        if f in ('scipy.sparse.diags', 'numpy.diag') and npos:
            a = self.axes(args[0])
            if a and len(a) == 1:
                return (a[0], a[0])
            return (a[0],) if a and len(a) == 2 and f == 'numpy.diag' else None
        if f in SHAPE and npos:
            return self.axes(args[0])
        if f in ('builtins.list', 'builtins.tuple') and npos == 1:
            if v.uid in self.mutated:
                return None
            return self.axes(args[0])
        if f in ELEMENTWISE2 and npos == 2:
            a, b = self.axes(args[0]), self.axes(args[1])
            return self.broad(a, b) if a and b else a or b
        if f == 'numpy.transpose' and npos == 1:
            a = self.axes(args[0])
            return tuple(reversed(a)) if a else None
        if f in ('numpy.dot', 'numpy.matmul') and npos == 2:
            return self.dot(args[0], args[1])
        if f in ('numpy.linalg.pinv', 'scipy.linalg.pinv', 'numpy.linalg.inv', 'scipy.linalg.inv', 'scipy.sparse.linalg.inv') and npos:
            a = self.axes(args[0])
            return tuple(reversed(a)) if a else None
        if f == 'numpy.argsort' and npos == 1:
            a = self.axes(args[0])
            return (('sel', ('argsort', args[0].key), a[0]),) if a and len(a) == 1 and a[0] else None
        if f in ('numpy.sort', 'builtins.sorted') and npos >= 1:
            a = self.axes(args[0])
            return (('sel', ('sorted', args[0].key), a[0]),) if a and len(a) == 1 and a[0] else None
        if f == 'numpy.flip' and npos == 1:
            a = self.axes(args[0])
            return (('sel', ('reverse',), a[0]),) if a and len(a) == 1 and a[0] else None
        if f == 'numpy.arange' and npos == 1:
            d = self.dim(args[0])
            return (d,) if d else None
        if f == 'numpy.pad' and npos >= 2:
            return self.pad(args[0], args[1])
        if f == 'numpy.reshape' and npos == 2:
            return self.reshape((args[1],))
        return None

    def scalar(self, v):
        t = self.I.T.ty(v)
        return t in ('int', 'bool') or v.op == 'const' and isinstance(v.x, int) or self.dim(v) is not None and self.dim(v)[0] not in ('expr',) or v.op == 'rcall' and rq(v).endswith('__len__')

    def shape(self, s):
        if s is None:
            return None
        s = bare(s)
        if s.op == 'tuple':
            return tuple(self.dim(x) for x in s.args)
        if s.op == 'attr' and s.x == 'shape':
            return self.axes(s.args[0])
        d = self.dim(s)
        if d is None:
            return None
        if d[0] == 'expr' and self.I.T.ty(s) not in ('int', None, 'unknown', 'number', 'float'):
            return None
        return (d,)

    def pad(self, x, w):
        a = self.axes(x)
        w = bare(w)
        if not a or len(a) != 1 or w.op != 'tuple' or len(w.args) != 2:
            return None
        if not is_const(w.args[0], 0):
            return (('sel', ('padded in front', w.key), a[0]),) if is_const(w.args[1], 0) and a[0] else None
        n = bare(w.args[1])
        if n.op == 'bin' and n.x == 'Sub':
            new, old = self.dim(n.args[0]), self.dim(n.args[1])
            if new is not None and old is not None and self.compare(old, a[0]) == 'same':
                return (new,)
        d = self.dim(n)
        if d is not None and d[0] in ('atom', 'ext', 'grow', 'mu') and a[0]:
            return (('sel', ('padded', n.key), a[0]),)
        return None

    def select(self, t, how):
        """positions t selected by a slice"""
        if t is None:
            return None
        lo, hi, st = how.args
        if is_const(lo, None) and is_const(hi, None) and (is_const(st, None) or is_const(st, 1)):
            return t
        if is_const(lo, None) and is_const(hi, None) and is_const(st, -1):
            return ('sel', ('reverse',), t)
        if is_const(lo, 0):
            lo = const(None)
        return ('sel', ('slice', lo.key, hi.key, st.key), t)

    def norm(self, v):
        """a key of an index array"""
        v = bare(v)
        while v.op == 'call' and v.x[0] in COPIES and v.args or v.op == 'call' and v.x[0] in ('numpy.flatnonzero',):
            v = bare(v.args[0])
        if v.op == 'item' and is_const(v.args[1], 0) and bare(v.args[0]).op == 'call' and bare(v.args[0]).x[0] in ('numpy.where', 'numpy.nonzero') and len(bare(v.args[0]).args) == 1:
            return ('where', bare(bare(v.args[0]).args[0]).key)
        if v.op == 'cmp' or v.op == 'call' and v.x[0] in ('numpy.logical_and', 'numpy.logical_or', 'numpy.logical_not'):
            return ('where', v.key)
        if v.op == 'call' and v.x[0] == 'numpy.argsort' and len(v.args) == 1:
            return ('argsort', v.args[0].key)
        return ('array', v.key)

    def isarray(self, v):
        v = bare(v)
        if v.op in ('idx', 'const'):
            return False
        if v.op == 'new':
            return True
        if self.axes(v):
            return True
        if v.op == 'item' and bare(v.args[0]).op == 'call' and bare(v.args[0]).x[0] in ('numpy.where', 'numpy.nonzero'):
            return True
        t = self.I.T.ty(v)
        if t in ('int', 'bool', 'float'):
            return False
        if isinstance(t, str) and t.startswith(('ndarray', 'list')):
            return True
        if v.op == 'rcall' and rq(v).endswith('.index') or v.op == 'elem':
            return False
        return None

    def itemaxes(self, v):
        b, i = bare(v.args[0]), v.args[1]
        if b.op == 'call' and i.op == 'const' and isinstance(i.x, int):
            if b.x[0] in EIGH or b.x[0] in SVD:
                return self.eig(b, i.x)
            if b.x[0] in ('numpy.where', 'numpy.nonzero') and len(b.args) == 1:
                a = self.axes(b.args[0])
                if a and len(a) > i.x and a[i.x]:
                    return (('sel', ('where', bare(b.args[0]).key), a[i.x]),)
                return None
        if b.op == 'rcall' and i.op == 'const':
            q = rq(b)
            if q in SIG:
                return self.matrix(b) if i.x == 0 else None
            if q in ('core.commuting_operators', 'core.invariant_operators'):
                t = self.basis(b.args[0])
                e = ('eig', b.key)
                self.vof.setdefault(e, b)
                return {0: (t, ('expr', b.key)), 1: (t, t), 2: (e,), 3: (t, e)}.get(i.x)
        if b.op == 'item' and bare(b.args[0]).op == 'rcall' and rq(bare(b.args[0])) == 'algebra.structure_constants' and is_const(b.args[1], 0):
            return self.sc(bare(b.args[0]))
        if b.op == 'rcall' and rq(b) == 'algebra.structure_constants' and i.op != 'const':
            return self.sc(b)
        if b.op == 'new' and b.x == 'dict':
            x = self.stored(b)
            return self.axes(x) if x is not None else None
        if b.op == 'item' and bare(b.args[0]).op == 'new' and bare(b.args[0]).x == 'dict' and i.op == 'const':
            x = self.component(bare(b.args[0]), i.x)
            return self.axes(x) if x is not None else None
        a = self.axes(b)
        if not a:
            return None
        parts = i.args if i.op == 'tuple' else (i,)
        if len(parts) > len(a):
            return None
        out = []
        for p, t in zip(parts, a):
            r = self.sub(p, t)
            if r is False:
                continue
            out.append(r)
        out += list(a[len(parts):])
        return tuple(out)

    def sub(self, p, t):
        """axis t indexed by p: False if it disappears"""
        if p.op == 'slice':
            return self.select(t, p)
        arr = self.isarray(p)
        if arr is False:
            return False
        if arr is None or t is None:
            return None
        q = bare(p)
        if q.op == 'item' and (q.args[1].op == 'slice' or q.args[1].op != 'const' and self.isarray(q.args[1])) and self.isarray(q.args[0]) and len(self.axes(q.args[0]) or (0,)) == 1:
            # x[a[i]] is x[a][i]
            u = self.sub(q.args[0], t)
            return self.sub(q.args[1], u) if u else None
        return ('sel', self.norm(p), t)

    def sc(self, call):
        a = self.argument('algebra.structure_constants', call, 'basisA')
        return (self.ext(call), self.basis(a) if a is not None else None)

    def stored(self, d):
        st = self.stores.get(d.uid, ())
        return st[0].args[2] if len(st) == 1 else None

    def component(self, d, k):
        x = self.stored(d)
        if x is None:
            return None
        x = bare(x)
        xs = x.args if x.op == 'tuple' else self.I.objinit.get(x.uid) if x.op == 'new' else None
        if xs and isinstance(k, int) and k < len(xs):
            return xs[k]
        return None

    def slots(self, d):
        """stores into a dictionary that outlives the call (a parameter or field)"""
        r = self.holder(d)
        if r is None:
            return ()
        if 'slots' not in self.memo:
            by = {}
            for e in self.I.trace:
                if e.kind in ('store_item', 'aug_item') and e.args:
                    h = self.holder(e.args[0])
                    if h is not None:
                        by.setdefault(h, []).append(e)
            self.memo['slots'] = by
        return self.memo['slots'].get(r, ())

    def holder(self, d):
        d = bare(d)
        n = 0
        while d.op == 'mu' and d.args and n < 10:
            d = bare(d.args[0])
            n += 1
        return d.key if d.op in ('param', 'attr') else None

    def slot(self, d, j, f):
        """what component j of the entries of a dictionary refers to"""
        ts = set()
        for e in self.slots(d):
            x = bare(e.args[2])
            xs = x.args if x.op == 'tuple' else self.I.objinit.get(x.uid) if x.op == 'new' else None
            if not xs or not isinstance(j, int) or j >= len(xs):
                return None
            ts |= {self.root(t) for t in self.parts_of(xs[j], f, d, j) if t is not None}
        return ts.pop() if len(ts) == 1 else None

    def parts_of(self, v, f, d, j):
        """the pieces a list is made of, without what was in the slot before"""
        v = bare(v)
        if v.op in ('bin', 'aug') and v.x == 'Add':
            return self.parts_of(v.args[0], f, d, j) + self.parts_of(v.args[1], f, d, j)
        if v.op == 'join':
            return [t for a in v.args for t in self.parts_of(a, f, d, j)]
        if v.op == 'call' and v.x[0] in COPIES and len(v.args) == 1 and bare(v.args[0]).op == 'item':
            return self.parts_of(v.args[0], f, d, j)
        if v.op == 'item' and bare(v.args[0]).op == 'item' and self.holder(bare(v.args[0]).args[0]) == self.holder(d):
            return []
        if v.op == 'new' and not self.I.byobj.get(v.uid) and not self.I.objinit.get(v.uid):
            return []
        return [f(v)]

    # ---- indices ---------------------------------------------------------------------------------------------------------

    def space(self, v):
        """the space a scalar index refers to"""
        v = bare(v)
        if v.uid in self.imemo:
            return self.imemo[v.uid]
        self.imemo[v.uid] = None
        t = self._space(v)
        self.imemo[v.uid] = t
        return t

    def _space(self, v):
        if v.op == 'rcall' and rq(v) == 'basis.Basis.index':
            return self.basis(v.args[0])
        if v.op == 'mcall' and v.x[0] == 'index' and len(v.args) >= 2:
            return self.basis(v.args[0])
        if v.op == 'idx':
            if v.x[1] == 'range':
                L = self.I.loops.get(v.x[0])
                if L is not None and L.iter is not None:
                    return self.iterspace(L.iter)
                return self.dim(v.args[-1]) if v.args else None
            return self.iterspace(v.args[0]) if v.args else None
        if v.op == 'elem':
            return self.elems(v.args[0])
        if v.op == 'call' and v.x[0] in ('builtins.int',) and len(v.args) == 1:
            return self.space(v.args[0])
        if v.op == 'call' and v.x[0] in ('numpy.argmin', 'numpy.argmax') and len(v.args) == 1:
            a = self.axes(v.args[0])
            return a[0] if a and len(a) == 1 else None
        if v.op == 'join':
            return self.phi(v, self.space)
        if v.op == 'item':
            b = bare(v.args[0])
            if b.op == 'new' and b.x == 'dict':
                x = self.stored(b)
                return self.space(x) if x is not None else None
            if v.args[1].op != 'slice' and v.args[1].op != 'tuple':
                return self.elems(b)
            return None
        if v.op == 'mu':
            # a counter that runs along with the loop
            L = self.I.loops.get(v.x[0])
            if L is not None and v.args and is_const(v.args[0], 0) and L.iter is not None and L.ends and not L.brk:
                for s in L.ends:
                    e = s.env.get(v.x[1])
                    if e is None or not (e.op in ('bin', 'aug') and e.x == 'Add' and bare(e.args[0]).uid == v.uid and is_const(e.args[1], 1)):
                        return None
                return self.loopspace(L)
            return None
        return None

    def elems(self, v):
        """the space the entries of an index array refer to"""
        v = bare(v)
        if v.uid in self.imemo:
            return self.imemo[v.uid]
        self.imemo[v.uid] = None
        t = self._elems(v)
        self.imemo[v.uid] = t
        return t

    def _elems(self, v):
        if v.op == 'call':
            if v.x[0] == 'builtins.range':
                return self.iterspace(v)
            if v.x[0] in COPIES or v.x[0] in ('builtins.sorted', 'builtins.reversed', 'numpy.sort', 'numpy.flip', 'numpy.unique', 'builtins.set', 'numpy.concatenate'):
                return self.elems(v.args[0]) if v.args else None
            if v.x[0] == 'numpy.argsort' and len(v.args) == 1:
                a = self.axes(v.args[0])
                return a[0] if a and len(a) == 1 else None
            if v.x[0] == 'numpy.flatnonzero':
                a = self.axes(v.args[0])
                return a[0] if a and len(a) == 1 else None
            if v.x[0] == 'numpy.arange' and len(v.args) == 1:
                return self.dim(v.args[0])
            return None
        if v.op == 'mcall' and v.x[0] == 'argsort':
            a = self.axes(v.args[0])
            return a[0] if a and len(a) == 1 else None
        if v.op == 'item':
            b = bare(v.args[0])
            if b.op == 'call' and b.x[0] in ('numpy.where', 'numpy.nonzero') and v.args[1].op == 'const' and len(b.args) == 1:
                a = self.axes(b.args[0])
                return a[v.args[1].x] if a and len(a) > v.args[1].x else None
            if v.args[1].op == 'slice' or self.isarray(v.args[1]):
                return self.elems(b)
            if v.args[1].op == 'const':
                c = bare(b)
                if c.op == 'item':
                    d = bare(c.args[0])
                    if d.op == 'item' and bare(d.args[0]).op == 'rcall' and rq(bare(d.args[0])) == 'algebra.structure_constants' and is_const(d.args[1], 0):
                        s = self.sc(bare(d.args[0]))
                        return s[v.args[1].x] if v.args[1].x in (0, 1) else None
                    if d.op == 'new' and d.x == 'dict':
                        x = self.component(d, v.args[1].x)
                        return self.elems(x) if x is not None else None
                    return self.slot(d, v.args[1].x, self.elems)
            return None
        if v.op == 'attr' and v.x in ('row', 'col', 'indices'):
            a = self.axes(v.args[0])
            if a and len(a) == 2 and v.x != 'indices':
                return a[0 if v.x == 'row' else 1]
            return None
        if v.op == 'new':
            evs = self.I.byobj.get(v.uid, ())
            xs = list(self.I.objinit.get(v.uid) or ())
            ts = set()
            for e in evs:
                if e.kind == 'method' and e.x == 'append':
                    ts.add(self.space(e.args[1]))
                elif e.kind == 'method' and e.x in ('sort', 'reverse'):
                    pass
                elif e.kind == 'method' and e.x == 'extend':
                    ts.add(self.elems(e.args[1]))
                else:
                    return None
            for x in xs:
                ts.add(self.space(x))
            return ts.pop() if len(ts) == 1 else None
        if v.op == 'join':
            return self.phi(v, self.elems)
        if v.op in ('bin', 'aug') and v.x == 'Mult' and self.islist(v.args[0]):
            xs = self.I.objinit.get(bare(v.args[0]).uid) or ()
            return ('const', xs[0].x) if len(xs) == 1 and xs[0].op == 'const' else None
        return None

    # ---- comparison ------------------------------------------------------------------------------------------------------

    def chain(self, t):
        """t and the earlier versions it grew from"""
        out = []
        seen = set()
        while t is not None and t not in seen:
            seen.add(t)
            out.append(t)
            if t[0] == 'grow':
                t = t[1]
            elif t[0] == 'mu' and self.uniform(t):
                v = self.mu(t)
                t = self.basis(v.args[0]) if v.args else None
            else:
                break
        return out

    def mu(self, t):
        v = self.vof.get(t)
        if v is None or v.op != 'mu':
            for L in self.I.loops.values():
                for m in L.mus.values():
                    if m.uid == t[1]:
                        self.vof[t] = m
                        return m
        return v

    def uniform(self, t):
        """does the loop only ever add strings to the variable?"""
        k = ('uniform', t)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = True
        v = self.mu(t)
        ok = v is not None
        L = self.I.loops.get(v.x[0]) if ok else None
        if L is None:
            ok = False
        else:
            for s in list(L.ends) + list(L.brk or ()):
                env = getattr(s, 'env', None)
                if env is None:
                    continue
                e = env.get(v.x[1], v)
                if not self.reaches(self.basis(e), t):
                    ok = False
        self.memo[k] = ok
        return ok

    def reaches(self, t, goal, depth=0):
        if t is None or depth > 20:
            return False
        if t == goal:
            return True
        if t[0] == 'grow':
            return self.reaches(t[1], goal, depth + 1)
        if t[0] == 'phi':
            return all(self.reaches(x, goal, depth + 1) for g, x in t[1])
        if t[0] == 'mu' and self.uniform(t):
            v = self.mu(t)
            return bool(v.args) and self.reaches(self.basis(v.args[0]), goal, depth + 1)
        return False

    def root(self, t):
        c = self.chain(t)
        r = c[-1] if c else None
        if r is not None and r[0] == 'phi':
            m = self.merge([(g, self.root(x)) for g, x in r[1]])
            return r if m is None else m
        return r

    def depends(self, t, m):
        """was the object t computed from the loop variable m?"""
        v = self.vof.get(t)
        if v is None:
            return False
        goal = m[1]
        st, seen = [v], set()
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.uid == goal:
                return True
            if x.op != 'mu':
                st.extend(x.args)
        return False

    def roots(self, a, b, a0=None, b0=None):
        """are two roots the same object?"""
        if a is None or b is None:
            return None
        if a == b:
            return None if 'unknown' in self.leaves(a) else 'same'
        if ('unknown',) in (a, b):
            return None
        a0, b0 = a0 or a, b0 or b
        la, lb = self.leaves(a), self.leaves(b)
        for x, y in ((la, lb), (lb, la)):
            if x == {'eig'} and y <= {'atom', 'ext', 'mu'}:
                return 'diff'
        if a[0] == 'phi' or b[0] == 'phi':
            if a0[0] != 'phi' and b0[0] != 'phi':
                a0, b0 = a, b
            return self.phis(a0, b0, self.compare)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'sel':
                if y[0] == 'sel':
                    r = self.compare(x[2], y[2])
                    if x[1] == y[1]:
                        return r
                    if {'array', 'sorted'} & {x[1][0], y[1][0]}:
                        return None
                    return self.undersel(x, y)
                # selected positions against all positions of the same space
                r = self.compare(x[2], y)
                if r == 'same':
                    return 'diff'
                b0, b1 = self.under(x), y
                return 'diff' if self.compare(b0, b1) == 'same' or self.compare(b0, b1) == 'diff' and y[0] in ('atom', 'ext', 'eig') and b0[0] in ('atom', 'ext', 'eig') else None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'mu':
                if y[0] in ('atom', 'ext') and self.depends(y, x):
                    return 'diff'
                return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'list':
                if y[0] == 'list':
                    return 'diff' if x[1] < y[1] else None
                if y[0] in ('atom', 'ext') and len(x[1]) == 1:
                    v = self.vof.get(x)
                    e = self.I.byobj[v.uid][0] if v is not None else None
                    own = [l for l in e.loops if not self.outer(l, v)] if e is not None else []
                    if len(own) == 1 and self.compare(self.loopspace(own[0]), y) is not None:
                        return 'diff'
                return None
        if a[0] in ('const', 'expr') or b[0] in ('const', 'expr'):
            return 'diff' if a[0] == b[0] == 'const' else None
        return 'diff' if self.independent(a) and self.independent(b) else None

    def independent(self, t):
        """a parameter, a field, a fresh object or the result of a call: not an entry of a local container"""
        if t[0] != 'atom':
            return True
        v = self.vof.get(t)
        while v is not None and v.op in ('attr', 'item', 'elem') and v.args:
            if v.op != 'attr' and bare(v.args[0]).op in ('new', 'mu', 'join'):
                return False
            v = bare(v.args[0])
        return True

    def phis(self, a, b, f):
        """alternatives that can occur together"""
        A = [(dict(g), x) for g, x in a[1]] if a[0] == 'phi' else [({}, a)]
        B = [(dict(g), x) for g, x in b[1]] if b[0] == 'phi' else [({}, b)]
        if len(A) * len(B) > 4000:
            return None
        rs, memo = set(), {}
        for g, x in A:
            for h, y in B:
                if any(k in h and h[k] != p for k, p in g.items()):
                    continue
                if ('unknown',) in (x, y):
                    rs.add('unknown')
                    continue
                if (x, y) not in memo:
                    memo[x, y] = f(x, y)
                r = memo[x, y]
                if r == 'diff' and any(p and k in self.firsts() for k, p in list(g.items()) + list(h.items())):
                    r = 'unknown'  # on the first pass a loop variable still has its initial value
                rs.add(r)
        if rs - {'unknown'} == {'diff'} or 'diff' in rs and (a[0] != 'phi' or b[0] != 'phi'):
            return 'diff'
        return 'same' if rs == {'same'} else None

    def firsts(self):
        """conditions of the form: counter == 0"""
        if 'firsts' not in self.memo:
            out = set()
            for e in self.I.trace:
                for g, p in e.guards:
                    if g.op == 'cmp' and g.x in ('Eq', 'Lt', 'LtE', 'Is') and any(a.op == 'const' for a in g.args) and any(bare(a).op in ('idx', 'mu') for a in g.args):
                        out.add(g.key)
            self.memo['firsts'] = out
        return self.memo['firsts']

    def excluded(self, dg, dh):
        """two sets of conditions (key -> truth) that cannot hold together"""
        if any(k in dh and dh[k] != p for k, p in dg.items()):
            return True
        if 'ors' not in self.memo:
            out = {}
            gs = [g for e in self.I.trace for g, p in e.guards] + [g for x in self.I.vguards.values() for g, p in x]
            for g in gs:
                if g.op == 'bool' and g.key not in out:
                    out[g.key] = (g.x == 'or', [(a.args[0].key, False) if a.op == 'un' and a.x == 'not' else (a.key, True) for a in g.args])
            self.memo['ors'] = out
        d = dict(dg)
        d.update(dh)
        for k, p in d.items():
            o = self.memo['ors'].get(k)
            if o and o[0] == bool(p) and all(d.get(a) == (q != bool(p)) for a, q in o[1]):
                return True
        return False

    def under(self, t):
        while t is not None and t[0] == 'sel':
            t = t[2]
        return t

    def undersel(self, x, y):
        """two different selections: different when the spaces they select from are"""
        d = lambda t: 0 if t is None or t[0] != 'sel' else 1 + d(t[2])
        if d(x) != d(y) and self.compare(self.under(x), self.under(y)) == 'same':
            # x = sel(k, y'): is one the selection of the other?
            for p, q in ((x, y), (y, x)):
                t = p
                while t[0] == 'sel':
                    t = t[2]
                    if t == q:
                        return 'diff'
        r = self.compare(self.under(x), self.under(y))
        if r == 'same' and d(x) == d(y) == 1 and {x[1][0], y[1][0]} in ({'slice', 'where'}, {'slice', 'argsort'}, {'where', 'argsort'}, {'reverse', 'where'}, {'reverse', 'argsort'}):
            return 'diff'
        return 'diff' if r == 'diff' and self.under(x)[0] in ('eig', 'atom', 'ext') and self.under(y)[0] in ('eig', 'atom', 'ext') else None

    def compare(self, a, b):
        """exactly the same positions?"""
        if a is None or b is None:
            return None
        if a == b:
            return 'same'
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return 'same'
        r = self.roots(self.root(a), self.root(b), a, b)
        if r == 'diff':
            return 'diff'
        ca, cb = self.chain(a), self.chain(b)
        if a in cb or b in ca:
            # one is an earlier version of the other
            x, y = (a, cb) if a in cb else (b, ca)
            steps = y[:y.index(x)]
            if any(s[0] == 'grow' or s[0] == 'mu' and self.grows(s) for s in steps):
                return 'diff'
            return None
        return None

    def grows(self, t):
        """does some pass of the loop add strings?"""
        return any(x[0] == 'grow' for x in self.cycle(t) or ())

    def fits(self, i, t):
        """may an index into i be used in data laid out in t?"""
        if i is None or t is None:
            return None
        i, t = self.canon(i), self.canon(t)
        if i == t:
            return 'same'
        if i[0] == 'phi' or t[0] == 'phi':
            return self.phis(i, t, self.fits)
        r = self.roots(self.root(i), self.root(t))
        if r != 'same':
            return r
        c = self.chain(i)
        if t in c and t != i:
            steps = c[:c.index(t)]
            # t is older than the index
            if any(s[0] == 'grow' for s in steps) and t[0] != 'mu':
                return 'diff'
            return None
        return 'same'

    def show(self, t):
        from .values import show
        if t is None:
            return '?'
        if t[0] in ('const',):
            return str(t[1])
        if t[0] == 'sel':
            return 'selection (%s) of %s' % (t[1][0], self.show(t[2]))
        if t[0] == 'grow':
            return 'extended ' + self.show(t[1])
        if t[0] == 'phi':
            return 'one of ' + ' / '.join(self.show(x) for g, x in t[1])
        v = self.vof.get(t)
        if t[0] == 'mu':
            m = self.mu(t)
            return 'the current %s' % m.x[1] if m is not None else 'loop variable'
        if t[0] == 'ext':
            return 'the extended basis of ' + (rq(v).split('.')[-1] if v is not None else '?') + '()'
        if t[0] == 'eig':
            return 'the eigenvectors of ' + (str(v.x[0] if isinstance(v.x, tuple) else v.x).split('.')[-1] if v is not None else '?') + '()'
        if t[0] == 'list':
            return 'a list filled in a loop'
        return show(v, 3) if v is not None else str(t[0])
