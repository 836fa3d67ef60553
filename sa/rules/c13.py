"""C13: Hermitian eigensolvers only receive Hermitian matrices."""
from ..summary import bare
from ..values import is_const, show
from ..spaces import rq
from .c06 import Pairs, Site, runs
from .c12 import CONJ, NONNEG

RULE = ('The matrix argument of every Hermitian eigensolver is rewritten to a sum of products of factors, each possibly conjugated or transposed, and compared with its own conjugate transpose. Factors are known to be Hermitian (identity, Hermitian parts, sums over loops of such '
        'matrices, matrices assembled from coordinate lists in which every entry has its conjugate partner), or known to be general (commutator and transformation matrices, rectangular matrices of vectors, stacked parameters). A difference between the two normal forms in known factors is a violation, '
        'and so is an assembly that lacks or gets wrong the conjugate partner of an entry. The matrix handed to the real Schur decomposition must be antisymmetric in the same sense.')
ASSUME = ['operators handed to the single-particle and many-body diagonalisation are Hermitian, so diagonal entries are real and the many-body matrix is Hermitian', 'operator strings list each pair of labels once']

SOLVERS = ('numpy.linalg.eigh', 'numpy.linalg.eigvalsh', 'scipy.linalg.eigh', 'scipy.linalg.eigvalsh', 'scipy.sparse.linalg.eigsh', 'scipy.sparse.linalg.lobpcg', 'numpy.linalg.cholesky', 'scipy.linalg.cholesky')
SAME = {'toarray', 'todense', 'tocsc', 'tocsr', 'tocoo', 'tolil', 'copy', 'asformat'}
SAMEF = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.coo_matrix', 'numpy.matrix', 'numpy.asmatrix', 'numpy.ascontiguousarray', 'scipy.sparse.lil_matrix', 'scipy.sparse.dok_matrix'}
EYE = {'numpy.eye', 'numpy.identity', 'scipy.sparse.eye', 'scipy.sparse.identity'}
GENERAL = {'algebra.liouvillian_matrix', 'algebra.structure_constants', 'algorithms._explore', 'algorithms._com_matrix', 'algorithms._l_matrix', 'transformation.symmetry_matrix', 'transformation._symmetry_matrix_opstrings', 'transformation._symmetry_matrix_operators', 'conversion.conversion_matrix',
           'tools.intersection', 'tools.sparsify', 'tools.gram_schmidt', 'basis.Operator.to_vector'}
GENERALF = {'numpy.hstack', 'numpy.vstack', 'numpy.concatenate', 'numpy.column_stack', 'scipy.sparse.hstack', 'scipy.sparse.vstack', 'numpy.reshape', 'numpy.triu', 'numpy.tril', 'scipy.sparse.triu', 'scipy.sparse.tril'}
SPARSE = ('scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.coo_matrix', 'scipy.sparse.csr_array', 'scipy.sparse.coo_array', 'scipy.sparse.csc_array')


def run(ck):
    for fn, r, S in runs(ck):
        H = Hermitian(ck, fn, r.I, S)
        for e in r.I.trace:
            if e.kind == 'call' and e.args and e.x[0] in SOLVERS:
                H.solver(e)
            elif e.kind == 'call' and e.args and e.x[0] == 'scipy.linalg.schur' and any(k == 'output' for k in (e.x[1] or ())):
                H.schur(e)
    ck.floor('matrices handed to Hermitian eigensolvers', 4)


def neg(d):
    return {k: -c for k, c in d.items()}


def add(a, b):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + c
        if abs(out[k]) < 1e-12:
            del out[k]
    return out


class Hermitian(Pairs):
    def __init__(self, ck, fn, I, S):
        Pairs.__init__(self, ck, fn, I, S)
        self.atoms = {}     # key -> (status, real, reason); status 'H', 'N' or None
        self.busy = {}
        self.memo = {}

    # ---- entry points ----------------------------------------------------------------------------------------------------

    def name(self, e):
        return getattr(e.fn, 'qual', self.fn.qual)

    def solver(self, e):
        self.ck.count('matrices handed to Hermitian eigensolvers')
        why = []
        s = self.herm(e.args[0], why)
        if s == 'H':
            self.ck.ok('Hermitian by construction', self.name(e))
        elif s == 'N':
            self.ck.bad('matrix is not Hermitian', self.name(e), e.where, 'the matrix handed to %s is not Hermitian by construction: %s' % (e.x[0], '; '.join(why[:2]) or show(bare(e.args[0]), 5)))
        else:
            self.ck.count('matrices of unknown symmetry')

    def schur(self, e):
        b = self.strip(e.args[0])
        tr = self.triplets(b)
        if tr is None:
            return
        self.ck.count('matrices handed to the real Schur decomposition')
        why = []
        s = self.partners(tr, -1, why)
        if s == 'H':
            self.ck.ok('antisymmetric by construction', self.name(e))
        elif s == 'N':
            self.ck.bad('matrix is not antisymmetric', self.name(e), e.where, 'the matrix decomposed into 2x2 blocks is not antisymmetric by construction: %s' % '; '.join(why[:2]))

    # ---- status ----------------------------------------------------------------------------------------------------------

    def herm(self, v, why=None):
        """'H': Hermitian by construction, 'N': certainly not for some input, None: unknown"""
        why = [] if why is None else why
        n = self.nf(v)
        if n is None:
            return None
        d = add(n, neg(self.adj(n)))
        if not d:
            return 'H'
        bad = [k for k in d if all(self.atoms[f[0]][0] in ('H', 'N') for f in k[1]) and all(c[2] for c in k[0])]
        if len(bad) == len(d):
            why.append('%s differs from its conjugate transpose' % self.shown(n))
            for k in bad:
                why += [self.atoms[f[0]][2] for f in k[1] if self.atoms[f[0]][2]]
            return 'N'
        for k in d:
            f = k[1]
            if len(f) >= 2 and len(d) <= 2:
                a, b = f[0], f[-1]
                if self.atoms[a[0]][0] == self.atoms[b[0]][0] == 'N' and self.adjf(a) != b:
                    why.append('%s differs from its conjugate transpose' % self.shown(n))
                    return 'N'
        return None

    def shown(self, n):
        def f(x):
            key, t, c = x
            s = self.names.get(key, '?')
            return s + {(False, False): '', (True, True): '^H', (True, False): '^T', (False, True): '^*'}[(t, c)]
        return ' + '.join('*'.join(f(x) for x in k[1]) or '1' for k in list(n)[:4])

    # ---- normal forms ----------------------------------------------------------------------------------------------------

    def adjf(self, f):
        key, t, c = f
        st, real = self.atoms[key][:2]
        if st == 'H':
            # A^H = A, A^T = A^*
            return (key, t, c) if not real else (key, False, False)
        return self.canon((key, not t, not c))

    def canon(self, f):
        key, t, c = f
        st, real = self.atoms[key][:2]
        if real:
            c = False
        if st == 'H':
            # only conjugation matters
            t, c = False, (t != c) and not real
        if st == 'S':
            t = False
        return key, t, c

    def apply(self, n, tr, cj):
        out = {}
        for (sc, fs), c in n.items():
            if cj:
                c = complex(c).conjugate()
                sc = tuple(sorted(((k, cf if real else not cf, real) for k, cf, real in sc), key=repr))
            gs = tuple(self.canon((k, t ^ tr, x ^ cj)) for k, t, x in fs)
            if tr:
                gs = tuple(reversed(gs))
            out = add(out, {(sc, gs): c})
        return out

    def adj(self, n):
        return self.apply(n, True, True)

    names = {}

    def atom(self, v, status, real=False, why='', key=None):
        k = key or v.key
        if k not in self.atoms:
            self.atoms[k] = (status, real, why)
            self.names = dict(self.names)
            self.names[k] = show(v, 2)
        return {((), (self.canon((k, False, False)),)): 1}

    def strip(self, v):
        v = bare(v)
        while v.op == 'mcall' and v.x[0] in SAME or v.op == 'call' and v.x[0] in SAMEF and v.args and bare(v.args[0]).op not in ('tuple',):
            v = bare(v.args[0])
        return v

    def nf(self, v, depth=0):
        v = self.strip(v)
        if v.uid in self.memo:
            return self.memo[v.uid]
        if depth > 40:
            return None
        n = self._nf(v, depth + 1)
        if n is not None and len(n) > 60:
            n = None
        if not self.busy:
            self.memo[v.uid] = n
        return n

    def mul(self, a, b):
        if a is None or b is None or len(a) * len(b) > 60:
            return None
        out = {}
        for (s1, f1), c1 in a.items():
            for (s2, f2), c2 in b.items():
                out = add(out, {(tuple(sorted(s1 + s2, key=repr)), f1 + f2): c1 * c2})
        return out

    def _nf(self, v, d):
        o = v.op
        if o == 'attr':
            if v.x in ('T', 'H'):
                n = self.nf(v.args[0], d)
                return n if n is None else self.apply(n, True, v.x == 'H')
            if v.x in ('real', 'imag'):
                return self.part(v, v.x, v.args[0], d)
        if o == 'mcall' and v.x[0] in ('getH', 'transpose', 'conj', 'conjugate') and len(v.args) == 1:
            n = self.nf(v.args[0], d)
            return n if n is None else self.apply(n, v.x[0] in ('getH', 'transpose'), v.x[0] != 'transpose')
        if o == 'call' and v.x[0] in CONJ | {'numpy.transpose'} and len(v.args) == 1:
            n = self.nf(v.args[0], d)
            return n if n is None else self.apply(n, v.x[0] == 'numpy.transpose', v.x[0] != 'numpy.transpose')
        if o == 'call' and v.x[0] in ('numpy.real', 'numpy.imag') and v.args:
            return self.part(v, v.x[0][6:], v.args[0], d)
        if o == 'mcall' and v.x[0] in ('dot', 'matmul') and len(v.args) == 2 or o == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul') and len(v.args) == 2 or o in ('bin', 'aug') and v.x == 'MatMult':
            return self.mul(self.nf(v.args[0], d), self.nf(v.args[1], d))
        if o == 'call' and v.x[0] in ('numpy.linalg.multi_dot',):
            return None
        if o == 'un' and v.x in ('USub', 'neg', '-'):
            n = self.nf(v.args[0], d)
            return n if n is None else neg(n)
        if o in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            a, b = self.nf(v.args[0], d), self.nf(v.args[1], d)
            if a is None or b is None:
                return None
            return add(a, b if v.x == 'Add' else neg(b))
        if o in ('bin', 'aug') and v.x in ('Mult', 'Div'):
            a, b = v.args
            if self.scalar(b):
                n = self.nf(a, d)
                return None if n is None else self.scale(n, b, v.x == 'Div')
            if v.x == 'Mult' and self.scalar(a):
                n = self.nf(b, d)
                return None if n is None else self.scale(n, a, False)
            return self.atom(v, None)
        if o == 'call' and v.x[0] in EYE:
            return self.atom(v, 'H', True)
        if o == 'call' and v.x[0] in ('numpy.diag', 'scipy.sparse.diags') and v.args:
            return self.atom(v, 'H' if self.isreal(v.args[0]) else 'S', self.isreal(v.args[0]))
        if o == 'call' and v.x[0] in SPARSE + ('numpy.zeros', 'scipy.sparse.lil_matrix', 'scipy.sparse.dok_matrix') and v.args:
            a = bare(v.args[0])
            tr = self.triplets(v)
            if tr is None:
                return self.atom(v, None)
            if not tr:
                return {}
            why = []
            s = self.partners(tr, 1, why)
            return self.atom(v, s, False, '; '.join(why[:1]))
        if o == 'call' and v.x[0] in GENERALF:
            return self.atom(v, 'N')
        if o == 'rcall' and rq(v) in GENERAL:
            return self.atom(v, 'N')
        if o == 'rcall' and rq(v).split('.')[-1] in ('to_matrix', '_to_matrix_operator', 'reduced_density_matrix'):
            return self.atom(v, 'H')
        if o == 'item':
            b = bare(v.args[0])
            if b.op == 'rcall' and rq(b) in GENERAL or b.op == 'call' and b.x[0].split('.')[-1] in ('eigh', 'eigsh', 'eig', 'eigs') and is_const(v.args[1], 1) or b.op == 'call' and b.x[0].split('.')[-1] in ('svd', 'svds') and v.args[1].op == 'const' and v.args[1].x in (0, 2):
                return self.atom(v, 'N')
            p = v.args[1]
            if p.op == 'tuple' and len(p.args) == 2:
                if bare(p.args[0]).key == bare(p.args[1]).key:
                    s = self.herm(b)
                    return self.atom(v, 'H' if s == 'H' else None)
                a = self.S.axes(v)
                return self.atom(v, 'N' if a and len(a) == 2 and None not in a and self.S.compare(*a) == 'diff' else None)
        if o == 'join':
            return self.several(v, v.args, d)
        if o == 'mu':
            L = self.I.loops.get(v.x[0])
            if L is None or v.uid in self.busy:
                return self.atom(v, 'H')
            self.busy[v.uid] = True
            old = dict(self.atoms)
            xs = list(v.args) + [s.env[v.x[1]] for s in L.ends if v.x[1] in s.env]
            ss = set()
            why = []
            for x in xs:
                if bare(x).uid != v.uid:
                    ss.add(self.herm(x, why))
            del self.busy[v.uid]
            self.atoms = old
            return self.atom(v, 'N' if 'N' in ss else 'H' if ss == {'H'} else None, False, '; '.join(why[:2]))
        a = self.S.axes(v)
        if a and len(a) == 2 and None not in a and self.S.compare(*a) == 'diff':
            return self.atom(v, 'N')
        return self.atom(v, None)

    def several(self, v, xs, d):
        why = []
        keys = set()
        n0 = self.nf(xs[0], d) if xs else None
        if n0 is not None and all(self.nf(x, d) == n0 for x in xs[1:]):
            return n0
        ss = {self.herm(x, why) for x in xs}
        if ss == {'H'}:
            return self.atom(v, 'H')
        ns = {s for x in xs for s in (self.herm(x),)}
        return self.atom(v, 'N' if 'N' in ns and None not in ns else None, False, '; '.join(why[:2]))

    def part(self, v, which, x, d):
        n = self.nf(x, d)
        if n is None:
            return None
        if which == 'real':
            tp = self.apply(n, True, False)
            if not add(n, neg(tp)) or not add(n, neg(self.adj(n))):
                return self.atom(v, 'H', True)
        if not n:
            return {}
        why = []
        s = self.herm(x, why)
        k = tuple(sorted((repr(a), repr(b)) for a, b in n.items()))
        if which == 'real':
            d1 = self.plain(add(n, neg(tp)))
            if d1 and all(self.atoms[f[0]][0] for kk in d1 for f in kk[1]) and all(c[2] for kk in d1 for c in kk[0]):
                return self.atom(v, 'N', True, '; '.join(why), key=(which, k))
        fs = [f for kk in n for f in kk[1]]
        return self.atom(v, 'N' if s == 'N' and len(n) == 1 and all(self.atoms[f[0]][0] == 'N' for f in fs) else None, True, '; '.join(why), key=(which, k))

    def plain(self, n):
        """without regard to conjugation"""
        out = {}
        for (sc, fs), c in n.items():
            out = add(out, {(sc, tuple((k, t, False) for k, t, x in fs)): c})
        return out

    # ---- scalars ---------------------------------------------------------------------------------------------------------

    def scalar(self, v):
        v = bare(v)
        if v.op == 'const':
            return isinstance(v.x, (int, float, complex)) and not isinstance(v.x, bool)
        if v.op == 'un':
            return self.scalar(v.args[0])
        if v.op in ('bin', 'aug'):
            return all(self.scalar(a) for a in v.args)
        if v.op == 'param':
            t = self.I.T.ty(v)
            return t in ('int', 'float', 'complex', 'num')
        if v.op == 'call':
            return v.x[0] in ('builtins.len', 'builtins.int', 'builtins.float', 'builtins.complex', 'numpy.linalg.norm', 'builtins.abs', 'math.sqrt') or v.x[0] in ('numpy.sqrt', 'numpy.conj', 'numpy.abs', 'numpy.real', 'numpy.exp') and bool(v.args) and self.scalar(v.args[0])
        if v.op in ('elem', 'item') and self.owners(v):
            return True
        if v.op == 'rcall':
            return rq(v).split('.')[-1] in ('norm', '__len__')
        if v.op == 'join':
            return bool(v.args) and all(self.scalar(a) for a in v.args)
        return v.op == 'idx' or v.op == 'attr' and v.x == 'prefactor'

    def scale(self, n, s, div):
        c, sc = self.factor(s)
        if div:
            if c == 0:
                return None
            c = 1 / c
            sc = [((k, 'inv'), x, r) for k, x, r in sc]
        return {(tuple(sorted(k[0] + tuple(sc), key=repr)), k[1]): q * c for k, q in n.items()}

    def factor(self, v):
        """(number, [(key, conjugated, real)]) of a product of scalars"""
        v = bare(v)
        if v.op == 'const' and isinstance(v.x, (int, float, complex)) and not isinstance(v.x, bool):
            return v.x, []
        if v.op == 'un' and v.x in ('USub', 'neg', '-'):
            c, s = self.factor(v.args[0])
            return -c, s
        if v.op in ('bin', 'aug') and v.x == 'Mult':
            a, b = self.factor(v.args[0]), self.factor(v.args[1])
            return a[0] * b[0], a[1] + b[1]
        if v.op in ('bin', 'aug') and v.x == 'Div':
            a, b = self.factor(v.args[0]), self.factor(v.args[1])
            if b[0]:
                return a[0] / b[0], a[1] + [((k, 'inv'), x, r) for k, x, r in b[1]]
        if v.op == 'call' and v.x[0] in CONJ and v.args or v.op == 'mcall' and v.x[0] in ('conj', 'conjugate'):
            c, s = self.factor(v.args[0])
            return complex(c).conjugate(), [(k, x if r else not x, r) for k, x, r in s]
        if v.op == 'call' and v.x[0] in ('numpy.array', 'builtins.complex', 'numpy.complex128') and len(v.args) == 1:
            return self.factor(v.args[0])
        return 1, [(v.key, False, self.isreal(v))]

    def isreal(self, v):
        v = bare(v)
        if v.op == 'const':
            return isinstance(v.x, (int, float))
        if v.op == 'call':
            if v.x[0] in NONNEG and v.x[0] not in ('numpy.sqrt', 'numpy.square', 'numpy.exp') or v.x[0] in ('numpy.real', 'numpy.imag', 'builtins.float', 'builtins.int', 'numpy.sign', 'numpy.arange', 'builtins.range', 'numpy.log', 'numpy.random.rand', 'numpy.random.randn'):
                return True
            if v.x[0] in ('numpy.zeros', 'numpy.ones'):
                dt = [a for k, a in zip(v.x[1] or (), v.args[len(v.args) - len(v.x[1] or ()):]) if k == 'dtype'] + [a for a in v.args[1:2]]
                return not any('complex' in show(a, 2) for a in dt) and not self.I.byobj.get(v.uid)
            if v.x[0] in ('numpy.sqrt', 'numpy.square', 'numpy.exp', 'numpy.array', 'numpy.sum', 'numpy.max', 'numpy.min') and v.args:
                return self.isreal(v.args[0])
            return False
        if v.op == 'attr' and v.x in ('real', 'imag'):
            return True
        if v.op in ('bin', 'aug', 'un', 'join', 'mcall') and v.args:
            return all(self.isreal(a) for a in v.args) and (v.op != 'mcall' or v.x[0] in SAME)
        if v.op == 'param':
            return self.I.T.ty(v) in ('int', 'float')
        if v.op == 'item':
            return self.isreal(v.args[0])
        return v.op == 'idx' or v.op == 'rcall' and rq(v).split('.')[-1] in ('norm', '__len__')

    # ---- assembled matrices ----------------------------------------------------------------------------------------------

    def triplets(self, v):
        """entries (row, column, value, guards, event) of an assembled matrix; [] for an empty one; None if unknown"""
        v = self.strip(v)
        if v.op != 'call' or not v.args:
            return None
        a = bare(v.args[0])
        out = []
        if v.x[0] in SPARSE and a.op == 'tuple' and len(a.args) == 2 and bare(a.args[1]).op == 'tuple' and len(bare(a.args[1]).args) == 2:
            lists = [a.args[0]] + list(bare(a.args[1]).args)
            cols = [self.pushed(x) for x in lists]
            if None in cols:
                return None
            keys = [list(c) for c in cols]
            if not (set(keys[0]) == set(keys[1]) == set(keys[2])):
                return None
            for k in keys[0]:
                d, r, c = (col[k] for col in cols)
                if not (len(d) == len(r) == len(c)):
                    return None
                out += [(y[0], z[0], x[0], x[1].guards, x[1]) for x, y, z in zip(d, r, c)]
        elif not (a.op == 'tuple' and len(a.args) == 2 or v.x[0] == 'numpy.zeros'):
            return None
        for e in self.I.byobj.get(v.uid, ()):
            if e.kind == 'store_item' and len(e.args) > 2 and bare(e.args[1]).op == 'tuple' and len(bare(e.args[1]).args) == 2:
                r, c = bare(e.args[1]).args
            elif e.kind == 'aug_item' and e.x in ('Add',) and len(e.args) > 2 and bare(e.args[1]).op == 'tuple' and len(bare(e.args[1]).args) == 2:
                r, c = bare(e.args[1]).args
            elif e.kind == 'aug_name' or e.kind == 'method' and e.x in SAME | {'dot', 'sum'}:
                continue
            else:
                return None
            if r.op == 'slice' or c.op == 'slice':
                return None
            out.append((r, c, e.args[2], e.guards, e))
        return out

    def pushed(self, v):
        """values pushed to a list, grouped by the place they are pushed in"""
        v = bare(v)
        if v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.asarray', 'builtins.list') and len(v.args) >= 1:
            v = bare(v.args[0])
        if v.op != 'new' or v.x != 'list' or self.I.objinit.get(v.uid):
            return None
        out = {}
        for e in self.I.byobj.get(v.uid, ()):
            if e.kind == 'method' and e.x == 'append' and len(e.args) > 1:
                xs = [e.args[1]]
            elif e.kind == 'method' and e.x == 'extend' and len(e.args) > 1 or e.kind == 'aug_name':
                w = bare(e.args[1])
                if w.op == 'tuple':
                    xs = list(w.args)
                elif w.op == 'new' and w.x in ('list', 'tuple') and not self.I.byobj.get(w.uid):
                    xs = list(self.I.objinit.get(w.uid) or ())
                else:
                    return None
            else:
                return None
            k = (tuple(getattr(x, 'id', x) for x in e.loops), tuple((g.key, p) for g, p in e.guards))
            out.setdefault(k, []).extend((x, e) for x in xs)
        return out

    def spot(self, v):
        """a row or column number as a sum"""
        v = bare(v)
        if v.op in ('bin', 'aug') and v.x == 'Add':
            return tuple(sorted(self.spot(v.args[0]) + self.spot(v.args[1]), key=repr))
        return (v.key,)

    def partners(self, tr, sign, why):
        """has every entry (r, c, v) a partner (c, r, sign * conj(v))?"""
        es = []
        for r, c, v, gs, e in tr:
            q, sc = self.factor(v)
            es.append((self.spot(r), self.spot(c), q, tuple(sorted(sc, key=repr)), tuple((g.key, p) for g, p in gs), e, (r, c, v)))
        unknown = False
        for i, (r, c, q, sc, gs, e, raw) in enumerate(es):
            if r == c or self.equal(raw[0], raw[1], e.guards):
                if sign == 1:
                    x = complex(q)
                    if all(k[2] for k in sc) and abs(x.imag) > 1e-15:
                        why.append('the diagonal entry %s is not real' % show(raw[2], 4))
                        return 'N'
                    if r == c and not all(k[2] for k in sc) and self.apart(r, e.guards):
                        why.append('the entry %s of a string with different labels is put on the diagonal (%s)' % (show(raw[2], 4), e.where))
                        return 'N'
                continue
            cj = tuple(sorted(((k, x if rl else not x, rl) for k, x, rl in sc), key=repr))
            same = [x for j, x in enumerate(es) if x[0] == c and x[1] == r and x[4] == gs and j != i]
            good = [x for x in same if abs(complex(x[2]) - sign * complex(q).conjugate()) < 1e-12 and x[3] == cj]
            if good:
                continue
            if same:
                if {k for k, x, rl in sc} == {k for x in same for k, y, rl in x[3]}:
                    why.append('entry (%s, %s) is %s, but entry (%s, %s) is %s (%s)' % (show(raw[0], 2), show(raw[1], 2), show(raw[2], 4), show(raw[1], 2), show(raw[0], 2), show(same[0][6][2], 4), e.where))
                    return 'N'
                unknown = True
                continue
            if any(x[0] == c and x[1] == r for x in es):
                unknown = True
                continue
            if self.once(raw[0], raw[1]):
                why.append('entry (%s, %s) has no entry (%s, %s) (%s)' % (show(raw[0], 2), show(raw[1], 2), show(raw[1], 2), show(raw[0], 2), e.where))
                return 'N'
            unknown = True
        return None if unknown else 'H'

    def equal(self, r, c, guards):
        for g, p in guards:
            g = bare(g)
            if g.op == 'un' and g.x == 'not':
                g, p = bare(g.args[0]), not p
            if g.op == 'cmp' and g.x == 'Eq' and p and {bare(a).key for a in g.args} == {bare(r).key, bare(c).key}:
                return True
            if g.op == 'cmp' and g.x == 'Eq' and p:
                ks = [bare(a).key for a in g.args]
                if self.swap(self.spot(r), ks) == self.swap(self.spot(c), ks):
                    return True
        return False

    def apart(self, p, guards):
        for g, t in guards:
            g = bare(g)
            if g.op == 'un' and g.x == 'not':
                g, t = bare(g.args[0]), not t
            if g.op == 'cmp' and g.x == 'Eq' and not t and any(bare(a).key in p for a in g.args) and all(self.labels(a) for a in g.args):
                return True
        return False

    def swap(self, p, ks):
        return tuple(sorted((ks[0] if k == ks[1] else k for k in p), key=repr))

    def once(self, r, c):
        """are row and column computed from the first and second label of the same string?"""
        a, b = self.labels(r), self.labels(c)
        return any(x[0] == y[0] and x[1] != y[1] for x in a for y in b)

    def labels(self, v, depth=0):
        v = bare(v)
        if depth > 8:
            return []
        if v.op == 'item' and v.args[1].op == 'const':
            b = bare(v.args[0])
            if b.op == 'attr' and b.x == 'orbital_labels' or b.op == 'call' and b.args and bare(b.args[0]).op == 'attr' and bare(b.args[0]).x == 'orbital_labels':
                return [(bare(b.args[0]).key if b.op == 'attr' else bare(bare(b.args[0]).args[0]).key, v.args[1].x)]
        if v.op in ('bin', 'aug', 'un', 'join', 'call'):
            return [y for a in v.args for y in self.labels(a, depth + 1)]
        return []
