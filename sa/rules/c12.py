"""C12: cut-offs compare magnitudes and keep the large side."""
import re

from ..spaces import EIGH, SVD, rq
from ..summary import bare
from ..values import is_const, show
from .c06 import runs
from .c07 import Matrices, alive
from .c18 import where
from .c28 import closure

RULE = ('Every ordering comparison with a tolerance or threshold (parameter, field or constant used as one) is found. The other side is given a sign by inference: magnitudes, norms, squares, singular values and eigenvalues of products of a matrix with its own '
        'conjugate transpose are non-negative; coefficients, matrix elements, overlaps, their real and imaginary parts and differences from a target are not. A signed quantity compared with a cut-off is a violation, and so is keeping a term because its own '
        'magnitude is small, selecting eigenvectors because their eigenvalue is large, or cutting a list off that is sorted by signed value or with the smallest first.')
ASSUME = ['two-sided tests written as two comparisons (x < -tol or x > tol) are accepted', 'differences of two non-negative quantities are meant to be signed']

CUT = re.compile(r'(^|_)(tol|tols|tolerance|threshold|thresholds|cutoff|eps|epsilon|atol|rtol)(_|$|\d)')
NONNEG = {'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'builtins.abs', 'numpy.linalg.norm', 'scipy.linalg.norm', 'scipy.sparse.linalg.norm', 'numpy.sqrt', 'numpy.square', 'builtins.len', 'numpy.hypot', 'math.sqrt', 'math.fabs', 'numpy.count_nonzero', 'numpy.exp', 'math.hypot'}
PASS = {'numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin', 'numpy.sum', 'numpy.mean', 'numpy.median', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'builtins.float', 'builtins.max', 'builtins.min', 'builtins.sum', 'numpy.sort', 'builtins.sorted', 'builtins.list',
        'numpy.round', 'numpy.float64', 'numpy.maximum', 'numpy.minimum', 'copy.deepcopy', 'copy.copy', 'builtins.tuple', 'numpy.squeeze', 'numpy.ravel', 'numpy.atleast_1d', 'numpy.prod', 'numpy.cumsum', 'builtins.complex', 'numpy.complex128'}
MPASS = {'max', 'min', 'sum', 'mean', 'copy', 'flatten', 'ravel', 'toarray', 'item', 'astype', 'todense', 'squeeze', 'round', 'tolist'}
CONJ = {'numpy.conj', 'numpy.conjugate'}
DOTS = {'numpy.dot', 'numpy.vdot', 'numpy.inner', 'numpy.matmul'}
ENTRIES = re.compile(r'coeff|weight|(\w+_)?(vec|vecs|vector|vectors|matrix|evecs)\d*$|pos$|position|displacement')


def run(ck):
    live = alive(ck.ctx.prog)
    for fn, r, S in runs(ck):
        if fn.qual in live:
            Cuts(ck, fn, r.I, S, live).run(r)
    ck.floor('comparisons with a cut-off', 5)


class Cuts(Matrices):
    def __init__(self, ck, fn, I, S, live):
        Matrices.__init__(self, ck, fn, I, S)
        self.live = live
        self.smemo = {}

    def run(self, r):
        I, S = self.I, self.S
        self.vs = self.values()
        for val, guards, node, state in I.returns:
            st = [val]
            while st:
                v = st.pop()
                if v.uid not in self.byuid():
                    self.byuid()[v.uid] = v
                    st.extend(v.args)
        self.cuts = {}
        done = set()
        for v, e in self.vs:
            if v.op == 'cmp' and v.x in ('Lt', 'LtE') and len(v.args) == 2 and v.key not in done:
                done.add(v.key)
                self.comparison(v, e)
        self.kept(r)
        for v, e in self.vs:
            if v.op == 'item':
                self.selected(v, e)
            if v.op == 'join':
                self.chosen(v, e)
        self.sorted(r)

    def values(self):
        """all values, with the conditions of alternatives"""
        seen = {}
        for e in self.I.trace:
            st = list(e.args) + ([e.val] if e.val is not None else []) + [g for g, p in e.guards]
            while st:
                v = st.pop()
                if v.uid not in seen:
                    seen[v.uid] = (v, e)
                    st.extend(v.args)
                    if v.op == 'join':
                        st.extend(g for gs in v.x for g, p in gs)
        return list(seen.values())

    def stored(self):
        """values that become coefficients of operators or entries of matrices"""
        if not hasattr(self, '_stored'):
            self._stored = set()
            done = set()
            st = []
            for v, e in self.vs:
                if v.op == 'inst' or v.op == 'call' and v.x[0].startswith('scipy.sparse.cs') and v.args:
                    st += v.args[:1]
            for e in self.I.trace:
                if e.kind == 'instantiate' and e.x[0].endswith('.Operator'):
                    st += [w for n, w in e.x[1] if n == 'coeffs']
                elif e.kind == 'call' and e.x[0].startswith('scipy.sparse.cs') and e.args:
                    st.append(bare(e.args[0]).args[0] if bare(e.args[0]).op == 'tuple' else e.args[0])
            st = [(w, False) for w in st]
            while st:
                w, inner = st.pop()
                w = bare(w)
                if (w.uid, inner) in done:
                    continue
                done.add((w.uid, inner))
                if w.op == 'new':
                    st += [(a, True) for a in self.I.objinit.get(w.uid) or ()]
                    st += [(e.args[1], True) for e in self.I.byobj.get(w.uid, ()) if e.kind == 'method' and e.x == 'append' and len(e.args) > 1]
                elif w.op == 'tuple':
                    st += [(a, True) for a in w.args]
                elif w.op == 'call' and w.x[0] in ('numpy.array', 'numpy.asarray', 'builtins.list', 'copy.deepcopy') and w.args:
                    st.append((w.args[0], inner))
                elif w.op == 'join':
                    st += [(a, inner) for a in w.args]
                elif inner:
                    self._stored.add(w.key)
        return self._stored

    def byuid(self):
        if not hasattr(self, '_byuid'):
            self._byuid = {v.uid: v for v, e in self.vs}
        return self._byuid

    # ---- comparisons -----------------------------------------------------------------------------------------------------

    def cutoff(self, v, depth=0):
        """is v a cut-off? 1: yes, -1: its negative"""
        v = bare(v)
        if depth > 6:
            return 0
        if v.op == 'param':
            n = v.x[1]
            return 1 if isinstance(n, str) and CUT.search(n) else 0
        if v.op == 'const':
            return 1 if isinstance(v.x, float) and 0 < v.x <= 1e-4 else -1 if isinstance(v.x, float) and -1e-4 <= v.x < 0 else 0
        if v.op == 'attr':
            if v.x == 'eps' and bare(v.args[0]).op == 'call' and bare(v.args[0]).x[0] == 'numpy.finfo':
                return 1
            return 1 if CUT.search(v.x) else 0
        if v.op == 'un' and v.x in ('USub', 'neg', '-'):
            return -self.cutoff(v.args[0], depth + 1)
        if v.op in ('bin', 'aug') and v.x in ('Mult', 'Div'):
            a, b = v.args
            if b.op == 'const' and not isinstance(b.x, (str, type(None))):
                return self.cutoff(a, depth + 1)
            if a.op == 'const' and v.x == 'Mult' and not isinstance(a.x, (str, type(None))):
                c = self.cutoff(b, depth + 1)
                return -c if not isinstance(a.x, complex) and a.x < 0 else c
            return 0
        if v.op in ('bin', 'aug') and v.x == 'Pow' and is_const(v.args[0], 10) and bare(v.args[1]).op == 'un':
            return 1
        if v.op == 'item' and v.args[1].op != 'slice':
            return self.cutoff(v.args[0], depth + 1)
        if v.op == 'mu':
            return self.cutoff(v.args[0], depth + 1) if v.args else 0
        if v.op == 'join':
            rs = {self.cutoff(a, depth + 1) for a in v.args}
            return rs.pop() if len(rs) == 1 else 0
        return 0

    def comparison(self, v, e):
        a, b = v.args
        ca, cb = self.cutoff(a), self.cutoff(b)
        if bool(ca) == bool(cb):
            return
        x, c, small = (a, cb, True) if cb else (b, ca, False)
        name = getattr(e.fn, 'qual', self.fn.qual)
        if name not in self.live:
            return
        x0 = bare(x)
        if x0.op in ('bin', 'aug') and x0.x == 'Pow' and is_const(x0.args[0], 10):
            return
        self.ck.count('comparisons with a cut-off')
        if c < 0:
            return
        self.cuts[v.key] = (x0, small)
        s = self.sign(x)
        if s == 'signed':
            if self.twosided(x):
                return
            self.wrong('signed value compared with a cut-off', e, v, '%s is compared with the cut-off %s without taking its magnitude' % (show(x0, 4), show(bare(b if cb else a), 2)))
        elif s == 'nonneg':
            self.ck.ok('magnitudes compared with cut-offs', name)
        else:
            self.ck.count('quantities of unknown sign')

    def twosided(self, x):
        """is the other side tested as well (x < -tol), or the magnitude next to it?"""
        k = bare(x).key
        for v, e in self.vs:
            if v.op == 'cmp' and v.x in ('Lt', 'LtE') and len(v.args) == 2:
                for p, q in ((v.args[0], v.args[1]), (v.args[1], v.args[0])):
                    if bare(p).key == k and self.cutoff(q) < 0:
                        return True
                    n = bare(p)
                    if n.op == 'un' and n.x in ('USub', 'neg', '-') and bare(n.args[0]).key == k and self.cutoff(q) > 0:
                        return True
        return False

    # ---- signs -----------------------------------------------------------------------------------------------------------

    def sign(self, v):
        v = bare(v)
        if v.uid in self.smemo:
            return self.smemo[v.uid]
        self.smemo[v.uid] = None
        try:
            s = self._sign(v)
            if s is None and v.op in ('bin', 'aug', 'call', 'rcall', 'dyn', 'item', 'elem') and v.key in self.stored() and not self.spectrum(v):
                s = 'signed'
        except RecursionError:
            s = None
        self.smemo[v.uid] = s
        return s

    def all(self, xs):
        rs = [self.sign(x) for x in xs]
        return 'signed' if 'signed' in rs else 'nonneg' if rs and set(rs) == {'nonneg'} else None

    def factors(self, v):
        v = bare(v)
        if v.op in ('bin', 'aug') and v.x == 'Mult':
            return self.factors(v.args[0]) + self.factors(v.args[1])
        if v.op in ('bin', 'aug') and v.x == 'Div':
            return self.factors(v.args[0]) + [(k, not d) for k, d in self.factors(v.args[1])]
        return [(v, False)]

    def conj(self, v):
        """key of v without conjugation"""
        v = bare(v)
        if v.op == 'call' and v.x[0] in CONJ or v.op == 'mcall' and v.x[0] in ('conj', 'conjugate'):
            return bare(v.args[0]).key
        return v.key

    def coefficient(self, v):
        if v.op == 'item' and is_const(v.args[1]) and bare(v.args[0]).op == 'call' and bare(v.args[0]).x[0] in ('scipy.linalg.lu', 'scipy.linalg.qr', 'numpy.linalg.qr', 'scipy.linalg.schur'):
            return True
        if v.op == 'rcall' and rq(v) == 'tools.gram_schmidt':
            return True
        if self.owners(v):
            return True
        if v.op == 'attr' and v.x in ('coeffs', 'prefactor'):
            return True
        if v.op == 'param':
            n = v.x[1]
            return isinstance(n, str) and bool(ENTRIES.match(n))
        if v.op == 'rcall' and rq(v) == 'basis.Operator.to_vector':
            return True
        return False

    def eigenvalues(self, v):
        """the decomposition that v holds eigenvalues of"""
        b = bare(v)
        if b.op == 'item' and b.args[1].op == 'const' and bare(b.args[0]).op == 'call':
            c = bare(b.args[0])
            if c.x[0] in EIGH and b.args[1].x == 0:
                return c
            if c.x[0] in SVD and b.args[1].x == 1:
                return c
        return None

    def spectrum(self, v):
        """are all alternatives (parts of) eigenvalues?"""
        v = bare(v)
        if self.eigenvalues(v) is not None:
            return True
        if v.op == 'item':
            return self.spectrum(v.args[0])
        if v.op == 'join':
            return bool(v.args) and all(self.spectrum(a) for a in v.args)
        if v.op == 'call' and v.x[0] in PASS | {'numpy.real'} and v.args:
            return self.spectrum(v.args[0])
        return False

    def psd(self, m, depth=0):
        """is the matrix a sum of products of a matrix with its own conjugate transpose?"""
        m = bare(m)
        if depth > 12:
            return False
        if m.op == 'mcall' and m.x[0] in ('toarray', 'todense', 'tocsc', 'tocsr', 'copy', 'tocoo'):
            return self.psd(m.args[0], depth + 1)
        if m.op == 'attr' and m.x == 'real':
            return self.psd(m.args[0], depth + 1)
        if m.op == 'call' and m.x[0] in ('numpy.real', 'numpy.array', 'numpy.asarray', 'copy.deepcopy'):
            return self.psd(m.args[0], depth + 1)
        if m.op == 'join':
            return bool(m.args) and all(self.psd(a, depth + 1) for a in m.args)
        if m.op in ('bin', 'aug') and m.x == 'Add':
            return all(self.psd(a, depth + 1) for a in m.args)
        if m.op in ('bin', 'aug') and m.x == 'Mult':
            a, b = m.args
            return self.sign(a) == 'nonneg' and self.psd(b, depth + 1) or self.sign(b) == 'nonneg' and self.psd(a, depth + 1)
        fs = self.product_of(m)
        if fs and len(fs) >= 2:
            return all(self.adjoint(x, y) for x, y in zip(fs[:len(fs) // 2], reversed(fs[(len(fs) + 1) // 2:]))) and (len(fs) % 2 == 0 or self.psd(fs[len(fs) // 2], depth + 1))
        return False

    def product_of(self, m):
        m = bare(m)
        if m.op == 'mcall' and m.x[0] in ('dot', 'matmul') and len(m.args) == 2 or m.op == 'call' and m.x[0] in ('numpy.dot', 'numpy.matmul') and len(m.args) == 2 or m.op in ('bin', 'aug') and m.x == 'MatMult':
            return self.product_of(m.args[0]) + self.product_of(m.args[1])
        return [m]

    def strip(self, m):
        """(key without transposition and conjugation, transposed?, conjugated?)"""
        t = c = False
        m = bare(m)
        while True:
            if m.op == 'attr' and m.x in ('T', 'H'):
                t, c = not t, c ^ (m.x == 'H')
            elif m.op == 'mcall' and m.x[0] in ('getH', 'transpose', 'conj', 'conjugate') and len(m.args) == 1:
                t, c = t ^ (m.x[0] in ('getH', 'transpose')), c ^ (m.x[0] != 'transpose')
            elif m.op == 'call' and m.x[0] in CONJ | {'numpy.transpose'} and len(m.args) == 1:
                t, c = t ^ (m.x[0] == 'numpy.transpose'), c ^ (m.x[0] != 'numpy.transpose')
            elif m.op == 'mcall' and m.x[0] in ('toarray', 'todense', 'tocsc', 'tocsr', 'copy'):
                pass
            else:
                return m.key, t, c
            m = bare(m.args[0])

    def adjoint(self, x, y):
        a, b = self.strip(x), self.strip(y)
        return a[0] == b[0] and a[1] != b[1] and a[2] != b[2]

    def _sign(self, v):
        o = v.op
        if o == 'const':
            if isinstance(v.x, bool) or v.x is None or isinstance(v.x, (str, complex)):
                return None
            return 'nonneg' if v.x >= 0 else 'signed'
        if o == 'call':
            f = v.x[0]
            if f in NONNEG:
                return 'nonneg'
            if f in PASS and v.args:
                return self.all(v.args[:1])
            if f in ('numpy.real', 'numpy.conj', 'numpy.conjugate') and v.args:
                return self.sign(v.args[0]) or (f == 'numpy.real' and self.difference(v.args[0]) or None)
            if f == 'numpy.imag' and v.args:
                return self.imaginary(v.args[0])
            if f in DOTS and len(v.args) == 2:
                return self.overlap(v, v.args[0], v.args[1])
            return None
        if o == 'attr':
            if v.x == 'real':
                return self.sign(v.args[0]) or self.difference(v.args[0])
            if v.x == 'imag':
                return self.imaginary(v.args[0])
            return 'signed' if self.coefficient(v) else None
        if o == 'mcall':
            if v.x[0] == 'norm':
                return 'nonneg'
            if v.x[0] in MPASS:
                return self.sign(v.args[0])
            if v.x[0] == 'dot' and len(v.args) == 2:
                return self.overlap(v, v.args[0], v.args[1])
            return None
        if o == 'rcall':
            q = rq(v)
            if q.split('.')[-1] in ('norm', '__len__', 'distance', 'index', '_norm'):
                return 'nonneg'
            return 'signed' if self.coefficient(v) else None
        if o == 'un' and v.x in ('USub', 'neg', '-'):
            return 'signed' if self.sign(v.args[0]) in ('nonneg', 'signed') and not is_const(v.args[0], 0) else None
        if o in ('bin', 'aug'):
            a, b = v.args[0], v.args[1]
            if v.x in ('Mult', 'Div'):
                fs = self.factors(v)
                if v.x == 'Mult' and len(fs) == 2 and not fs[0][1] and not fs[1][1]:
                    p, q = bare(fs[0][0]), bare(fs[1][0])
                    if p.key != q.key and self.conj(p) == self.conj(q):
                        return 'nonneg'
                    if p.key == q.key:
                        return None if self.sign(p) != 'nonneg' else 'nonneg'
                rs = [self.sign(f) for f, d in fs]
                if set(rs) == {'nonneg'}:
                    return 'nonneg'
                if any(r == 'signed' and self.coefficient(bare(f)) for (f, d), r in zip(fs, rs)):
                    return 'signed'
                return 'signed' if rs.count('signed') == 1 and rs.count('nonneg') == len(rs) - 1 else None
            if v.x == 'Add':
                return self.all((a, b))
            if v.x == 'Sub':
                if any(self.sign(x) == 'signed' and self.raw(x) for x in (a, b)):
                    return 'signed'
                if self.target(a) is not None and self.constant(b):
                    return 'signed'
                if self.target(b) is not None and self.constant(a, True):
                    return 'signed'
                if self.constant(b) and self.dots(a):
                    return 'signed'
                if all(self.spectrum(x) for x in (a, b)) and any(bare(x).op == 'item' and bare(x).args[1].op == 'const' for x in (a, b)) and self.arr(a) != self.arr(b):
                    return 'signed'
                return None
            if v.x == 'Pow':
                return 'nonneg' if self.sign(a) == 'nonneg' else None
            return None
        if o == 'elem':
            if self.coefficient(v):
                return 'signed'
            b = bare(v.args[0])
            if b.op == 'new':
                return self.entries(b)
            return self.sign(b)
        if o == 'item':
            if self.coefficient(v):
                return 'signed'
            c = self.eigenvalues(v)
            if c is not None:
                return 'nonneg' if c.x[0] in SVD or c.args and self.psd(c.args[0]) else None
            b = bare(v.args[0])
            if b.op == 'new':
                return self.entries(b)
            r = self.sign(b)
            if r is None and b.op not in ('call', 'rcall') and self.element(b, v.args[1]):
                return 'signed'
            return r
        if o == 'new':
            return self.entries(v)
        if o == 'join':
            return self.all(v.args)
        if o == 'mu':
            if self.coefficient(v):
                return 'signed'
            return self.accumulated(v)
        if o == 'param':
            return 'signed' if self.coefficient(v) else None
        return None

    def constant(self, v, both=False):
        """a constant or parameter (both: of either sign)"""
        v = bare(v)
        if both:
            return v.op == 'join' and {(bare(a).op == 'un' or bare(a).op == 'const' and isinstance(bare(a).x, (int, float)) and bare(a).x < 0) for a in v.args if self.constant(a)} == {True, False}
        if v.op == 'un' and v.x in ('USub', 'neg', '-'):
            return self.constant(v.args[0])
        return v.op in ('const', 'param') or v.op == 'join' and bool(v.args) and all(self.constant(a) for a in v.args)

    def dots(self, v):
        """an inner product of vectors"""
        v = bare(v)
        if v.op == 'call' and v.x[0] in ('numpy.real', 'numpy.abs') and v.args or v.op == 'attr' and v.x == 'real' or v.op == 'item' and v.args[1].op == 'tuple' and all(is_const(a, 0) for a in v.args[1].args):
            return self.dots(v.args[0])
        return v.op == 'mcall' and v.x[0] == 'dot' or v.op == 'call' and v.x[0] in DOTS or v.op == 'rcall' and rq(v).split('.')[-1] in ('inner_product', '_vdot', 'overlap')

    def difference(self, v):
        v = bare(v)
        return 'signed' if v.op in ('bin', 'aug') and v.x == 'Sub' and any(self.sign(a) == 'signed' for a in v.args) else None

    def raw(self, x):
        """a coefficient or matrix element itself (not something computed from them)"""
        x = bare(x)
        if self.spectrum(x):
            return False
        if self.coefficient(x):
            return True
        if x.op == 'attr' and x.x == 'real' or x.op == 'call' and x.x[0] in ('numpy.real', 'numpy.conj') and x.args:
            return self.raw(x.args[0])
        if x.op == 'item':
            return self.raw(x.args[0]) or self.element(bare(x.args[0]), x.args[1])
        return False

    def arr(self, x):
        """is x a whole array of eigenvalues?"""
        x = bare(x)
        return self.eigenvalues(x) is not None

    def element(self, b, i):
        """an element of a matrix between strings, or of vectors over strings"""
        S = self.S
        a = S.axes(b)
        parts = i.args if i.op == 'tuple' else (i,)
        return bool(a) and len(a) == len(parts) == 2 and any(self.strings(t) for t in a) and all(p.op not in ('slice',) for p in parts) and not S.islist(b)

    def accumulated(self, v):
        """a variable that a loop multiplies with coefficients or signs"""
        L = self.I.loops.get(v.x[0])
        if L is None:
            return None
        rs = [self.sign(v.args[0])] if v.args else [None]
        for s in L.ends:
            e = s.env.get(v.x[1])
            if e is None or bare(e).uid == v.uid:
                continue
            rs.append(self.sign(e))
        return 'signed' if 'signed' in rs else 'nonneg' if set(rs) == {'nonneg'} else None

    def entries(self, v):
        if v.x not in ('list', 'tuple'):
            return None
        xs = list(self.I.objinit.get(v.uid) or ())
        for e in self.I.byobj.get(v.uid, ()):
            if e.kind == 'method' and e.x == 'append' and len(e.args) > 1:
                xs.append(e.args[1])
            else:
                return None
        return self.all(xs)

    def imaginary(self, v):
        if self.spectrum(v) and all(c.x[0].split('.')[-1] in ('eigh', 'eigsh', 'svd', 'svds') for c in self.decompositions(v)):
            return 'nonneg'
        if self.sign(v) == 'nonneg':
            return 'nonneg'
        return 'signed'

    def decompositions(self, v):
        v = bare(v)
        c = self.eigenvalues(v)
        if c is not None:
            return [c]
        return [c for a in (v.args if v.op == 'join' else v.args[:1]) for c in self.decompositions(a)]

    def overlap(self, v, a, b):
        fs = self.product_of(v)
        if len(fs) == 2 and (self.adjoint(*fs) or v.op == 'call' and v.x[0] == 'numpy.vdot' and bare(a).key == bare(b).key):
            return 'nonneg'
        if v.op == 'call' and v.x[0] in ('numpy.dot', 'numpy.inner') and len(fs) == 2 and self.conj(fs[0]) == self.conj(fs[1]):
            return 'nonneg' if bare(fs[0]).key != bare(fs[1]).key else None
        if len(fs) == 2 and self.strip(fs[0])[0] != self.strip(fs[1])[0]:
            return 'signed'
        return None

    # ---- what is kept ----------------------------------------------------------------------------------------------------

    def magnitude(self, x):
        """the quantity of which x is the magnitude"""
        ms = self.magnitudes(x)
        return ms[0] if ms else None

    def magnitudes(self, x):
        x = bare(x)
        if x.op == 'call' and x.x[0] in ('numpy.abs', 'numpy.absolute', 'builtins.abs', 'numpy.linalg.norm', 'numpy.fabs') and x.args:
            return [bare(x.args[0])]
        if x.op == 'rcall' and rq(x).split('.')[-1] in ('norm', '_norm') and x.args:
            return [bare(x.args[0])]
        if x.op == 'mcall' and x.x[0] == 'norm':
            return [bare(x.args[0])]
        if x.op == 'item' and x.args[1].op != 'slice':
            return self.magnitudes(x.args[0])
        if x.op == 'join':
            return [m for a in x.args for m in self.magnitudes(a)]
        return []

    def contains(self, v, key, depth=0, seen=None):
        """is the quantity part of v (through arithmetic, conversions and tuples)?"""
        v = bare(v)
        seen = set() if seen is None else seen
        if v.key == key:
            return True
        if depth > 10 or v.uid in seen:
            return False
        seen.add(v.uid)
        if v.op in ('bin', 'aug', 'un', 'tuple') or v.op == 'join':
            return any(self.contains(a, key, depth + 1, seen) for a in v.args)
        if v.op == 'call' and v.x[0] in PASS | CONJ | {'numpy.real'}:
            return any(self.contains(a, key, depth + 1, seen) for a in v.args)
        if v.op == 'new' and v.x in ('list', 'tuple'):
            return any(self.contains(a, key, depth + 1, seen) for a in self.I.objinit.get(v.uid) or ())
        if v.op == 'mcall' and v.x[0] in ('copy', 'remove_zeros') or v.op == 'rcall' and v.args and rq(v).split('.')[-1] in ('remove_zeros', '__truediv__', '__mul__', '__rmul__', 'copy'):
            return any(self.contains(a, key, depth + 1, seen) for a in v.args)
        return False

    def small(self, guards):
        """quantities known to be below a cut-off"""
        out = []
        for g, p in guards:
            out += self.atoms(g, p)
        return [x for x, s in out if s]

    def large(self, guards):
        out = []
        for g, p in guards:
            out += self.atoms(g, p)
        return [x for x, s in out if not s]

    def atoms(self, g, p):
        g = bare(g)
        if g.op == 'un' and g.x == 'not':
            return self.atoms(g.args[0], not p)
        if g.op == 'bool' and g.x == ('And' if p else 'Or'):
            return [y for a in g.args for y in self.atoms(a, p)]
        if g.key in self.cuts:
            x, s = self.cuts[g.key]
            return [(x, s if p else not s)]
        return []

    def kept(self, r):
        I = self.I
        for e in I.trace:
            vals = None
            if e.kind == 'call' and e.x[0] == 'warnings.warn':
                for x, s in [y for g, p in e.guards for y in self.atoms(g, p)]:
                    if any(y.op == 'call' and y.x[0] == 'numpy.imag' or y.op == 'attr' and y.x == 'imag' for y in closure(x)):
                        if s:
                            self.wrong('negligible parts are warned about', e, x, 'the warning is issued because the imaginary part %s is below the cut-off' % show(x, 4))
                        else:
                            self.ck.ok('warnings about parts above the cut-off', getattr(e.fn, 'qual', ''))
            if e.kind == 'method' and e.x in ('append', 'add') and len(e.args) > 1:
                vals = e.args[1:2]
            elif e.kind in ('store_item', 'aug_item') and len(e.args) > 2:
                vals = e.args[2:3]
            elif e.kind == 'aug_name' and e.args:
                vals = e.args
            if not vals:
                continue
            for x in self.small(e.guards):
                for m, w in [(m, w) for m in self.magnitudes(x) for w in vals]:
                    if self.discarded(w, m, x):
                        self.wrong('small terms are kept', e, w, '%s is used although (and because) its magnitude is below the cut-off' % show(m, 4))
            for x in self.large(e.guards):
                m = self.magnitude(x)
                if m is not None and any(self.discarded(w, m, x) for w in vals):
                    self.ck.ok('large terms are kept', getattr(e.fn, 'qual', ''))
        for val, guards, node, state in I.returns:
            b = bare(val)
            xs = b.args if b.op == 'tuple' else I.objinit.get(b.uid, ()) if b.op == 'new' else (b,)
            for x in self.small(guards):
                m = self.magnitude(x)
                if m is not None and any(self.contains(w, m.key) for w in xs or ()) and self.coefficient(m):
                    self.ck.bad('small terms are kept', self.fn.qual, where(self.fn, node or self.fn.node), '%s is returned because its magnitude is below the cut-off' % show(m, 4))

    def discarded(self, w, m, x):
        w = bare(w)
        if w.op in ('bin', 'aug') and w.x == 'Div' and bare(w.args[1]).key == bare(x).key:
            return True
        if self.contains(w, m.key):
            return True
        # positions, when the magnitude of the entry at this position decides
        if m.op == 'item' or bare(x).op == 'item':
            i = (bare(x) if bare(x).op == 'item' else m)
            return bare(i.args[1]).key == w.key and w.op in ('elem', 'idx') and self.coefs(i.args[0])
        return False

    def coefs(self, v):
        """an array of coefficients or of their magnitudes (not of eigenvalues)"""
        v = bare(v)
        if self.spectrum(v):
            return False
        if self.coefficient(v):
            return True
        if v.op == 'call' and v.x[0] in NONNEG | PASS | {'numpy.real', 'numpy.imag'} and v.args or v.op == 'mcall' and v.x[0] in MPASS or v.op == 'attr' and v.x in ('real', 'imag'):
            return self.coefs(v.args[0])
        if v.op == 'join':
            return any(self.coefs(a) for a in v.args)
        if self.dots(v):
            return True
        a = self.S.axes(v)
        if v.op == 'item' and a and len(a) == 1 and a[0] is not None and self.strings(a[0]):
            return True
        if v.op == 'param':
            return True
        return False

    def selected(self, v, e):
        """x[where(|y| < tol)]"""
        S = self.S
        b = bare(v.args[0])
        parts = v.args[1].args if v.args[1].op == 'tuple' else (v.args[1],)
        for k, p in enumerate(parts):
            c = self.condition(p)
            if c is None:
                continue
            x, small = c
            a = S.axes(b)
            y = bare(x)
            m = self.magnitude(y)
            name = getattr(e.fn, 'qual', self.fn.qual)
            if a and len(a) == 2 and k == 1 and self.target(y) is not None:
                if not small and self.sign(y) == 'nonneg':
                    self.wrong('vectors with large eigenvalues selected', e, v, 'eigenvectors are selected because the magnitude %s is above the cut-off' % show(y, 4))
                elif small:
                    self.ck.ok('vectors with small eigenvalues selected', name)
            elif m is not None and not self.spectrum(m) and self.coefs(m):
                if small:
                    self.wrong('small terms are kept', e, v, 'entries are selected because the magnitude %s is below the cut-off' % show(y, 4))
                else:
                    self.ck.ok('large terms are kept', name)

    def target(self, y):
        """the eigenvalues in a distance from a target"""
        y = bare(y)
        if self.spectrum(y):
            return y
        if y.op == 'call' and y.x[0] in NONNEG | {'numpy.real'} and y.args:
            return self.target(y.args[0])
        if y.op in ('bin', 'aug') and y.x in ('Add', 'Sub', 'Mult'):
            for a in y.args:
                if self.spectrum(a):
                    return bare(a)
        return None

    def condition(self, p):
        p = bare(p)
        neg = False
        while True:
            if p.op == 'item' and is_const(p.args[1], 0) and bare(p.args[0]).op == 'call' and bare(p.args[0]).x[0] in ('numpy.where', 'numpy.nonzero') and len(bare(p.args[0]).args) == 1:
                p = bare(bare(p.args[0]).args[0])
            elif p.op == 'call' and p.x[0] in ('numpy.flatnonzero',) and p.args:
                p = bare(p.args[0])
            elif p.op == 'call' and p.x[0] == 'numpy.logical_not' or p.op == 'un' and p.x in ('not', 'Invert', '~'):
                p = bare(p.args[0])
                neg = not neg
            else:
                break
        if p.key in self.cuts:
            x, s = self.cuts[p.key]
            return x, s != neg
        if p.op == 'new' and p.x == 'list' and not self.I.objinit.get(p.uid):
            es = self.I.byobj.get(p.uid, ())
            if len(es) == 1 and es[0].kind == 'method' and es[0].x == 'append' and len(es[0].args) > 1:
                w = bare(es[0].args[1])
                if w.op in ('idx', 'elem'):
                    for g, t in es[0].guards:
                        for x, small in self.atoms(g, t):
                            if self.at(x, w.key):
                                return x, small
        return None

    def at(self, x, key):
        x = bare(x)
        if x.op == 'item':
            return bare(x.args[1]).key == key
        return x.op in ('call', 'bin', 'aug') and any(self.at(a, key) for a in x.args)

    def chosen(self, v, e):
        """x if |x| > tol else 0"""
        for a, gs in zip(v.args, v.x):
            for x in self.small(gs):
                m = self.magnitude(x)
                if m is not None and bare(a).key == m.key and len(v.args) == 2:
                    o = [b for b in v.args if b is not a]
                    if o and o[0].op == 'const':
                        self.wrong('small terms are kept', e, v, '%s is kept when its magnitude is below the cut-off and replaced otherwise' % show(m, 4))

    # ---- truncation ------------------------------------------------------------------------------------------------------

    def sorted(self, r):
        """the largest terms: argsort(|coefficients|)[::-1], first n"""
        I = self.I
        for v, e in self.vs:
            if v.op != 'item':
                continue
            p = v.args[1]
            if p.op == 'tuple' and len(p.args) == 2 and is_const(p.args[1], 0) and p.args[0].op == 'slice':
                self.lowest(v, e)
            if p.op != 'slice' or not is_const(p.args[2], None) and not is_const(p.args[2], 1):
                continue
            lo, hi = p.args[0], p.args[1]
            first = (is_const(lo, None) or is_const(lo, 0)) and not is_const(hi, None)
            last = is_const(hi, None) and bare(lo).op == 'un'
            if first or last:
                self.cutoffs(e, v, v.args[0], last)
        for L in I.loops.values():
            if L.brk and L.iter is not None:
                es = [e for e in I.trace if L.id in [x if isinstance(x, int) else getattr(x, 'id', None) for x in e.loops]]
                if es:
                    self.cutoffs(es[0], L.iter, L.iter, False)

    def cutoffs(self, e, v, xs, last):
        o = self.ordering(xs)
        if o is None:
            return
        y, desc = o
        if self.target(y) is not None or not self.coefs(self.magnitude(y) or y):
            return
        desc ^= last
        if self.magnitude(y) is None and self.sign(y) == 'signed':
            self.wrong('truncated by signed value', e, v, 'a list that is sorted by the signed values %s is cut off' % show(bare(y), 4))
        elif (self.magnitude(y) is not None or self.sign(y) == 'nonneg') and not desc:
            self.wrong('small terms are kept', e, v, 'a list that is sorted by magnitude keeps its smallest entries')
        elif self.magnitude(y) is not None:
            self.ck.ok('largest terms kept by truncation', getattr(e.fn, 'qual', ''))

    def lowest(self, v, e):
        """the first of eigenvectors that were ordered by decreasing eigenvalue"""
        b = bare(v.args[0])
        xs = b.args if b.op == 'join' else (b,)
        for x in xs:
            x = bare(x)
            if x.op == 'item' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and x.args[1].args[0].op == 'slice':
                o = self.ordering(x.args[1].args[1])
                if o is not None and self.target(o[0]) is not None:
                    if o[1] and self.magnitude(o[0]) is not None:
                        self.wrong('vectors with large eigenvalues selected', e, v, 'the first eigenvector is used, and they are ordered by decreasing eigenvalue')
                    else:
                        self.ck.ok('vectors with small eigenvalues selected', getattr(e.fn, 'qual', ''))

    def ordering(self, v, depth=0):
        """(values that v is sorted by, descending?)"""
        v = bare(v)
        if depth > 8:
            return None
        if v.op == 'call' and v.x[0] == 'numpy.argsort' and v.args:
            y = bare(v.args[0])
            if y.op == 'un' and y.x in ('USub', 'neg', '-'):
                return bare(y.args[0]), True
            return y, False
        if v.op == 'item':
            p = v.args[1]
            if p.op == 'slice':
                o = self.ordering(v.args[0], depth + 1)
                return (o[0], not o[1]) if o and is_const(p.args[2], -1) else o
            a = self.ordering(p, depth + 1) if p.op not in ('const', 'tuple') else None
            return a
        if v.op == 'call' and v.x[0] in ('numpy.flip', 'builtins.reversed') and v.args:
            o = self.ordering(v.args[0], depth + 1)
            return (o[0], not o[1]) if o else None
        if v.op == 'call' and v.x[0] in ('builtins.list', 'numpy.array', 'builtins.tuple') and v.args:
            return self.ordering(v.args[0], depth + 1)
        if v.op == 'new' and v.x == 'list':
            es = self.I.byobj.get(v.uid, ())
            if len(es) == 1 and es[0].kind == 'method' and es[0].x == 'append' and len(es[0].args) > 1:
                w = bare(es[0].args[1])
                if w.op == 'item':
                    w = bare(w.args[1])
                if w.op == 'elem':
                    return self.ordering(w.args[0], depth + 1)
        if v.op == 'join':
            os = [self.ordering(a, depth + 1) for a in v.args]
            return os[0] if os and all(o is not None and o[0].key == os[0][0].key and o[1] == os[0][1] for o in os) else None
        return None
