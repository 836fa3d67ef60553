"""C30: the symmetry searches solve the eigenproblem that belongs to the relation asked for."""
import builtins

from ..common import *
from ..entries import variants
from ..interp import AnalysisError
from ..paths import flat
from ..spaces import rq
from ..values import V, is_const, show
from .c28 import bare, linear, num, where

RULE = ('The matrices of the searches are rewritten to sums of products of known factors (Liouvillian matrix of basis, operator and mode; symmetry matrix; identity; eigenvectors; selections of columns), separately for each mode, each solver and each form of the result, and '
        'compared with the documented form: C^H C with its null vectors for the commuting search; a + b(S + S^H)/2 with the vectors whose eigenvalue stands for +1 (commuting) or -1 (anticommuting) of the symmetry matrix for the invariant search; values reported together '
        'with the superoperator are rewritten to a linear function of the eigenvalues of S and must be the eigenvalues of the superoperator. In the generator the arguments of each search must come from the same place of the lists of symmetries, modes and solver settings, the kind of search from the kind of symmetry, '
        'the lists must receive the matching parts of the result, and the projection must be P^H M P with P the intersection with the operators of the previous step and vectors P v.')
ASSUME = ['eigenvalues of a matrix a + b H are a + b times those of H, with the same vectors', 'the shift of a shift-invert solver selects the eigenvalues nearest to it']

SAME = {'toarray', 'todense', 'tocsc', 'tocsr', 'tocoo', 'tolil', 'copy', 'asformat', 'astype'}
SAMEF = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.coo_matrix', 'numpy.matrix', 'numpy.asmatrix', 'numpy.ascontiguousarray', 'scipy.sparse.lil_matrix'}
SPARSE = {'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.coo_matrix', 'scipy.sparse.lil_matrix', 'numpy.zeros'}
CONJ = {'numpy.conj', 'numpy.conjugate'}
DENSE = {'numpy.linalg.eigh', 'scipy.linalg.eigh'}
ABS = {'numpy.abs', 'numpy.absolute', 'builtins.abs'}
EIGS = DENSE | {'scipy.sparse.linalg.eigsh'}
EYE = {'numpy.eye', 'numpy.identity', 'scipy.sparse.eye', 'scipy.sparse.identity'}
COM, INV = 'core.commuting_operators', 'core.invariant_operators'
LISTS = {'output_operators': 0, 'superoperators': 1, 'eigenvalues': 2, 'eigenvectors': 3}
PARTS = {0: 'operators', 1: 'superoperator', 2: 'eigenvalues', 3: 'eigenvectors'}


class Unknown(Exception):
    pass


class Nonlinear(Unknown):
    pass


class Given:
    def __repr__(self):
        return 'a number'


GIVEN = Given()
FIRST = (0,)
STEPS = {FIRST: 'first', (1,): 'second', tuple(range(2, 9)): 'later'}


def add(a, b, f=1):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + f * c
        if abs(out[k]) < 1e-12:
            del out[k]
    return out


def same(a, b):
    return not add(a, b, -1)


def mul(a, b):
    out = {}
    for (s, f), c in a.items():
        for (t, g), d in b.items():
            out = add(out, {(tuple(sorted(s + t, key=repr)), f + g): c * d})
    if len(out) > 60:
        raise Unknown
    return out


def kws(v):
    """positional and named arguments of an external call"""
    n = len(v.x[1] or ())
    pos = v.args[:len(v.args) - n]
    return list(pos), dict(zip(v.x[1] or (), v.args[len(v.args) - n:]))


def nodes(v, seen=None):
    seen = set() if seen is None else seen
    if v.uid in seen or len(seen) > 400:
        return
    seen.add(v.uid)
    yield v
    if v.op not in ('idx', 'elem', 'mu'):
        for a in v.args:
            yield from nodes(a, seen)


def sized(v):
    """does the value contain the size of a matrix or of a collection?"""
    return any(x.op == 'attr' and x.x == 'shape' or x.op == 'call' and x.x[0] == 'builtins.len' for x in nodes(v))


class Form:
    """values of one run under assumptions"""
    REAL = False

    def __init__(self, r, facts=None, kind=None, first=None, last=None):
        self.I, self.fn = r.I, r.fn
        self.facts = facts or {}
        self.kind = kind        # class of the current symmetry
        self.first = first      # possible values of the current index
        self.memo = {}
        self.busy = set()

    # ---- conditions
    def fact(self, v):
        if v.op == 'param' and v.x[1] in self.facts:
            return self.facts[v.x[1]]
        m = self.member(v)
        if m and m[0] in self.facts and m[1] == 0:
            return self.facts[m[0]]
        raise Unknown

    def member(self, v):
        """(attribute of self, offset to the current index or 'last', loop)"""
        v = bare(v)
        if v.op == 'elem' and v.args:
            a = bare(v.args[0])
            if a.op == 'attr' and bare(a.args[0]).op == 'param':
                return a.x, 0, v.x
        if v.op == 'item':
            a = bare(v.args[0])
            if a.op == 'attr' and bare(a.args[0]).op == 'param':
                b, k = linear(v.args[1])
                if b is None:
                    return a.x, 'last' if k == -1 else ('at', k), None
                b = bare(b)
                if b.op == 'idx':
                    return a.x, k, b.x[0]
        return None

    def ev(self, v, d=0):
        v = bare(v)
        if d > 40:
            raise Unknown
        if v.op == 'const':
            return v.x
        if v.op == 'join':
            return self.ev(self.pick(v), d + 1)
        if v.op in ('param', 'item', 'elem'):
            return self.fact(v)
        if v.op == 'un' and v.x == 'not':
            return not self.truth(v.args[0], d + 1)
        if v.op == 'un' and v.x in ('neg', 'USub'):
            return -self.ev(v.args[0], d + 1)
        if v.op == 'bool':
            rest = False
            for a in v.args:
                try:
                    x = self.truth(a, d + 1)
                except Unknown:
                    rest = True
                    continue
                if x != (v.x == 'and'):
                    return x
            if rest:
                raise Unknown
            return v.x == 'and'
        if v.op == 'call' and v.x[0] == 'builtins.isinstance' and len(v.args) == 2:
            return self.isinst(*v.args)
        if v.op == 'cmp' and len(v.args) == 2:
            i = self.index(v)
            if i is not None:
                return i
            r = self.room(v, d)
            if r is not None:
                return r
            a = self.ev(v.args[0], d + 1)
            if v.x in ('In', 'NotIn'):
                c = bare(v.args[1])
                if c.op not in ('new', 'tuple') or c.op == 'new' and self.I.byobj.get(c.uid):
                    raise Unknown
                xs = c.args if c.op == 'tuple' or c.args else self.I.objinit.get(c.uid)
                if xs is None or isinstance(xs, dict):
                    raise Unknown
                xs = [x[0] if isinstance(x, tuple) else x for x in xs]
                return (a in [self.ev(x, d + 1) for x in xs]) == (v.x == 'In')
            b = self.ev(v.args[1], d + 1)
            if GIVEN in (a, b) and v.x not in ('Is', 'IsNot', 'Eq', 'NotEq') or a is b is GIVEN or GIVEN in (a, b) and None not in (a, b):
                raise Unknown
            if v.x in ('Eq', 'Is'):
                return a == b
            if v.x in ('NotEq', 'IsNot'):
                return a != b
            try:
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[v.x]
            except (TypeError, KeyError):
                raise Unknown
        if v.op == 'mcall' and v.x[0] in ('lower', 'strip', 'startswith', 'upper', 'endswith') and v.args:
            x = self.ev(v.args[0], d + 1)
            if isinstance(x, str):
                return getattr(x, v.x[0])(*[self.ev(a, d + 1) for a in v.args[1:]])
        raise Unknown

    def room(self, v, d):
        """fewer vectors than a matrix has rows: the iterative solver is only considered where it can be used"""
        if v.x not in ('Lt', 'LtE', 'Gt', 'GtE'):
            return None
        for a, b, less in (v.args[0], v.args[1], True), (v.args[1], v.args[0], False):
            try:
                if self.ev(a, d + 1) is GIVEN and sized(b) and not any(x.key == bare(a).key for x in nodes(b)):
                    return (v.x in ('Lt', 'LtE')) == less
            except Unknown:
                pass
        return None

    def truth(self, v, d=0):
        x = self.ev(v, d)
        return True if x is GIVEN else bool(x)

    def index(self, v):
        """comparisons of the current index with 0"""
        if self.first is None:
            return None
        (a, x), (b, y) = linear(v.args[0]), linear(v.args[1])
        if a is not None and b is not None or a is None and b is None:
            return None
        flip = a is None
        i = bare(b if flip else a)
        if i.op != 'idx':
            return None
        k = (x - y) if flip else (y - x)     # compared with the bare index
        op = v.x
        if flip:
            op = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}.get(op, op)
        try:
            f = {'Eq': lambda n: n == k, 'NotEq': lambda n: n != k, 'Lt': lambda n: n < k, 'LtE': lambda n: n <= k, 'Gt': lambda n: n > k, 'GtE': lambda n: n >= k}[op]
        except KeyError:
            return None
        vals = {f(n) for n in self.first}
        if len(vals) != 1:
            raise Unknown
        return vals.pop()

    def isinst(self, x, c):
        c = bare(c)
        if c.op == 'tuple':
            return any(self.isinst(x, y) for y in c.args)
        if c.op != 'cls':
            raise Unknown
        m = self.member(x)
        if m and m[0] == 'input_symmetries' and self.kind:
            return getattr(c.x, 'name', '') == self.kind
        raise Unknown

    def holds(self, gs):
        r = True
        for c, p in gs or ():
            try:
                x = self.truth(c)
            except (Unknown, TypeError, AttributeError):
                r = None if r else r
                continue
            if x != p:
                return False
        return r

    def pick(self, v):
        yes, maybe = [], []
        for a, g in zip(v.args, v.x or ()):
            t = self.holds(g)
            if t is not False:
                (yes if t else maybe).append(a)
        if len(yes) == 1 and not maybe:
            return yes[0]
        if not yes and len(maybe) == 1:
            return maybe[0]
        if not maybe and yes:
            return yes[0]       # guards of the first alternatives are the more special ones
        xs = [bare(a) for a in yes + maybe]
        xs = [bare(self.pick(a)) if a.op == 'join' else a for a in xs]
        if xs and len({a.key for a in xs}) == 1:
            return xs[0]
        raise Unknown

    # ---- matrices
    def strip(self, v):
        v = bare(v)
        for _ in range(60):
            if v.op == 'join':
                v = bare(self.pick(v))
            elif v.op == 'mcall' and v.x[0] in SAME or v.op == 'call' and v.x[0] in SAMEF and v.args and bare(v.args[0]).op != 'tuple' and not self.changed(v):
                v = bare(v.args[0])
            else:
                return v
        raise Unknown

    def changed(self, v):
        return any(e.kind in ('store_item', 'aug_item') for e in self.I.byobj.get(v.uid, ()))

    def atom(self, key):
        return {((), ((key, False, False),)): 1}

    def adj(self, n, tr=True, cj=True):
        out = {}
        for (sc, fs), c in n.items():
            gs = []
            for k, t, x in fs:
                if k[0] == 'I':
                    gs.append((k, False, False))
                else:
                    gs.append((k, t ^ tr, x ^ cj))
            out = add(out, {(tuple(sorted(((k, x ^ cj, i) for k, x, i in sc), key=repr)), tuple(reversed(gs)) if tr else tuple(gs)): complex(c).conjugate() if cj else c})
        return out

    def nf(self, v, d=0):
        v = self.strip(v)
        if d > 40 or v.uid in self.busy:
            raise Unknown
        if v.uid in self.memo:
            return self.memo[v.uid]
        n = self._nf(v, d + 1)
        n = {k: c for k, c in self.drop_eye(n).items()}
        self.memo[v.uid] = n
        return n

    def drop_eye(self, n):
        out = {}
        for (sc, fs), c in n.items():
            gs = tuple(f for f in fs if f[0][0] != 'I')
            if not any(f[0][0] != 'sum' for f in gs) and len(gs) < len(fs):
                gs += ((('I',), False, False),)
            out = add(out, {(sc, gs): c})
        return out

    def _nf(self, v, d):
        o = v.op
        if o == 'attr' and v.x == 'real' and self.REAL:
            return self.nf(v.args[0], d)
        if o == 'attr' and v.x in ('T', 'H'):
            return self.adj(self.nf(v.args[0], d), True, v.x == 'H')
        if o == 'mcall' and v.x[0] in ('getH', 'transpose', 'conj', 'conjugate') and len(v.args) == 1:
            return self.adj(self.nf(v.args[0], d), v.x[0] in ('getH', 'transpose'), v.x[0] != 'transpose')
        if o == 'call' and v.x[0] in CONJ | {'numpy.transpose'} and len(v.args) == 1:
            return self.adj(self.nf(v.args[0], d), v.x[0] == 'numpy.transpose', v.x[0] != 'numpy.transpose')
        if o == 'mcall' and v.x[0] in ('dot', 'matmul') and len(v.args) == 2 or o == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul') and len(v.args) == 2 or o in ('bin', 'aug') and v.x == 'MatMult':
            return mul(self.nf(v.args[0], d), self.nf(v.args[1], d))
        if o == 'un' and v.x in ('USub', 'neg'):
            return add({}, self.nf(v.args[0], d), -1)
        if o in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            return add(self.nf(v.args[0], d), self.nf(v.args[1], d), 1 if v.x == 'Add' else -1)
        if o in ('bin', 'aug') and v.x in ('Mult', 'Div'):
            a, b = v.args
            for x, y in ((a, b), (b, a)):
                if v.x == 'Div' and y is a:
                    break
                try:
                    c, sc = self.scalar(y)
                except Unknown:
                    continue
                if v.x == 'Div':
                    c, sc = 1 / c, tuple((k, cj, not i) for k, cj, i in sc)
                return {(tuple(sorted(s + sc, key=repr)), f): q * c for (s, f), q in self.nf(x, d).items()}
            if v.x == 'Mult':
                # the product of matrix objects
                return mul(self.nf(a, d), self.nf(b, d))
            raise Unknown
        if o == 'call' and v.x[0] in EYE:
            return self.atom(('I',))
        if o == 'call' and v.x[0] in SPARSE and v.args:
            return self.assembled(v)
        if o == 'call' and v.x[0] == 'numpy.linalg.pinv' and v.args:
            return self.atom(('pinv', self.key(self.nf(v.args[0], d))))
        if o == 'call' and v.x[0] in ('numpy.linalg.inv', 'scipy.linalg.inv', 'scipy.sparse.linalg.inv') and v.args:
            return self.atom(('inv', self.key(self.nf(v.args[0], d))))
        if o == 'item':
            return self.item(v, d)
        if o == 'rcall':
            return self.rcall(v, d)
        if o == 'mu':
            return self.carried(v, d)
        m = self.member(v)
        if m:
            return self.listed(v, m)
        if o in ('param', 'elem', 'attr'):
            return self.atom(('v', v.key))
        raise Unknown

    def key(self, n):
        return tuple(sorted(n.items(), key=repr))

    def listed(self, v, m):
        a, off, L = m
        if a in LISTS and off == 0:
            return self.atom(('res', LISTS[a]))
        return self.atom(('list', a, off))

    def assembled(self, v):
        if bare(v.args[0]).op == 'tuple' and not any(bare(x).op in ('tuple', 'new') for x in bare(v.args[0]).args):
            if self.changed(v):
                raise Unknown
            return {}       # only a shape: an empty matrix
        return self.atom(('data', v.key))

    def item(self, v, d):
        b, i = self.strip(v.args[0]), bare(v.args[1])
        if i.op == 'const' and isinstance(i.x, int):
            k = i.x
            if b.op == 'call' and b.x[0] in EIGS and k in (1, -1):
                return self.atom(('evecs', self.key(self.nf(b.args[0], d)), self.solver(b)))
            if b.op == 'rcall':
                return self.part(b, k, d)
        if i.op == 'tuple' and len(i.args) == 2:
            r, c = (bare(x) for x in i.args)
            if r.op == 'slice' and all(not isinstance(x, V) or is_const(x, None) for x in r.args):
                return mul(self.nf(b, d), self.atom(self.selection(c, d)))
            if c.op != 'slice':
                n = {k: q for k, q in self.nf(b, d).items()}
                out = {}
                for (sc, fs), q in n.items():
                    if len(fs) == 1 and fs[0][0][0] == 'evecs':
                        rows = ('rows', r.key)
                        out = add(out, mul({(sc, ((rows, False, False),) + fs): q}, self.atom(self.selection(c, d))))
                    else:
                        raise Unknown
                return out
            if r.op == 'slice':
                raise Unknown
        m = self.member(v)
        if m:
            return self.listed(v, m)
        if b.op == 'rcall' and rq(b) == 'algebra.structure_constants' or b.op == 'item' and bare(b.args[0]).op == 'rcall' and rq(bare(b.args[0])) == 'algebra.structure_constants':
            return self.atom(('sc', b.key, self.owner(i)))
        raise Unknown

    def owner(self, i):
        return bare(i).key

    def part(self, b, k, d):
        q = rq(b)
        if q in (COM, INV):
            return self.atom(('res', k))
        if q in ('algebra.liouvillian_matrix', 'algebra.commutant_matrix', 'algebra._liouvillian_matrix_opstrings', 'algebra._liouvillian_matrix_operators') and k == 0:
            return self.rcall(b, d)
        raise Unknown

    def rcall(self, v, d):
        q = rq(v)
        a = list(v.args)
        if q in ('algebra.liouvillian_matrix', 'algebra.commutant_matrix'):
            L = self.atom(('L', self.vkey(a[0]), self.vkey(a[1]), self.mode(a[2])))
            return L if q.endswith('liouvillian_matrix') else mul(self.adj(L), L)
        if q == 'transformation.symmetry_matrix':
            return self.atom(('S', self.vkey(a[0]), self.vkey(a[1])))
        if q == 'transformation._symmetry_matrix_opstrings':
            return self.atom(('S0', self.vkey(a[0]), self.vkey(a[1])))
        if q == 'algorithms._l_matrix':
            return self.atom(('l', self.vkey(a[0]), self.vkey(a[1])))
        if q == 'algorithms._com_matrix':
            L = self.atom(('l', self.vkey(a[0]), self.vkey(a[1])))
            return mul(self.adj(L), L)
        if q == 'tools.intersection':
            ks = sorted((self.key(self.nf(x, d)) for x in a[:2]), key=repr)
            return self.atom(('meet', ks[0], ks[1]))
        if q in ('tools.sparsify', 'tools.gram_schmidt'):
            return mul(self.nf(a[0], d), self.atom((q,)))
        raise Unknown

    def vkey(self, v):
        v = bare(v)
        if v.op == 'join':
            v = bare(self.pick(v))
        m = self.member(v)
        if m:
            return ('list',) + m[:2]
        if v.op == 'param':
            return ('param', v.x[1])
        if v.op == 'attr' and bare(v.args[0]).op == 'param':
            return ('attr', v.x)
        if v.op == 'mu' and self.fn.qual.endswith('_generate_cumulative') and not self.busy:
            # carried along the loop: the value it has on the first and on later passes
            L = self.I.loops.get(v.x[0])
            if L is not None:
                if self.first == FIRST:
                    return self.vkey(v.args[0])
                ends = {bare(s.env[v.x[1]]).uid for s in L.ends if v.x[1] in s.env}
                return ('ends', tuple(sorted(ends)))
        return ('other', v.key)

    def mode(self, v):
        try:
            return self.ev(v)
        except Unknown:
            return self.vkey(v)

    def carried(self, v, d):
        L = self.I.loops.get(v.x[0])
        if L is None:
            raise Unknown
        self.busy.add(v.uid)
        try:
            start = {}
            for a in v.args:
                if bare(a).uid != v.uid:
                    start = self.nf(a, d)
            self.busy.discard(v.uid)
            self.memo[v.uid] = self.atom(('mu', v.uid))
            deltas = []
            for s in L.ends:
                if v.x[1] in s.env:
                    deltas.append(add(self.nf(s.env[v.x[1]], d), self.atom(('mu', v.uid)), -1))
            self.memo.pop(v.uid, None)
        finally:
            self.busy.discard(v.uid)
        keep = []
        for x in deltas:
            if any(f[0] == ('mu', v.uid) for s, fs in x for f in fs):
                raise Unknown
            if not any(same(x, y) for y in keep):
                keep.append(x)
        if len(keep) != 1:
            raise Unknown
        out = dict(start)
        for (sc, fs), c in keep[0].items():
            out = add(out, {(sc, (('sum', v.x[0]),) and (((('sum', v.x[0]), False, False),) + fs)): c})
        return out

    # ---- numbers and eigenvalues
    def scalar(self, v, d=0):
        """(number, ((key, conjugated, inverted), ...))"""
        v = bare(v)
        if d > 30:
            raise Unknown
        if v.op == 'join':
            return self.scalar(self.pick(v), d + 1)
        if v.op == 'const' and isinstance(v.x, (int, float, complex)) and not isinstance(v.x, bool):
            return v.x, ()
        if v.op == 'un' and v.x in ('USub', 'neg'):
            c, s = self.scalar(v.args[0], d + 1)
            return -c, s
        if v.op in ('bin', 'aug') and v.x in ('Mult', 'Div'):
            a, b = self.scalar(v.args[0], d + 1), self.scalar(v.args[1], d + 1)
            if v.x == 'Mult':
                return a[0] * b[0], a[1] + b[1]
            return a[0] / b[0], a[1] + tuple((k, cj, not i) for k, cj, i in b[1])
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub', 'Pow'):
            a, b = self.scalar(v.args[0], d + 1), self.scalar(v.args[1], d + 1)
            if a[1] or b[1]:
                raise Unknown
            return {'Add': lambda: a[0] + b[0], 'Sub': lambda: a[0] - b[0], 'Pow': lambda: a[0] ** b[0]}[v.x](), ()
        if v.op == 'call' and v.x[0] in CONJ | {'numpy.real', 'builtins.complex', 'builtins.float'} and len(v.args) == 1:
            c, s = self.scalar(v.args[0], d + 1)
            return c, tuple((k, cj ^ (v.x[0] in CONJ), i) for k, cj, i in s)
        if v.op == 'param':
            x = self.fact(v)
            if isinstance(x, (int, float, complex)) and not isinstance(x, bool):
                return x, ()
        if v.op == 'item' and is_const(bare(v.args[1]), 0) and bare(v.args[0]).op == 'elem':
            return 1, ((('coeff', bare(v.args[0]).args[0].key, bare(v.args[0]).x), False, False),)
        raise Unknown

    def affine(self, v, d=0):
        """(a, b, key of the solver's matrix): a + b * eigenvalue"""
        v = bare(v)
        if d > 30:
            raise Unknown
        if v.op == 'join':
            return self.affine(self.pick(v), d + 1)
        if v.op == 'item':
            b = self.strip(v.args[0])
            if is_const(bare(v.args[1]), 0) and b.op == 'call' and b.x[0] in EIGS:
                return 0, 1, (self.key(self.nf(b.args[0])), self.solver(b))
            if b.op == 'rcall' and rq(b) in (COM, INV):
                return 0, 1, ('res', bare(v.args[1]).x)
        m = self.member(v)
        if m and m[0] in LISTS and m[1] == 0:
            return 0, 1, ('res', LISTS[m[0]])
        if v.op == 'call' and v.x[0] in ABS and v.args:
            return self.affine(v.args[0], d + 1)
        if v.op == 'call' and v.x[0] in ('numpy.sqrt', 'numpy.square', 'numpy.exp', 'numpy.log', 'numpy.sign') and v.args:
            self.affine(v.args[0], d + 1)
            raise Nonlinear
        if v.op == 'mcall' and v.x[0] == 'copy' or v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.copy', 'numpy.real', 'numpy.asarray') and v.args or v.op == 'attr' and v.x == 'real':
            return self.affine(v.args[0], d + 1)
        if v.op == 'un' and v.x in ('USub', 'neg'):
            a, b, k = self.affine(v.args[0], d + 1)
            return -a, -b, k
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub', 'Mult', 'Div'):
            x, y = v.args
            try:
                c, s = self.scalar(y)
                (a, b, k), flip = self.affine(x, d + 1), False
            except Unknown:
                c, s = self.scalar(x)
                (a, b, k), flip = self.affine(y, d + 1), True
            if s:
                raise Unknown
            if v.x == 'Add':
                return a + c, b, k
            if v.x == 'Sub':
                return (c - a, -b, k) if flip else (a - c, b, k)
            if v.x == 'Mult':
                return a * c, b * c, k
            if v.x == 'Div' and not flip:
                return a / c, b / c, k
        raise Unknown

    def abs_of(self, v):
        """|eigenvalue| with or without a number"""
        v = bare(v)
        if v.op == 'join':
            v = bare(self.pick(v))
        if v.op == 'call' and v.x[0] in ABS:
            return True
        if v.op in ('bin', 'aug'):
            return any(self.abs_of(a) for a in v.args)
        return False

    def solver(self, c):
        return c.x[0].split('.')[-1]

    def selection(self, c, d):
        """columns taken: ('sel', centre, key of the solver's matrix)"""
        c = bare(c)
        if c.op == 'join':
            c = bare(self.pick(c))
        if c.op == 'item' and is_const(bare(c.args[1]), 0):
            w = bare(c.args[0])
            if w.op == 'call' and w.x[0] in ('numpy.where', 'numpy.nonzero') and len(w.args) == 1 or w.op == 'mcall' and w.x[0] == 'nonzero':
                return self.selection(w.args[0], d)
        if c.op == 'call' and c.x[0] == 'numpy.flatnonzero':
            return self.selection(c.args[0], d)
        if c.op == 'cmp' and c.x in ('Lt', 'LtE'):
            x, y = bare(c.args[0]), bare(c.args[1])
            if x.op == 'call' and x.x[0] in ('numpy.abs', 'numpy.absolute', 'builtins.abs') and x.args:
                a, b, k = self.affine(x.args[0])
                if not b:
                    raise Unknown
                if self.abs_of(x.args[0]):
                    return ('both', 0, k)
                return ('sel', round((-a / b).real if isinstance(a, complex) else -a / b, 9), k)
        raise Unknown


def text(n):
    def f(k, t, c):
        s = {'L': 'C', 'l': 'C', 'S': 'S', 'S0': 'S', 'I': '1', 'evecs': 'vectors', 'sel': 'selection', 'pinv': 'pinv', 'inv': 'inv', 'meet': 'P', 'data': 'V', 'sum': 'Sum', 'sc': 'S_a', 'rows': 'rows'}.get(k[0], None)
        if s is None:
            s = PARTS.get(k[1], 'part %s' % k[1]) if k[0] == 'res' else '%s[%s]' % (k[1], k[2]) if k[0] == 'list' else 'v'
        if k[0] == 'sel':
            s = 'those at %g' % k[1]
        return s + {(False, False): '', (True, True): '^H', (True, False): '^T', (False, True): '^*'}[(t, c)]
    return ' + '.join('%s%s%s' % ('' if c == 1 else ('%g ' % c.real if not complex(c).imag else '%s ' % c), ''.join({'coeff': 'c'}.get(k[0], 'c') + ('*' if cj else '') + ' ' for k, cj, i in sc), ' '.join(f(*x) for x in fs)) for (sc, fs), c in list(n.items())[:4]) or '0'


ERR = (Unknown, TypeError, AttributeError, IndexError, KeyError, ZeroDivisionError, ValueError)


class Search:
    def __init__(self, ck, r):
        self.ck, self.r, self.I, self.fn = ck, r, r.I, r.fn

    def bad(self, rule, node, msg):
        self.ck.bad(rule, self.fn.qual, where(self.fn, node if node is not None and hasattr(node, 'lineno') else self.fn.node), '%s: %s' % (self.fn.qual, msg))

    def returned(self, F):
        """the value returned under the assumptions"""
        yes, maybe = [], []
        for v, g, n, s in self.I.returns:
            t = F.holds(g)
            if t is not False:
                (yes if t else maybe).append((v, n))
        if len(yes) == 1 and not maybe:
            return yes[0]
        if not yes and len(maybe) == 1:
            return maybe[0]
        raise Unknown

    def rejected(self, F):
        return any(e.kind == 'raise' and F.holds(e.guards) for e in self.I.trace)

    def solve(self, F, want_kind, mode, title):
        """one of the two searches for one mode, solver and form of the result"""
        ck = self.ck
        try:
            v, node = self.returned(F)
            v = bare(v)
            if v.op == 'join':
                v = bare(F.pick(v))
            parts = None
            if F.facts['return_superoperator']:
                if v.op != 'tuple':
                    raise Unknown
                if len(v.args) != 4:
                    self.bad('wrong result', node, '%d values are returned instead of vectors, superoperator, eigenvalues and eigenvectors' % len(v.args))
                    return
                parts = v.args
                vecs = F.nf(parts[0])
            else:
                vecs = F.nf(v)
            if len(vecs) != 1:
                raise Unknown
            ((sc, fs), c), = vecs.items()
            fs = [f for f in fs]
            if sc or len(fs) not in (1, 2) or any(t or cj for k, t, cj in fs) or fs[0][0][0] != 'evecs' or len(fs) == 2 and fs[1][0][0] not in ('sel', 'both'):
                raise Unknown
            if len(fs) == 1:
                self.bad('wrong vectors', node, '%s: all eigenvectors are returned instead of those that fulfil the relation' % title)
                return
            M = dict(fs[0][0][1])
            centre, skey = fs[1][0][1], fs[1][0][2]
            if fs[1][0][0] == 'both':
                if want_kind == 'S':
                    self.bad('wrong vectors', node, '%s: the vectors are selected by the magnitude of their eigenvalue, so those of both signs are returned' % title)
                    return
                raise Unknown
            if skey[0] != fs[0][0][1]:
                self.bad('wrong vectors', node, '%s: the vectors are selected by the eigenvalues of another matrix' % title)
                return
        except ERR:
            ck.unsure('search not opened', title)
            return
        base = {k: c for k, c in M.items()}
        eye = 0
        rest = {}
        for (sc, fs_), c in base.items():
            if sc:
                ck.unsure('search not opened', title)
                return
            if len(fs_) == 1 and fs_[0][0] == ('I',):
                eye = c
            else:
                rest[(sc, fs_)] = c
        known = all(f[0][0] in ('L', 'S') for k in rest for f in k[1])
        if not known:
            ck.unsure('search not opened', title)
            return
        target = self.target(rest, want_kind, mode)
        if isinstance(target, str):
            self.bad('wrong matrix', node, '%s: the matrix that is diagonalised is %s, but %s' % (title, text(M), target))
            return
        scale, goal = target            # rest = scale * H with H = C^H C or (S + S^H)/2, eigenvalue goal of H wanted
        here = (centre - eye) / scale
        if abs(here - goal) > 1e-6:
            self.bad('wrong vectors', node, '%s: the vectors returned belong to the eigenvalue %g of %s instead of %g' % (title, here, 'C^H C' if want_kind == 'L' else '(S + S^H)/2', goal))
            return
        if want_kind == 'L' and (eye or scale != 1) and parts is None and False:
            return
        self.shift(F, fs[0][0][2], M, centre, scale, goal, title)
        if parts is not None:
            self.reported(F, parts, node, M, eye, scale, goal, want_kind, fs[0][0], title)
        ck.ok('searches', title)

    def target(self, rest, kind, mode):
        if kind == 'L':
            if len(rest) == 1:
                ((sc, fs), c), = rest.items()
                if len(fs) == 2 and fs[0][0] == fs[1][0] and fs[0][0][0] == 'L':
                    (k, t, cj), (k2, t2, cj2) = fs
                    if k[1:3] != (('param', 'basis'), ('param', 'operator')):
                        return 'it must be made from the basis and the operator given'
                    if k[3] != mode:
                        return 'the Liouvillian matrix is made for %r' % (k[3],)
                    if (t, cj, t2, cj2) == (True, True, False, False):
                        return (c.real if isinstance(c, complex) else c), 0
                    return 'the kernel of the map is that of C^H C'
            if rest and all(f[0][0] == 'L' for k in rest for f in k[1]):
                return 'the kernel of the map is that of C^H C'
            return 'the kernel of the map is that of C^H C'
        cs = {}
        for (sc, fs), c in rest.items():
            if len(fs) != 1 or fs[0][0][0] != 'S':
                return 'it must be a combination of the Hermitian part of the symmetry matrix and the identity'
            k, t, cj = fs[0]
            if k[1:] != (('param', 'basis'), ('param', 'transform')):
                return 'it must be made from the basis and the transformation given'
            cs[(t, cj)] = c
        if set(cs) != {(False, False), (True, True)} or abs(cs[(False, False)] - cs[(True, True)]) > 1e-12:
            return 'it must contain the symmetry matrix and its conjugate transpose in equal parts'
        b = 2 * cs[(False, False)]
        b = b.real if isinstance(b, complex) else b
        return b, mode

    def shift(self, F, solver, M, centre, scale, goal, title):
        """the part of the spectrum the iterative solver looks at"""
        if solver != 'eigsh':
            return
        for e in self.I.trace:
            if e.kind != 'call' or not e.args or e.x[0] != 'scipy.sparse.linalg.eigsh' or F.holds(e.guards) is False:
                continue
            try:
                if not same(F.nf(e.args[0]), M):
                    continue
                pos, kw = kws(e.val if e.val is not None and e.val.op == 'call' else V('call', e.args, e.x))
                names = ['A', 'k', 'M', 'sigma', 'which']
                args = dict(zip(names, pos))
                args.update(kw)
                k = bare(args['k']) if 'k' in args else None
                if k is not None and k.op == 'const' or k is None:
                    self.bad('wrong solver setting', e.node, '%s: the number of vectors asked for is not handed to the solver' % title)
                which = F.ev(args['which']) if 'which' in args else 'LM'
                if 'sigma' in args and not is_const(bare(args['sigma']), None):
                    c, s = F.scalar(args['sigma'])
                    if s:
                        raise Unknown
                    if which != 'LM' or abs(c - centre) > 1e-2:
                        self.bad('wrong solver setting', e.node, '%s: the solver looks for eigenvalues %s %g, but those at %g are needed' % (title, 'nearest to' if which == 'LM' else 'away from', c, centre))
                else:
                    fine = {'SM', 'SA'} if goal == 0 and scale > 0 else {'LA'} if goal * scale > 0 else {'SA'} if goal * scale < 0 else set()
                    if centre == 0 and scale * goal:
                        fine = {'SM', 'SA'}
                    if which not in fine and which in ('LM', 'SM', 'LA', 'SA', 'BE'):
                        self.bad('wrong solver setting', e.node, '%s: the solver looks at the %s end of the spectrum, but eigenvalues at %g are needed' % (title, which, centre))
            except ERR:
                self.ck.unsure('solver setting', title)

    def reported(self, F, parts, node, M, eye, scale, goal, kind, evecs, title):
        ck = self.ck
        try:
            sup = F.nf(parts[1])
            H = {}
            for (sc, fs), c in M.items():
                if not (len(fs) == 1 and fs[0][0] == ('I',)):
                    H[(sc, fs)] = c / scale
            want = H if kind == 'L' else add(F.atom(('I',)), H, -goal)
            if all(not sc and all(f[0][0] in ('L', 'S', 'I') for f in fs) for sc, fs in sup):
                if not same(sup, want):
                    self.bad('wrong superoperator', node, '%s: the superoperator returned is %s instead of %s' % (title, text(sup), text(want)))
            else:
                raise Unknown
            try:
                a, b, k = F.affine(parts[2])
                if F.abs_of(parts[2]) and kind != 'L':
                    raise Nonlinear
            except Nonlinear:
                self.bad('wrong eigenvalues', node, '%s: what is returned as eigenvalues is no linear function of the eigenvalues found' % title)
                return
            if k[0] != evecs[1]:
                self.bad('wrong eigenvalues', node, '%s: the eigenvalues returned belong to another matrix' % title)
            else:
                # eigenvalue of the superoperator in terms of the eigenvalue h of H: a + b (eye + scale h)
                got = (a + b * eye, b * scale)
                wv = (0, 1) if kind == 'L' else (1, -goal)
                if any(abs(x - y) > 1e-9 for x, y in zip(got, wv)):
                    self.bad('wrong eigenvalues', node, '%s: the eigenvalues returned are %g %+g h for eigenvalues h of %s, those of the superoperator are %g %+g h' % ((title,) + got + ('C^H C' if kind == 'L' else '(S + S^H)/2',) + wv))
            vec = F.nf(parts[3])
            if len(vec) == 1:
                ((sc, fs), c), = vec.items()
                if not sc and c == 1 and fs[0][0][0] == 'evecs' and (len(fs) > 1 or fs[0] != (evecs, False, False)):
                    self.bad('wrong eigenvectors', node, '%s: the eigenvectors returned are not all those of the superoperator' % title)
            else:
                raise Unknown
        except ERR:
            ck.unsure('superoperator not opened', title)


MODES = {'commute': 1, 'Commute': 1, 'symmetry': 1, 'commutator': 1, 'anticommute': -1, 'Anticommute': -1, 'antisymmetry': -1, 'anticommutator': -1}


def searches(ck, r):
    S = Search(ck, r)
    com = r.fn.qual == COM
    for mode, sign in MODES.items():
        for nv in (None, GIVEN):
            for ret in (False, True):
                F = Form(r, {'operation_mode': mode, 'num_vecs': nv, 'return_superoperator': ret})
                if S.rejected(F):
                    if mode in ('commutator', 'anticommutator'):
                        S.bad('mode rejected', None, 'the documented mode %r is rejected' % mode)
                        return
                    continue
                if com and mode not in ('commutator', 'anticommutator'):
                    continue
                S.solve(F, 'L' if com else 'S', mode if com else sign, '%s, %s, %s%s' % (r.fn.qual.split('.')[-1], mode, 'eigsh' if nv else 'eigh', ', with superoperator' if ret else ''))


# ---- single formulas -----------------------------------------------------------------------------------------------------

def at(key, t=False):
    return (key, t, t)


def formula(ck, r, want, title, facts=None, real=False):
    """compare the value returned with the form wanted (function of the form found)"""
    S = Search(ck, r)
    F = Form(r, facts)
    F.REAL = real
    try:
        v, node = S.returned(F)
        v = bare(v)
        if v.op == 'join':
            v = bare(F.pick(v))
        if v.op == 'tuple':
            v = v.args[0]
        n = F.nf(v)
        w = v
        while bare(w).op == 'attr':
            w = bare(w).args[0]
        for e in r.I.trace:
            # added in place
            if e.kind == 'aug_name' and bare(w).op != 'mu' and bare(e.args[0]).uid == bare(w).uid and e.x in ('Add', 'Sub'):
                if e.loops or not F.holds(e.guards):
                    raise Unknown
                n = add(n, F.nf(e.args[1]), 1 if e.x == 'Add' else -1)
        t = want(n, F)
    except ERR:
        ck.unsure('formula not opened', title)
        return
    if t is None:
        ck.unsure('formula not opened', title)
    elif t is True:
        ck.ok('formulas', title)
    else:
        S.bad('wrong formula', node, 'the matrix returned is %s instead of %s' % (text(n), t))


def product(kind, first, second):
    """C^H C of the Liouvillian matrix of these arguments"""
    def want(n, F):
        fs = [f for k in n for f in k[1]]
        if not n or any(f[0][0] != kind for f in fs) or any(sc for sc, x in n):
            return None
        if len(n) == 1:
            ((sc, x), c), = n.items()
            if len(x) == 2 and x[0] == at(x[0][0], True) and x[1] == at(x[0][0]) and c == 1 and x[0][0][1:3] == (('param', first), ('param', second)) and (len(x[0][0]) < 4 or x[0][0][3] == ('param', 'operation_mode')):
                return True
        return 'C^H C'
    return want


def congruence(n, F):
    fs = [f[0] for k in n for f in k[1]]
    if len(n) != 1 or any(k[0] not in ('S0', 'pinv', 'inv', 'data') for k in fs):
        return None
    ((sc, x), c), = n.items()
    if any(k[0] == 'inv' for k in fs) or not any(k[0] == 'S0' for k in fs) or sc:
        return None
    if c == 1 and len(x) == 3 and x[1][0][0] == 'S0' and x[1] == at(x[1][0]) and x[2][0][0] == 'data' and x[2] == at(x[2][0]) and x[0] == at(('pinv', F.key(F.atom(x[2][0])))):
        return True
    return 'pinv(V) S V'


def structure(lists):
    def want(n, F):
        if len(n) != 1:
            return None
        ((sc, x), c), = n.items()
        if any(f[0][0] not in ('sum', 'sc', 'data') for f in x) or not x or x[0][0][0] != 'sum':
            return None
        y = x[1:]
        good = len(y) == (2 if lists else 1) and y[0][0][0] == 'sc' and y[0] == at(y[0][0]) and (not lists or y[1][0][0] == 'data' and y[1] == at(y[1][0]))
        if good and c == 1 and len(sc) == 1 and not sc[0][1] and not sc[0][2]:
            return True
        return 'Sum c S_a V' if lists else 'Sum c S_a'
    return want


def penalty(kind):
    """the matrix given plus a large multiple of the projector or of 1 - (S + S^H)/2"""
    def want(n, F):
        own = [(k, c) for k, c in n.items() if not any(f[0][0] == 'sum' for f in k[1])]
        new = [(k, c) for k, c in n.items() if any(f[0][0] == 'sum' for f in k[1])]
        if len(own) != 1 or own[0][0][0] or len(own[0][0][1]) != 1 or own[0][0][1][0][0][0] != 'v' or not new:
            return None
        if own[0][1] != 1:
            return 'the matrix given plus a penalty'
        rest = {}
        for (sc, fs), c in new:
            if sc or fs[0][0][0] != 'sum':
                return None
            rest[fs[1:]] = c
        if kind == 'orth':
            if len(rest) != 1:
                return None
            (fs, c), = rest.items()
            if len(fs) != 2 or any(f[0][0] != 'data' for f in fs) or fs[0][0] != fs[1][0]:
                return None
            if fs[0] == at(fs[0][0]) and fs[1] == at(fs[0][0], True) and c.real > 1e3:
                return True
            return 'the matrix given plus a large multiple of v v^H'
        if any(f[0][0] not in ('S', 'I') for fs in rest for f in fs):
            return None
        e = rest.get((at(('I',)),), 0)
        s = {(f[1], f[2]): c for fs, c in rest.items() for f in fs if f[0][0] == 'S'}
        if e.real > 1e3 and set(s) == {(False, False), (True, True)} and all(abs(x + e / 2) < 1e-6 * e for x in s.values()):
            return True
        return 'the matrix given plus a large multiple of 1 - (S + S^H)/2'
    return want


class Counted(Form):
    """conditions when the starting basis has n members"""
    basis = n = None

    def ev(self, v, d=0):
        w = bare(v)
        if w.op == 'call' and w.x[0] == 'builtins.len' and len(w.args) == 1 and (bare(w.args[0]).uid == self.basis.uid or bare(w.args[0]).key == self.basis.key):
            return self.n
        if w.op == 'call' and w.x[0] == 'builtins.len' or w.op == 'param':
            raise Unknown
        return Form.ev(self, v, d)


# ---- generator -------------------------------------------------------------------------------------------------------------

class Generator(Search):
    def __init__(self, ck, r, cumulative):
        Search.__init__(self, ck, r)
        self.cum = cumulative

    def form(self, kind, nv, first):
        return Form(self.r, {'sparsification': False, 'orthogonalization': False, 'verbose': False, 'num_vecs': nv}, kind, first)

    def searches(self):
        ck = self.ck
        seen = set()
        for e in self.I.trace:
            if e.kind != 'rcall' or e.x not in (COM, INV):
                continue
            fn = self.ck.ctx.prog.find(e.x)
            names = [a.arg for a in fn.node.args.args]
            args = dict(zip(names, e.args))
            sym = args.get('operator' if e.x == COM else 'transform')
            for kind in ('Operator', 'Transformation'):
                F = self.form(kind, GIVEN, FIRST)
                t = self.reach(F, e)
                if t and (kind == 'Operator') != (e.x == COM):
                    self.bad('wrong search', e.node, '%s is called for a symmetry that is a %s' % (e.x.split('.')[-1], kind))
                elif t:
                    seen.add(kind)
            F = self.form('Operator' if e.x == COM else 'Transformation', GIVEN, None)
            m = F.member(sym) if sym is not None else None
            if not m or m[0] != 'input_symmetries':
                ck.unsure('arguments not opened', self.fn.qual)
                continue
            for p, attr in (('operation_mode', 'operation_modes'), ('num_vecs', 'num_vecs')):
                a = args.get(p)
                x = F.member(a) if a is not None else None
                if x is None:
                    b = bare(a) if a is not None else None
                    if b is None or b.op == 'const':
                        self.bad('wrong search', e.node, '%s is called with %s = %s instead of the setting of the symmetry' % (e.x.split('.')[-1], p, show(b, 2) if b is not None else 'default'))
                    else:
                        ck.unsure('arguments not opened', self.fn.qual)
                elif x[0] != attr or x[1:] != m[1:]:
                    self.bad('wrong search', e.node, '%s gets its %s from %s at another place than the symmetry' % (e.x.split('.')[-1], p, x[0]))
                else:
                    ck.ok('settings of the symmetry', '%s %s' % (e.x, p))
            for first in STEPS:
                G = self.form('Operator' if e.x == COM else 'Transformation', GIVEN, first)
                try:
                    k = G.vkey(args['basis'])
                except ERR:
                    ck.unsure('starting basis', self.fn.qual)
                    continue
                want = [('attr', 'basis')] if first == FIRST or not self.cum else [('list', 'projected_output_operators', 'last'), ('list', 'projected_output_operators', -1)]
                if k in want:
                    ck.ok('starting basis', '%s, %s step' % (self.fn.qual, STEPS[first]))
                elif k[0] in ('attr', 'list', 'param'):
                    self.bad('wrong starting basis', e.node, 'the %s searches in %s instead of %s' % ('first step' if first == FIRST else 'later steps' if self.cum else 'steps after the first', k[1], 'the basis given' if want[0][0] == 'attr' else 'the operators of the previous step'))
                elif k[0] == 'ends' and self.cum:
                    new = {bare(x.args[1]).uid for x in self.I.trace if x.kind == 'method' and x.x == 'append' and self.attr(x.args[0]) == 'projected_output_operators'}
                    if set(k[1]) <= new:
                        ck.ok('starting basis', '%s, later step' % self.fn.qual)
                    else:
                        ck.unsure('starting basis', self.fn.qual)
                else:
                    ck.unsure('starting basis', self.fn.qual)
        for kind in ('Operator', 'Transformation'):
            if kind in seen:
                ck.ok('kinds of symmetries', '%s %s' % (self.fn.qual, kind))
            else:
                ck.unsure('kinds of symmetries', self.fn.qual)

    def reach(self, F, e):
        t = F.holds([g for g in e.guards if 'isinstance' in show(g[0], 3)])
        return t

    def attr(self, v):
        v = bare(v)
        return v.x if v.op == 'attr' and bare(v.args[0]).op == 'param' else None

    def stores(self, F):
        """list of self -> [(value, event)] appended under the assumptions"""
        out = {}
        for e in self.I.trace:
            if e.kind == 'method' and e.x == 'append' and len(e.args) == 2:
                a = self.attr(e.args[0])
                if a and F.holds(e.guards) is not False:
                    out.setdefault(a, []).append((e.args[1], e, F.holds(e.guards)))
        return out

    def lists(self):
        ck = self.ck
        for kind in ('Operator', 'Transformation'):
            for nv in (None, GIVEN):
                for first in STEPS:
                    F = self.form(kind, nv, first)
                    title = '%s, %s, %s, %s step' % (self.fn.qual.split('.')[-1], kind, 'eigsh' if nv else 'eigh', STEPS[first])
                    st = self.stores(F)
                    for name, part in LISTS.items():
                        self.expected(F, st, ('projected_' if self.cum and part else '') + name, part, title) if not (self.cum and not part) else None
                    if not self.cum:
                        self.projection(F, st, first, title)

    def expected(self, F, st, name, part, title):
        ck = self.ck
        vs = st.get(name)
        if not vs:
            ck.unsure('list not filled by appending', '%s %s' % (title, name))
            return
        if len(vs) > 1:
            ck.unsure('list filled in several places', '%s %s' % (title, name))
            return
        v, e, _ = vs[0]
        try:
            n = F.nf(v)
        except ERR:
            ck.unsure('list not opened', '%s %s' % (title, name))
            return
        if same(n, F.atom(('res', part))):
            ck.ok('lists', '%s: %s' % (title, name))
        elif all(len(fs) == 1 and fs[0][0][0] == 'res' for sc, fs in n):
            self.bad('wrong list', e.node, '%s: %s receives the %s found' % (title, name, text(n)))
        else:
            ck.unsure('list not opened', '%s %s' % (title, name))

    def projection(self, F, st, first, title):
        ck = self.ck
        names = ['projected_output_operators', 'projected_superoperators', 'projected_eigenvalues', 'projected_eigenvectors']
        got = {}
        for n in names:
            vs = st.get(n)
            if not vs or len(vs) > 1:
                ck.unsure('projection not opened', title)
                return
            got[n] = vs[0]
        if first == FIRST:
            for part, n in enumerate(names):
                self.expected(F, {n: [got[n]]}, n, part, title)
            return
        ks = sorted((F.key(F.atom(k)) for k in (('res', 0), ('list', 'projected_output_operators', -1))), key=repr)
        ks2 = sorted((F.key(F.atom(k)) for k in (('res', 0), ('list', 'projected_output_operators', 'last'))), key=repr)
        Ps = [F.atom(('meet', a, b)) for a, b in (ks, ks2)]
        M = F.atom(('res', 1))

        def form(P):
            return mul(mul(F.adj(P), M), P)

        def known(n):
            return all(not sc and all(f[0][0] in ('res', 'meet', 'list', 'evecs', 'sel') for f in fs) for sc, fs in n)
        try:
            e = got['projected_superoperators'][1]
            n = F.nf(got['projected_superoperators'][0])
            P = next((P for P in Ps if same(n, form(P))), None)
            if P is None:
                if known(n):
                    meet = {f[0] for sc, fs in n for f in fs if f[0][0] == 'meet'}
                    ok = {next(iter(p))[1][0][0] for p in Ps}
                    why = 'the operators are intersected with others than those of the previous step' if meet and not meet & ok else 'it must be P^H M P with P the intersection with the operators of the previous step'
                    self.bad('wrong projection', e.node, '%s: the projected superoperator is %s; %s' % (title, text(n), why))
                else:
                    ck.unsure('projection not opened', title)
                return
            ck.ok('projections', title + ': superoperator')
            want = F.key(form(P))
            a, b, k = F.affine(got['projected_eigenvalues'][0])
            if k[0] == 'res' or k[0] != want or (a, b) != (0, 1):
                self.bad('wrong projection', got['projected_eigenvalues'][1].node, '%s: the eigenvalues kept are not those of the projected superoperator' % title)
                return
            ck.ok('projections', title + ': eigenvalues')
            for n, sel in (('projected_eigenvectors', False), ('projected_output_operators', True)):
                v, e, _ = got[n]
                x = F.nf(v)
                if not known(x) or len(x) != 1:
                    ck.unsure('projection not opened', title)
                    continue
                ((sc, fs), c), = x.items()
                ev = [f for f in fs if f[0][0] == 'evecs']
                good = c == 1 and len(fs) == (3 if sel else 2) and same({((), fs[:1]): 1}, P) and fs[1][0][0] == 'evecs' and not fs[1][1] and fs[1][0][1] == want and (not sel or fs[2][0][0] == 'sel' and abs(fs[2][0][1]) < 1e-9 and fs[2][0][2][0] == want)
                if sel and not good and same(x, P):
                    good = True      # the intersection itself
                if good:
                    ck.ok('projections', '%s: %s' % (title, n))
                else:
                    self.bad('wrong projection', e.node, '%s: %s receives %s instead of P times the %s of the projected superoperator' % (title, n, text(x), 'null vectors' if sel else 'eigenvectors'))
        except ERR:
            ck.unsure('projection not opened', title)

    def steps(self, L, n):
        """the numbers a loop over the symmetries runs through when there are n of them"""
        L = self.I.loops.get(L)
        if L is None or L.brk or L.kind not in ('for', 'comp') or L.iter is None:
            raise Unknown

        def number(v):
            b, k = linear(v)
            if b is None:
                return k
            b = bare(b)
            if b.op == 'call' and b.x[0] == 'builtins.len' and len(b.args) == 1 and self.attr(b.args[0]) in ('input_symmetries', 'operation_modes', 'num_vecs'):
                return n + k
            if b.op == 'call' and b.x[0] in ('builtins.max', 'builtins.min') and len(b.args) > 1:
                return getattr(builtins, b.x[0][9:])([number(a) for a in b.args]) + k
            raise Unknown

        def order(it):
            it = bare(it)
            if self.attr(it) in ('input_symmetries', 'operation_modes', 'num_vecs'):
                return list(range(n))
            if it.op == 'call' and it.x[0] in ('builtins.enumerate', 'builtins.zip') and not it.x[1]:
                return min((order(a) for a in it.args[:1]), key=len)
            if it.op == 'call' and it.x[0] == 'builtins.reversed':
                return order(it.args[0])[::-1]
            if it.op == 'call' and it.x[0] in ('builtins.range', 'numpy.arange') and it.args and not it.x[1]:
                return list(range(*[number(a) for a in it.args]))
            raise Unknown
        return order(L.iter)

    def walked(self, L, node, offsets, what, first=0, last=0, down=False):
        """are the entries offset + index all of those numbered first .. n - 1 - last, in the order that is needed?"""
        ck = self.ck
        try:
            for n in (1, 2, 3, 5):
                got = [i + offsets for i in self.steps(L, n)]
                want = list(range(first, n - last))
                if sorted(got) != want or down and got != want[::-1]:
                    self.bad('symmetries left out', node, '%s: of %d symmetries those numbered %s are treated instead of %s' % (what, n, got, want[::-1] if down else want))
                    return
        except (Unknown, TypeError, ValueError):
            ck.unsure('steps not counted', '%s %s' % (self.fn.qual, what))
            return
        ck.ok('steps', '%s: %s' % (self.fn.qual, what))

    def walks(self):
        done = set()
        for e in self.I.trace:
            L = e.loops[0] if e.loops else None
            if L is None or L.id in done:
                continue
            if e.kind == 'rcall' and e.x in (COM, INV):
                done.add(L.id)
                self.walked(L.id, e.node, 0, 'the search')
            if e.kind == 'method' and e.x == 'append' and self.attr(e.args[0]) == 'projected_output_operators' and not self.cum:
                F = self.form(None, GIVEN, (1,))
                if F.holds(e.guards) is not False:
                    done.add(L.id)
                    got = F.holds(e.guards)
                    firsts = [x for x in self.I.trace if x.kind == e.kind and x.x == e.x and self.attr(x.args[0]) == self.attr(e.args[0]) and not (x.loops and x.loops[0].id == L.id)]
                    self.walked(L.id, e.node, 0, 'the projection', first=1 if firsts else 0) if got or not firsts else None

    def sizes(self):
        """a step is left out only when no operators are left"""
        ck = self.ck
        for e in self.I.trace:
            if e.kind != 'rcall' or e.x not in (COM, INV):
                continue
            gs = [g for g in e.guards if any(x.op == 'call' and x.x[0] == 'builtins.len' for x in nodes(g[0]))]
            for n in (1, 2):
                F = Counted(self.r, {'verbose': False}, None, (1,))
                F.basis, F.n = bare(e.args[0]), n
                if F.holds(gs) is False:
                    self.bad('symmetry skipped', e.node, 'no search is made when the starting basis has %d operator%s' % (n, 's' * (n > 1)))
                    break
            else:
                ck.ok('no symmetry skipped', e.x)

    def rewritten(self):
        """entries of the list that are replaced afterwards keep their place"""
        ck = self.ck
        for e in self.I.trace:
            if e.kind != 'store_item' or self.attr(e.args[0]) != 'projected_output_operators':
                continue
            F = self.form(None, GIVEN, None)
            b, o = linear(e.args[1])
            v = bare(e.args[2])
            if b is None or bare(b).op != 'idx' or v.op != 'rcall':
                ck.unsure('post-processing not opened', self.fn.qual)
                continue
            L = bare(b).x[0]
            q, a = rq(v), bare(v.args[0])
            if q == 'tools.sparsify':
                m = F.member(a)
                if m and m[0] == 'projected_output_operators' and m[2] == L and isinstance(m[1], int):
                    if m[1] == o:
                        ck.ok('post-processing', self.fn.qual + ' sparsify')
                        self.walked(L, e.node, o, 'the sparsification')
                    else:
                        self.bad('wrong place', e.node, 'the operators of one symmetry replace those of another one')
                elif m and m[0] in LISTS:
                    self.bad('wrong place', e.node, 'the projected operators are replaced by the %s that were not projected' % m[0])
                else:
                    ck.unsure('post-processing not opened', self.fn.qual)
            elif q == 'tools.gram_schmidt':
                m = F.member(a.args[0]) if a.op == 'call' and a.x[0] in SAMEF and a.args or a.op == 'mcall' and a.x[0] == 'copy' else None
                ins = [x for x in self.I.trace if x.kind == 'store_item' and bare(x.args[0]).uid == a.uid]
                n = F.member(ins[0].args[2]) if len(ins) == 1 else None
                if m and n and m[0] == n[0] == 'projected_output_operators' and m[2] == n[2] == L and isinstance(m[1], int) and isinstance(n[1], int):
                    if (m[1], n[1]) == (o, o + 1):
                        ck.ok('post-processing', self.fn.qual + ' orthogonalisation')
                        self.walked(L, e.node, o, 'the orthogonalisation', last=1, down=True)
                    else:
                        self.bad('wrong place', e.node, 'the operators replaced are not those that were orthogonalised against the following ones')
                else:
                    ck.unsure('post-processing not opened', self.fn.qual)


def together(ck, r):
    """a symmetry enters all lists of the generator or none"""
    I, fn = r.I, r.fn
    names = ('input_symmetries', 'operation_modes', 'num_vecs')
    got = {}
    for e in I.trace:
        if e.kind == 'method' and e.args and bare(e.args[0]).op == 'attr' and bare(e.args[0]).x in names and bare(bare(e.args[0]).args[0]).op == 'param':
            if e.x != 'append':
                return ck.unsure('lists not filled by appending', fn.qual)
            got.setdefault(bare(e.args[0]).x, []).append(e)
        if e.kind in ('store_attr', 'aug_attr') and e.x in names:
            return ck.unsure('lists not filled by appending', fn.qual)
    if len(got) < len(names):
        return ck.unsure('lists not filled by appending', fn.qual)
    for n in names:
        es = got[n]
        rest = [{(c.key, p) for c, p in e.guards} for m in names if m != n for e in got[m]]
        if len(es) == 1 and rest:
            own = {(c.key, p) for c, p in es[0].guards}
            if any(not {(k, not p) for k, p in own} & o and not own <= o for o in rest) and all(len(got[m]) == 1 for m in names if m != n):
                ck.bad('lists out of step', fn.qual, where(fn, es[0].node), '%s: %s receives its entry only under a condition that does not apply to the other lists of the symmetries' % (fn.qual, n))
                continue
        ck.ok('entries of a symmetry', n)


# ---- intersection ------------------------------------------------------------------------------------------------------------

class Stack(Form):
    """the subspace intersection: stacked [A, s B], its Gram matrix, the rows that belong to A"""

    def __init__(self, r):
        Form.__init__(self, r)
        self.stacks = {}

    def _nf(self, v, d):
        if v.op == 'call' and v.x[0] in ('numpy.hstack', 'numpy.concatenate', 'numpy.column_stack', 'scipy.sparse.hstack') and v.args:
            t = bare(v.args[0])
            xs = t.args if t.op == 'tuple' else self.I.objinit.get(t.uid) if t.op == 'new' else None
            if not xs or isinstance(xs, dict) or len(xs) != 2:
                raise Unknown
            key = ('stack',) + tuple(self.key(self.nf(x, d)) for x in xs)
            self.stacks[key] = [self.nf(x, d) for x in xs]
            return self.atom(key)
        if v.op == 'param':
            return self.atom(('p', v.x[1]))
        return Form._nf(self, v, d)

    def item(self, v, d):
        i = bare(v.args[1])
        if i.op == 'tuple' and len(i.args) == 2 and bare(i.args[0]).op == 'slice':
            s = bare(i.args[0])
            a = [bare(x) if isinstance(x, V) else None for x in s.args]
            if not all(x is None or is_const(x, None) for x in a):
                n = self.nf(v.args[0], d)
                return mul(mul(self.atom(('rows', self.bound(a[0]), self.bound(a[1]) if len(a) > 1 else None)), n), self.atom(self.selection(i.args[1], d)))
        return Form.item(self, v, d)

    def bound(self, x):
        """0, None or the number of columns of a parameter"""
        if x is None or is_const(x, None):
            return None
        if x.op == 'const':
            return x.x
        if x.op == 'call' and x.x[0] == 'builtins.int':
            return self.bound(bare(x.args[0]))
        if x.op == 'item' and bare(x.args[0]).op == 'attr' and bare(x.args[0]).x == 'shape' and is_const(bare(x.args[1]), 1):
            p = self.strip(bare(x.args[0]).args[0])
            if p.op == 'param':
                return ('cols', p.x[1])
        if x.op == 'bin' and x.x in ('Add', 'Mult'):
            return tuple([x.x] + sorted((self.bound(bare(a)) for a in x.args), key=repr))
        raise Unknown


def lengths(S, F, title):
    """vectors are divided by their Euclidean length"""
    for e in S.r.I.trace:
        if e.kind not in ('aug_item', 'store_item') or not e.loops:
            continue
        for w in nodes(e.args[-1]) if e.kind == 'store_item' else nodes(e.args[2]):
            if w.op != 'call' or w.x[0] not in ('numpy.linalg.norm', 'scipy.linalg.norm'):
                continue
            pos, kw = kws(w)
            o = kw.get('ord', pos[1] if len(pos) > 1 else None)
            try:
                k = 2 if o is None else F.ev(o)
            except ERR:
                continue
            if k not in (None, 2, 'fro'):
                S.bad('not the length', e.node, 'the vectors are divided by the norm of order %s instead of their length' % k)


def intersection(ck, r):
    S = Search(ck, r)
    title = 'intersection'
    F = Stack(r)
    lengths(S, F, title)
    try:
        v, node = S.returned(F)
        v = bare(v)
        while v.op == 'mu':
            v = bare(v.args[0])
        n = F.nf(v)
        if len(n) != 1:
            raise Unknown
        ((sc, fs), c), = n.items()
        if sc or len(fs) != 4 or [f[0][0] for f in fs] != ['p', 'rows', 'evecs', 'sel'] or any(f[1] or f[2] for f in fs):
            raise Unknown
        D = dict(fs[2][0][1])
        ((sd, ds), cd), = D.items()
        if len(ds) != 2 or ds[0][0] != ds[1][0] or ds[0][0][0] != 'stack':
            raise Unknown
        parts = []
        for p in F.stacks[ds[0][0]]:
            ((sp, ps), cp), = p.items()
            if sp or len(ps) != 1 or ps[0][0][0] != 'p' or ps[0][1] or ps[0][2]:
                raise Unknown
            parts.append((ps[0][0][1], cp))
    except ERR:
        ck.unsure('formula not opened', title)
        return
    why = None
    if ds[0] != at(ds[0][0], True) or ds[1] != at(ds[0][0]):
        why = 'the matrix that is diagonalised is not the Gram matrix C^H C of the stacked vectors'
    elif {parts[0][0], parts[1][0]} != {'A', 'B'}:
        why = 'the two spaces are not both stacked'
    elif abs(fs[3][0][1]) > 1e-9:
        why = 'the vectors taken are not the null vectors'
    elif fs[3][0][2][0] != fs[2][0][1]:
        why = 'the vectors are selected by the eigenvalues of another matrix'
    else:
        p, (_, lo, hi) = fs[0][0][1], fs[1][0]
        want = [(p, None, ('cols', p)), (p, 0, ('cols', p))] if parts[0][0] == p else [(p, ('cols', parts[0][0]), hi) for hi in (None, tuple(['Add'] + sorted([('cols', parts[0][0]), ('cols', p)], key=repr)))]
        if (p, lo, hi) not in want:
            why = 'the rows taken from the null vectors are not those that belong to the vectors of %s' % p
    if why:
        S.bad('wrong formula', node, why)
    else:
        ck.ok('formulas', title)


def lowest(ck, r):
    """the searches for nearly commuting operators look at the low end of the spectrum"""
    S = Search(ck, r)
    for e in r.I.trace:
        if e.kind != 'call' or not e.args or e.x[0] != 'scipy.sparse.linalg.eigsh':
            continue
        if r.fn.name in ('_generate_noncumulative', '_generate_cumulative'):
            k = next((a for i, a in enumerate(e.args) if i == len(e.args) - len(e.x[1]) + list(e.x[1]).index('k')), None) if 'k' in e.x[1] else e.args[1] if len(e.args) > 1 else None
            if k is not None and not sized(k) and not any(sized(g) for g, pol in flat(e.guards) if any(x.op == 'cmp' and x.x in ('Lt', 'LtE', 'Gt', 'GtE') for x in nodes(g))):
                S.bad('more vectors than rows', e.node, 'the solver is asked for as many vectors as the search for the symmetry; a projected matrix never has more rows than that and the solver ends in an exception')
                continue
        F = Form(r, {'sigma': None})
        pos, kw = kws(V('call', e.args, e.x))
        args = dict(zip(['A', 'k', 'M', 'sigma', 'which'], pos))
        args.update(kw)
        try:
            which = F.ev(args['which']) if 'which' in args else 'LM'
            sigma = F.ev(args['sigma']) if 'sigma' in args else None
        except ERR:
            ck.unsure('solver setting', r.fn.qual)
            continue
        if which not in ('LM', 'SM', 'LA', 'SA', 'BE') or sigma is not None and not isinstance(sigma, (int, float)):
            ck.unsure('solver setting', r.fn.qual)
        elif sigma is None and which in ('SM', 'SA') or sigma is not None and which == 'LM' and abs(sigma) <= 1e-2:
            ck.ok('solver settings', r.fn.qual)
        elif sigma is None:
            S.bad('wrong solver setting', e.node, 'the solver looks at the %s end of the spectrum of the commutant matrix instead of the lowest eigenvalues' % which)
        elif which != 'LM':
            S.bad('wrong solver setting', e.node, 'with a shift of %g and %s the solver looks away from the lowest eigenvalues' % (sigma, which))
        else:
            S.bad('wrong solver setting', e.node, 'the solver looks for eigenvalues near %g instead of the lowest ones' % sigma)


# ---- entry -------------------------------------------------------------------------------------------------------------------

def run(ck):
    prog = ck.ctx.prog
    base = {f.qual for f in prog.functions() if not prog.helper(f)}

    def runs(qual):
        fn = ck.need(qual)
        for i, t in enumerate(variants(fn)):
            try:
                yield ck.ctx.run_one(fn, t, i, opaque=base - {qual})
            except (AnalysisError, RecursionError):
                ck.unsure('not interpretable', qual)
    for q in (COM, INV):
        for r in runs(q):
            searches(ck, r)
    for ret in (False, True):
        for r in runs('algebra.commutant_matrix'):
            formula(ck, r, product('L', 'basis', 'operator'), 'commutant_matrix', {'return_extended_basis': ret})
        for q, ls in (('_liouvillian_matrix_opstrings', False), ('_liouvillian_matrix_operators', True)):
            for r in runs('algebra.' + q):
                formula(ck, r, structure(ls), q, {'return_extended_basis': ret})
    for r in runs('transformation._symmetry_matrix_operators'):
        formula(ck, r, congruence, '_symmetry_matrix_operators')
    for r in runs('algorithms._com_matrix'):
        formula(ck, r, product('l', 's_constants', 'operator'), '_com_matrix')
    for q, k in (('_orthogonalize_com_matrix', 'orth'), ('_symmetrize_com_matrix', 'sym')):
        for r in runs('algorithms.' + q):
            formula(ck, r, penalty(k), q, real=True)
    for r in runs('tools.intersection'):
        intersection(ck, r)
    for q, cum in (('_generate_noncumulative', False), ('_generate_cumulative', True)):
        for r in runs('core.SymmetricOperatorGenerator.' + q):
            G = Generator(ck, r, cum)
            G.searches()
            G.lists()
            G.rewritten()
            G.walks()
            G.sizes()
            lowest(ck, r)
    for r in runs('core.SymmetricOperatorGenerator.add_symmetry'):
        together(ck, r)
    for f in list(prog.functions()):
        if f.module.name == 'algorithms' and f.qual.split('.')[-1].startswith('selected_ci') and not prog.helper(f):
            for r in runs(f.qual):
                lowest(ck, r)
    ck.floor('searches', 8)
    ck.floor('lists', 8)
