"""C22: complex amplitudes are kept, inner products conjugate one factor."""
import re

from ..spaces import EIGH, SVD, rq
from ..summary import bare
from ..values import is_const, show
from .c06 import runs
from .c07 import alive
from .c12 import CONJ, NONNEG, Cuts
from .c13 import Hermitian

RULE = ('Values are traced to their sources: coefficients, prefactors, matrix elements, state and operator vectors, eigenvectors of complex matrices and what is computed from them can be complex. Storing such a value in an array allocated with a real type, converting it to a real type, '
        'or taking its real or imaginary part alone is a violation, unless the value is a Hermitian form, is its own conjugate, or its other part is tested or used as well. Products that contract a vector or a set of vectors with another one must conjugate exactly one of the two, '
        'in norms, overlaps, projectors and basis changes, and the coefficient subtracted by an orthogonalisation must conjugate the vector it multiplies.')
ASSUME = ['the Liouvillian matrix of a Hermitian operator times its conjugate transpose is real', 'operators handed to the single-particle diagonalisation are Hermitian, so their coefficients are real and diagonal hopping elements too', 'the ratio of two prefactors of strings of the same kind is real']

SOURCES = {'algebra.liouvillian_matrix', 'algebra._liouvillian_matrix_opstrings', 'algebra._liouvillian_matrix_operators', 'transformation.symmetry_matrix', 'transformation._symmetry_matrix_opstrings', 'transformation._symmetry_matrix_operators', 'conversion.conversion_matrix',
           'diagonalization.to_matrix', 'diagonalization._to_matrix_opstring', 'diagonalization.to_vector', 'basis.Operator.to_vector', 'tools.gram_schmidt', 'tools.intersection', 'tools.sparsify', 'diagonalization.apply', 'diagonalization.apply_transformation', 'basis.Operator.inner_product', 'algorithms._l_matrix'}
AMPLITUDES = re.compile(r'coeffs?$|(?!num_|ind_|inds_|n_|len_|max_|min_)(\w+_)?(vec|vecs|vector|vectors|evecs)\d*$')
MATRIX = re.compile(r'matrix$')
OPERATORS = re.compile(r'(\w+_)?(ops|operators)$')
GEOMETRY = ('lattice', 'unitcell', 'symmetrization', 'visualization')
LIKE = {'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like'}
ALLOC = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'} | LIKE
CONTAINER = re.compile(r'scipy\.sparse\.\w+_(matrix|array)$')
KEEP = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.conj', 'numpy.conjugate', 'numpy.transpose', 'builtins.list', 'builtins.tuple', 'numpy.sum', 'numpy.ravel', 'numpy.squeeze', 'numpy.reshape', 'numpy.hstack', 'numpy.vstack', 'numpy.concatenate',
        'numpy.column_stack', 'builtins.complex', 'numpy.complex128', 'numpy.array_split', 'numpy.diag', 'builtins.sum', 'scipy.sparse.diags', 'numpy.trace', 'numpy.mean', 'numpy.kron', 'scipy.sparse.kron', 'scipy.sparse.vstack', 'scipy.sparse.hstack', 'numpy.split'}
KEEPM = {'toarray', 'todense', 'tocsc', 'tocsr', 'tocoo', 'tolil', 'copy', 'asformat', 'getH', 'transpose', 'conj', 'conjugate', 'reshape', 'flatten', 'ravel', 'sum', 'item', 'tolist', 'squeeze', 'diagonal', 'mean', 'getrow', 'getcol', 'values'}
REALF = {'numpy.real', 'numpy.imag', 'builtins.float', 'numpy.float64', 'builtins.int', 'numpy.float32', 'numpy.real_if_close'}
DOTF = {'numpy.dot', 'numpy.matmul', 'numpy.vdot', 'numpy.inner'}
SINGLE = 'diagonalization.diagonalize_quadratic', 'diagonalization._diagonalize_quadratic', 'diagonalization._quadratic', 'diagonalization.single_particle'


SKIP = ()


def run(ck):
    live = alive(ck.ctx.prog)
    for fn, r, S in runs(ck):
        if fn.qual not in SKIP:
            Amplitudes(ck, fn, r.I, S, live).run(r)
    ck.floor('values that can be complex', 5)


class Amplitudes(Cuts):
    def run(self, r):
        I = self.I
        self.H = Hermitian(self.ck, self.fn, I, self.S)
        self.kmemo = {}
        self.vs = self.values()
        self.parts = {}
        for v, e in self.vs:
            p = self.part(v)
            if p:
                self.parts.setdefault(self.core(p[1]), set()).add(p[0])
        self.hermitian = self.fn.qual.startswith('diagonalization.') and ('quadratic' in self.fn.qual or 'single_particle' in self.fn.qual or 'tight_binding' in self.fn.qual or 'bdg' in self.fn.qual)
        for e in I.trace:
            self.event(e)
        done = set()
        for v, e in self.vs:
            if v.uid in done:
                continue
            done.add(v.uid)
            self.reduced(v, e)
            self.product(v, e)
            self.flipped(v, e)
            self.subtracted(v, e)

    def report(self, rule, e, msg):
        self.ck.bad(rule, getattr(e.fn, 'qual', self.fn.qual), e.where, msg)

    # ---- may it be complex? ----------------------------------------------------------------------------------------------

    def kind(self, v, depth=0):
        """'complex': can be, 'real': never, None: unknown"""
        v = bare(v)
        if v.uid in self.kmemo:
            return self.kmemo[v.uid]
        if depth > 60:
            return None
        self.kmemo[v.uid] = None
        k = self.kmemo[v.uid] = self._kind(v, depth + 1)
        return k

    def any(self, xs, d):
        ks = [self.kind(x, d) for x in xs]
        return 'complex' if 'complex' in ks else 'real' if ks and set(ks) == {'real'} else None

    def _kind(self, v, d):
        o, S = v.op, self.S
        if o == 'const':
            return 'complex' if isinstance(v.x, complex) else 'real' if isinstance(v.x, (int, float)) else None
        if o == 'attr':
            if v.x in ('real', 'imag'):
                return 'real'
            if v.x == 'coeffs':
                return None if self.hermitian else 'complex'
            if v.x == 'prefactor':
                return 'complex'
            if v.x in ('T', 'H', 'data'):
                return self.kind(v.args[0], d)
            return None
        if o == 'param':
            n = v.x[1]
            return 'complex' if isinstance(n, str) and (AMPLITUDES.match(n) or MATRIX.match(n)) and self.I.T.ty(v) not in ('int', 'float') and not (self.hermitian and n.startswith('coeff')) else None
        if o == 'item' and is_const(v.args[1], 0) and bare(v.args[0]).op in ('elem', 'rcall') and self.owners(v):
            return None if self.hermitian else 'complex'
        if o == 'rcall':
            q = rq(v)
            if q in SOURCES:
                return 'complex'
            return 'real' if q.split('.')[-1] in ('norm', '__len__', 'distance', 'index') else None
        if o == 'call':
            f = v.x[0]
            if f in NONNEG and f not in ('numpy.sqrt', 'numpy.square', 'numpy.exp'):
                return 'real'
            if f in ('numpy.sqrt', 'numpy.square', 'numpy.exp') and v.args:
                return 'real' if self.kind(v.args[0], d) == 'real' else None
            if f in REALF:
                return 'real'
            if f in ALLOC:
                return self.contents(v, d, 'real' if self.realtype(v) else None)
            if CONTAINER.match(f) and v.args:
                a = bare(v.args[0])
                init = None
                if a.op == 'tuple' and a.args and bare(a.args[-1]).op == 'tuple':
                    init = self.kind(a.args[0], d)
                elif a.op == 'tuple':
                    init = 'real'
                else:
                    init = self.kind(a, d)
                return self.contents(v, d, init)
            if f in KEEP and v.args:
                t = self.realtype(v)
                if t and f in ('numpy.array', 'numpy.asarray'):
                    return 'real'
                b = bare(v.args[0])
                k = self.any(b.args, d) if b.op == 'tuple' else self.kind(b, d)
                return self.contents(v, d, k)
            if f in DOTF and len(v.args) == 2:
                return self.dotted(v, d)
            if f in tuple(SVD) + tuple(EIGH):
                return self.kind(v.args[0], d) if v.args else None
            if f.split('.')[-1] in ('eig', 'eigs', 'eigvals'):
                return 'complex'
            if f == 'scipy.linalg.schur':
                return 'real' if self.keyword(v, 'output') is not None and is_const(bare(self.keyword(v, 'output')), 'real') else None
            return None
        if o == 'mcall':
            if v.x[0] == 'norm':
                return 'real'
            if v.x[0] in ('dot', 'matmul') and len(v.args) == 2:
                return self.dotted(v, d)
            if v.x[0] in ('to_vector', 'inner_product'):
                return 'complex'
            if v.x[0] in KEEPM:
                return self.kind(v.args[0], d)
            if v.x[0] == 'astype' and len(v.args) > 1:
                return 'real' if self.realname(v.args[1]) else None
            return None
        if o == 'un':
            return self.kind(v.args[0], d) if v.x != 'not' else None
        if o in ('bin', 'aug'):
            a, b = v.args[0], v.args[1]
            if v.x == 'MatMult':
                return self.dotted(v, d)
            if v.x == 'Mult' and self.conjpair(a, b):
                return 'real'
            if v.x == 'Add' and bare(a).key != bare(b).key and self.conj(a) == self.conj(b):
                return 'real'
            if v.x in ('Mult', 'Div') and self.prefactor(a) and self.prefactor(b):
                return None
            if v.x == 'Mult' and any(bare(f).op in ('bin', 'aug') and self.kind(f, d) is None and bare(f).x == 'Div' for f in (a, b)):
                return None
            return self.any((a, b), d) if v.x in ('Add', 'Sub', 'Mult', 'Div') else self.kind(a, d) if v.x == 'Pow' and not is_const(b, 2) else None
        if o in ('item', 'slice'):
            b = bare(v.args[0])
            if b.op == 'rcall' and rq(b) == 'diagonalization._apply_opstring':
                return 'complex' if is_const(v.args[1], 0) else None
            if b.op == 'elem' and is_const(v.args[1], 0) and self.operators(b.args[0]):
                return 'complex'
            if b.op == 'rcall' and rq(b) == 'algorithms._explore':
                return 'complex' if is_const(v.args[1], 0) else None
            if b.op == 'call' and b.x[0] == 'scipy.linalg.schur':
                return self.kind(b, d)
            c = self.decomp(v)
            if c is not None:
                f, i = c.x[0], v.args[1].x
                if f in SVD and i == 1 or f in EIGH and i == 0:
                    return 'real'
                return self.kind(c.args[0], d) if f in tuple(SVD) + tuple(EIGH) else 'complex'
            if o == 'item' and v.args[1].op == 'tuple' and all(is_const(x, 0) for x in v.args[1].args) and self.form(b):
                return 'real'
            return self.kind(b, d) if b.op not in ('rcall', 'elem') or rq(b) in SOURCES else None
        if o == 'elem':
            b = bare(v.args[0])
            return self.kind(b, d) if b.op not in ('rcall',) or rq(b) in SOURCES else None
        if o == 'new':
            if v.x not in ('list', 'tuple', 'dict'):
                return None
            xs = list(self.I.objinit.get(v.uid) or ())
            return self.contents(v, d, None if not xs else self.any(xs, d) if v.x != 'dict' else None)
        if o == 'tuple':
            return None
        if o == 'join':
            return self.any(v.args, d)
        if o == 'mu':
            L = self.I.loops.get(v.x[0])
            xs = list(v.args) + ([s.env[v.x[1]] for s in L.ends if v.x[1] in s.env] if L is not None else [])
            return self.any([x for x in xs if bare(x).uid != v.uid], d)
        return 'real' if o == 'idx' else None

    def operators(self, v):
        """an operator given as one of a list of operators"""
        v = bare(v)
        if v.op not in ('elem', 'item'):
            return False
        b = bare(v.args[0])
        return b.op == 'param' and isinstance(b.x[1], str) and bool(OPERATORS.match(b.x[1]))

    def contents(self, v, d, init):
        """kind of an array or list from what is put in it"""
        ks = [init]
        for e in self.I.byobj.get(v.uid, ()):
            if e.kind == 'store_item' and len(e.args) > 2:
                ks.append(self.kind(e.args[2], d))
            elif e.kind == 'aug_item' and len(e.args) > 2:
                ks.append(self.kind(e.args[2], d))
            elif e.kind == 'method' and e.x in ('append', 'extend') and len(e.args) > 1:
                w = bare(e.args[1])
                ks.append(self.any(w.args, d) if w.op == 'tuple' and e.x == 'extend' else None if w.op == 'tuple' else self.kind(w, d))
        return 'complex' if 'complex' in ks else 'real' if set(ks) == {'real'} else None

    def dotted(self, v, d):
        if self.form(v) and self.rank(v) == 0:
            return 'real'
        return self.any(v.args[:2], d)

    def conjpair(self, a, b):
        a, b = bare(a), bare(b)
        return a.key != b.key and self.conj(a) == self.conj(b)

    def prefactor(self, v):
        v = bare(v)
        if v.op == 'call' and v.x[0] in CONJ and v.args or v.op == 'mcall' and v.x[0] in ('conj', 'conjugate'):
            v = bare(v.args[0])
        return v.op == 'attr' and v.x == 'prefactor'

    def decomp(self, v):
        """the decomposition that v = result[const] comes from"""
        v = bare(v)
        if v.op == 'item' and v.args[1].op == 'const' and isinstance(v.args[1].x, int):
            c = bare(v.args[0])
            if c.op == 'call' and c.args and c.x[0].split('.')[-1] in ('eigh', 'eigsh', 'eig', 'eigs', 'svd', 'svds'):
                return c
        return None

    # ---- real types ------------------------------------------------------------------------------------------------------

    def keyword(self, v, name):
        ks = v.x[1] or ()
        for k, a in zip(ks, v.args[len(v.args) - len(ks):]):
            if k == name:
                return a
        return None

    def realname(self, t):
        t = bare(t)
        s = t.x if t.op in ('ext', 'const') else t.x[0] if t.op == 'cls' and isinstance(t.x, tuple) else t.x if t.op == 'cls' else ''
        s = s if isinstance(s, str) else getattr(s, '__name__', '')
        s = s.split('.')[-1]
        return s in ('float', 'int', 'float64', 'float32', 'int64', 'int32', 'f', 'd', 'double', 'f8', 'bool')

    def realtype(self, v):
        """is the array v allocated with a real type?"""
        f = v.x[0]
        t = self.keyword(v, 'dtype')
        n = len(v.args) - len(v.x[1] or ())
        if t is None and f in ALLOC and f not in ('numpy.full', 'numpy.full_like') and n > 1:
            t = v.args[1]
        if t is None and f in ('numpy.array', 'numpy.asarray') and n > 1:
            t = v.args[1]
        if t is None and CONTAINER.match(f) and v.args:
            a = bare(v.args[0])
            return a.op == 'attr' and a.x == 'shape' or a.op == 'tuple' and len(a.args) == 2 and all(bare(x).op not in ('tuple', 'new') and self.rank(x) in (None, 0) and not self.S.isarray(x) for x in a.args)
        if t is None:
            return f in ('numpy.zeros', 'numpy.ones', 'numpy.empty') or f == 'numpy.full' and n > 1 and self.kind(v.args[1]) == 'real'
        return self.realname(t)

    def event(self, e):
        if e.kind in ('store_item', 'aug_item') and len(e.args) > 2:
            o = self.origin(e.args[0])
            k = self.kind(e.args[2])
            if k == 'complex':
                self.ck.count('values that can be complex')
            for b in o:
                if b.op == 'call' and (b.x[0] in ALLOC or CONTAINER.match(b.x[0])):
                    real = self.realtype(b)
                    if k == 'complex' and real:
                        self.report('complex value stored in a real array', e, '%s can be complex and is stored in an array allocated with a real type by %s' % (show(bare(e.args[2]), 4), b.x[0]))
                    elif k == 'complex':
                        self.ck.ok('complex values stored in complex arrays', getattr(e.fn, 'qual', self.fn.qual))
        elif e.kind == 'aug_name' and len(e.args) > 1:
            k = self.kind(e.args[1])
            for b in self.origin(e.args[0]):
                if k == 'complex' and b.op == 'call' and b.x[0] in ALLOC and self.realtype(b):
                    self.report('complex value added to a real array', e, '%s can be complex and is added in place to an array allocated with a real type by %s' % (show(bare(e.args[1]), 4), b.x[0]))
        elif e.kind == 'call' and e.args:
            f = e.x[0]
            v = e.val
            if v is None or v.op != 'call':
                return
            if (CONTAINER.match(f) or f in ('numpy.array', 'numpy.asarray')) and (self.keyword(v, 'dtype') is not None or f.startswith('numpy')):
                a = bare(v.args[0])
                data = a.args[0] if CONTAINER.match(f) and a.op == 'tuple' and bare(a.args[-1]).op == 'tuple' else None if CONTAINER.match(f) and a.op == 'tuple' else a
                if data is not None and CONTAINER.match(f):
                    self.magnitude_stored(data, e)
                if data is not None and self.kind(data) == 'complex':
                    self.ck.count('values that can be complex')
                    if self.realtype(v) and not self.justified(data, e):
                        self.report('complex values converted to a real type', e, 'the values %s can be complex and are converted to a real type by %s' % (show(bare(data), 3), f))
                    else:
                        self.ck.ok('complex values stored in complex arrays', getattr(e.fn, 'qual', self.fn.qual))
        elif e.kind == 'instantiate' and e.x[0].endswith('.Operator'):
            for n, w in e.x[1]:
                if n == 'coeffs' and w is not None:
                    self.magnitude_stored(w, e)
        elif e.kind == 'method' and e.x == 'astype' and len(e.args) > 1:
            if self.realname(e.args[1]) and self.kind(e.args[0]) == 'complex' and not self.justified(e.args[0], e):
                self.report('complex values converted to a real type', e, '%s can be complex and is converted to a real type' % show(bare(e.args[0]), 3))
        elif e.kind == 'store_attr' and e.x and e.x[0] == 'coeffs' and len(e.args) > 1 and not e.x[1]:
            self.field(e)

    def magnitude_stored(self, data, e):
        """entries are not magnitudes of what can be complex"""
        b = bare(data)
        xs = [b]
        if b.op == 'new':
            xs += list(self.I.objinit.get(b.uid) or ()) + [x.args[1] for x in self.I.byobj.get(b.uid, ()) if x.kind == 'method' and x.x == 'append' and len(x.args) > 1]
        for x in xs:
            x = bare(x)
            if x.op == 'call' and x.x[0] in ('numpy.abs', 'numpy.absolute', 'builtins.abs') and x.args and self.kind(x.args[0]) == 'complex':
                self.report('magnitude stored', e, 'the magnitude of %s, which can be complex, is stored as coefficient or matrix element' % show(bare(x.args[0]), 3))

    def field(self, e):
        """the coefficient array of operators has a complex type"""
        o = bare(e.args[0])
        for w in self.raws(e.args[1]):
            if w.op == 'call' and w.x[0] in {"numpy.array", "numpy.asarray"} | ALLOC:
                t = self.keyword(w, 'dtype')
                n = len(w.args) - len(w.x[1] or ())
                t = w.args[1] if t is None and n > 1 and w.x[0] not in ('numpy.full', 'numpy.full_like') else t
                if t is None and w.args and bare(w.args[0]).op in ('param', 'new', 'tuple') or t is not None and self.realname(t) or t is None and w.x[0] in ALLOC - LIKE:
                    self.report('coefficients without complex type', e, 'the coefficients of an operator are stored as %s, which is not of complex type for real input' % show(w, 3))
                else:
                    self.ck.ok('coefficients of complex type', getattr(e.fn, 'qual', self.fn.qual))

    def raws(self, v, depth=0):
        """the alternatives of v with conversions"""
        if v.op == 'narrow':
            return self.raws(v.args[0], depth)
        if v.op == 'join' and depth < 6:
            return [y for a in v.args for y in self.raws(a, depth + 1)]
        return [v]

    def origin(self, v, depth=0):
        """the allocations that v may be"""
        v = bare(v)
        if depth > 8:
            return []
        if v.op == 'join':
            return [y for a in v.args for y in self.origin(a, depth + 1)]
        if v.op == 'mu':
            return self.origin(v.args[0], depth + 1) if v.args else []
        if v.op == 'aug':
            return self.origin(v.args[0], depth + 1)
        return [v]

    # ---- real and imaginary parts ----------------------------------------------------------------------------------------

    def part(self, v):
        v = bare(v)
        if v.op == 'attr' and v.x in ('real', 'imag'):
            return v.x, v.args[0]
        if v.op == 'call' and v.x[0] in ('numpy.real', 'numpy.imag') and v.args:
            return v.x[0][6:], v.args[0]
        if v.op == 'call' and v.x[0] in REALF and len(v.args) == 1:
            return 'real', v.args[0]
        return None

    def core(self, v):
        """key of a quantity up to constant factors"""
        v = bare(v)
        while True:
            if v.op in ('bin', 'aug') and v.x in ('Mult', 'Div'):
                a, b = bare(v.args[0]), bare(v.args[1])
                if b.op == 'const':
                    v = a
                    continue
                if a.op == 'const' and v.x == 'Mult':
                    v = b
                    continue
            if v.op == 'un':
                v = bare(v.args[0])
                continue
            if v.op == 'call' and v.x[0] in CONJ | {'numpy.array'} and v.args:
                v = bare(v.args[0])
                continue
            return v.key

    def reduced(self, v, e):
        p = self.part(v)
        if p is None or v.op == 'call' and v.x[0] in ('builtins.int', 'numpy.real_if_close'):
            return
        x = p[1]
        if self.kind(x) != 'complex':
            return
        self.ck.count('values that can be complex')
        if self.justified(x, e, v):
            self.ck.ok('real parts of values that are real by construction or tested', getattr(e.fn, 'qual', self.fn.qual))
            return
        self.report('imaginary part dropped' if p[0] == 'real' else 'real part dropped', e, 'only the %s of %s is used, which can be complex' % ('real part' if p[0] == 'real' else 'imaginary part', show(bare(x), 4)))

    def justified(self, x, e, v=None):
        x = bare(x)
        if self.form(x):
            return True
        if len(self.parts.get(self.core(x), ())) == 2:
            return True
        if self.spectral(x):
            return True
        # diagonal elements of Hermitian matrices
        if self.prefactored(x) and any(self.samelabels(g, p) for g, p in e.guards):
            return True
        return v is not None and self.tested(v)

    def tested(self, v):
        """is the part only used to decide something?"""
        us = self.users().get(v.uid, ())
        out = True
        for u in us:
            if u.op == 'cmp' or u.op == 'un' and u.x == 'not' or u.op == 'bool':
                continue
            if u.op == 'call' and u.x[0] in ('numpy.abs', 'numpy.argsort', 'builtins.abs', 'numpy.max', 'numpy.linalg.norm') and self.part(v)[0] == 'imag':
                continue
            if u.op in ('call', 'mcall') and 'close' in str(u.x[0]):
                continue
            out = False
        return out and self.part(v)[0] == 'imag'

    def users(self):
        if not hasattr(self, '_users'):
            self._users = {}
            for v, e in self.vs:
                for a in v.args:
                    self._users.setdefault(a.uid, []).append(v)
                    b = bare(a)
                    if b.uid != a.uid:
                        self._users.setdefault(b.uid, []).append(v)
        return self._users

    def spectral(self, x):
        """eigenvalues of a general matrix"""
        x = bare(x)
        c = self.decomp(x)
        if c is not None:
            return c.x[0].split('.')[-1] in ('eig', 'eigs') and x.args[1].x == 0
        if x.op == 'item':
            return self.spectral(x.args[0])
        if x.op in ('join', 'elem'):
            return bool(x.args) and all(self.spectral(a) for a in x.args)
        return x.op == 'call' and x.x[0].split('.')[-1] == 'eigvals'

    def prefactored(self, x):
        return any(self.prefactor(f) for f, d in self.factors(x))

    def samelabels(self, g, p):
        g = bare(g)
        if g.op == 'un' and g.x == 'not':
            return self.samelabels(g.args[0], not p)
        if g.op == 'bool' and p:
            return any(self.samelabels(a, p) for a in g.args) if g.x == 'and' else False
        return g.op == 'cmp' and g.x == 'Eq' and p and len(g.args) == 2 and all(self.H.labels(a) for a in g.args)

    # ---- Hermitian forms -------------------------------------------------------------------------------------------------

    def form(self, x):
        """is x a sum of products that read the same from both ends (a Hermitian form), or of unknown matrices?"""
        x = bare(x)
        while x.op in ('item', 'mcall') and (x.op == 'item' and x.args[1].op == 'tuple' and all(is_const(a, 0) for a in x.args[1].args) or x.op == 'mcall' and x.x[0] in ('toarray', 'todense', 'tocsc', 'tocsr', 'copy', 'item')):
            x = bare(x.args[0])
        ns = self.alternatives(x)
        return bool(ns) and all(self.palindrome(n, x) for n in ns)

    def alternatives(self, x, depth=0):
        """normal forms of the alternatives of a product"""
        x = bare(x)
        if depth > 6:
            return []
        if x.op == 'join':
            return [n for a in x.args for n in self.alternatives(a, depth + 1)][:16]
        if (x.op == 'mcall' and x.x[0] in ('dot', 'matmul') or x.op == 'call' and x.x[0] in ('numpy.dot', 'numpy.matmul') or x.op == 'bin' and x.x == 'MatMult') and len(x.args) == 2:
            ps, qs = self.alternatives(x.args[0], depth + 1), self.alternatives(x.args[1], depth + 1)
            if len(ps) * len(qs) <= 16:
                return [n for p in ps for q in qs for n in (self.H.mul(p, q),) if n is not None]
        n = self.H.nf(x)
        return [n] if n is not None else []

    def palindrome(self, n, x):
        H = self.H
        if H.herm(x) == 'H':
            return True
        for (sc, fs), c in n.items():
            if len(fs) == 1:
                if H.atoms[fs[0][0]][0] == 'H':
                    continue
                if H.atoms[fs[0][0]][0] == 'N':
                    return False
                # a matrix of unknown symmetry next to products
                if len(n) == 1:
                    return False
                continue
            for i in range(len(fs) // 2):
                if H.adjf(fs[i]) != fs[-1 - i]:
                    return False
        return True

    # ---- products --------------------------------------------------------------------------------------------------------

    def product(self, v, e):
        o = v.op
        isdot = o == 'mcall' and v.x[0] in ('dot', 'matmul') and len(v.args) == 2 or o == 'call' and v.x[0] in DOTF and len(v.args) == 2 or o in ('bin', 'aug') and v.x == 'MatMult'
        if isdot:
            return self.contracted(v, e)
        if o == 'call' and v.x[0] in ('numpy.sum', 'builtins.sum') and v.args or o == 'mcall' and v.x[0] == 'sum' or o == 'call' and v.x[0] in ('numpy.sqrt', 'math.sqrt') and v.args:
            w = bare(v.args[0])
            self.squared(w, e, v)

    def squared(self, w, e, v):
        two = w.args if w.op == 'mcall' and w.x[0] == 'multiply' and len(w.args) == 2 or w.op == 'call' and w.x[0] == 'numpy.multiply' and len(w.args) == 2 or w.op == 'bin' and w.x == 'Mult' else None
        if two and bare(two[0]).key != bare(two[1]).key:
            a, b = bare(two[0]), bare(two[1])
            if (self.rank(a) == 2 or w.op == 'mcall') and self.kind(a) == 'complex' and self.kind(b) == 'complex' and not any(self.turned(x) for x in (a, b)):
                self.report('overlap without conjugation', e, 'the entries of two matrices, %s and %s, which can be complex, are multiplied and summed without conjugating one of them' % (show(a, 3), show(b, 3)))
                return
        if w.op in ('bin', 'aug') and (w.x == 'Pow' and is_const(w.args[1], 2) or w.x == 'Mult' and bare(w.args[0]).key == bare(w.args[1]).key) and self.kind(w.args[0]) == 'complex':
            self.report('square without conjugation', e, 'the square of %s, which can be complex, is summed without conjugating one factor' % show(bare(w.args[0]), 3))

    def turned(self, v, d=0):
        """conjugated somewhere on the way"""
        v = bare(v)
        if d > 8:
            return True
        if v.op in ('call', 'mcall') and v.x[0].split('.')[-1] in ('conj', 'conjugate', 'getH') or v.op == 'attr' and v.x == 'H':
            return True
        if v.op == 'join':
            return any(self.turned(a, d + 1) for a in v.args)
        return v.op in ('call', 'mcall', 'attr', 'item', 'bin', 'un') and any(self.turned(a, d + 1) for a in v.args[:2])

    def contracted(self, v, e):
        H = self.H
        a, b = v.args[0], v.args[1]
        if v.op == 'call' and v.x[0] == 'numpy.vdot':
            na, nb = H.nf(a), H.nf(b)
            n = None if na is None or nb is None else H.mul(H.adj(na), nb)
        else:
            n = H.nf(v)
        if n is None:
            return
        for (sc, fs), c in n.items():
            for i in range(len(fs) - 1):
                if fs[i][0] == fs[i + 1][0] and self.atomkind(fs[i][0]) is None:
                    self.own(fs[i], fs[i + 1], v, e, n)
                self.neighbours(fs[i], fs[i + 1], v, e, n)
            if len(fs) > 2 and fs[0][0] == fs[-1][0] and fs[0][1] != fs[-1][1] and fs[0][2] == fs[-1][2] and self.atomkind(fs[0][0]) == 'complex':
                self.report('product without conjugation', e, '%s multiplies a matrix with %s from both sides, transposed but not conjugated on one of them' % (H.shown(n), H.names.get(fs[0][0], '?')))

    def atomkind(self, key):
        if not hasattr(self, '_bykey'):
            self._bykey = {}
            for v, e in self.vs:
                self._bykey.setdefault(bare(v).key, bare(v))
        w = self._bykey.get(key)
        if self.H.atoms[key][1]:
            return 'real'
        if w is None:
            return None
        return self.kind(w)

    def atomvalue(self, key):
        self.atomkind(key)
        return self._bykey.get(key)

    def vectorlike(self, w):
        """one-dimensional?"""
        if w is None:
            return False
        return self.rank(w) == 1 or (w.op == 'param' and isinstance(w.x[1], str) and bool(re.match(r'(\w+_)?(vec|vector)\d*$', w.x[1])))

    def rank(self, v):
        v = bare(v)
        if v.op == 'item' and v.args[1].op == 'tuple' and len(v.args[1].args) == 2 and [bare(x).op == 'slice' for x in v.args[1].args].count(True) == 1:
            o = self.origin(v.args[0])
            if o and all(b.op == 'call' and b.x[0] in ALLOC for b in o) and not any(self.S.isarray(x) or self.S.islist(x) for x in v.args[1].args if bare(x).op != 'slice'):
                return 1
        a = self.S.axes(v)
        return len(a) if a is not None else None

    def row(self, w):
        """a one-dimensional array made into a matrix of one row"""
        w = bare(w)
        if w.op == 'join':
            return bool(w.args) and all(self.row(a) for a in w.args)
        if w.op == 'attr' and w.x == 'coeffs' or self.rank(w) == 1:
            return True
        if w.op == 'call' and (CONTAINER.match(w.x[0]) or w.x[0] in ('numpy.array', 'numpy.matrix', 'numpy.atleast_2d')) and w.args:
            a = bare(w.args[0])
            return a.op == 'attr' and a.x == 'coeffs' or self.rank(a) == 1 or a.op == 'new' or a.op == 'tuple' and bare(a.args[-1]).op not in ('tuple', 'new')
        return False

    def neighbours(self, f, g, v, e, n):
        H = self.H
        ka, kb = self.atomkind(f[0]), self.atomkind(g[0])
        if ka != 'complex' or kb != 'complex':
            return
        a, b = self.atomvalue(f[0]), self.atomvalue(g[0])
        both = f[2] == g[2]
        if self.vectorlike(a) and self.vectorlike(b):
            self.ck.count('inner products')
            if both:
                self.report('inner product without conjugation', e, 'the inner product %s conjugates %s of its factors' % (H.shown(n), 'both' if f[2] else 'none'))
            else:
                self.ck.ok('inner products conjugate one factor', getattr(e.fn, 'qual', self.fn.qual))
            return
        if f[1] == g[1] or self.row(a) and f[1] is False or self.row(b) and g[1] or self.row(a) or self.row(b):
            return
        self.ck.count('inner products')
        if both:
            self.report('product without conjugation', e, 'the product %s transposes one factor and conjugates %s of them' % (H.shown(n), 'both' if f[2] else 'none'))
        else:
            self.ck.ok('inner products conjugate one factor', getattr(e.fn, 'qual', self.fn.qual))

    def own(self, f, g, v, e, n):
        """the product of an array of unknown kind with its own transpose"""
        if self.fn.qual.split('.')[0] in GEOMETRY or f[1] == g[1]:
            return
        self.ck.count('inner products')
        if f[2] == g[2]:
            self.report('product without conjugation', e, 'the product %s transposes one factor and conjugates %s of them' % (self.H.shown(n), 'both' if f[2] else 'none'))
        else:
            self.ck.ok('inner products conjugate one factor', getattr(e.fn, 'qual', self.fn.qual))

    def flipped(self, v, e):
        """right singular vectors come transposed and conjugated"""
        b, t, c = self.chain(v)
        if not (t or c) or b is None:
            return
        if any(self.chain(u)[1] or self.chain(u)[2] for u in self.users().get(v.uid, ()) if self.link(u)):
            return
        if any(self.link(u) for u in self.users().get(v.uid, ())):
            return
        d = self.decomp(b)
        if d is None or d.x[0] not in SVD or not is_const(b.args[1], 2) or self.kind(d.args[0]) != 'complex':
            return
        self.ck.count('right singular vectors')
        if t != c:
            self.report('right singular vectors not conjugated', e, 'the right singular vectors are %s but not %s' % (('transposed', 'conjugated') if t else ('conjugated', 'transposed')))
        else:
            self.ck.ok('right singular vectors', getattr(e.fn, 'qual', self.fn.qual))

    def link(self, v):
        return v.op == 'attr' and v.x in ('T', 'H') or v.op == 'mcall' and v.x[0] in ('getH', 'transpose', 'conj', 'conjugate') and len(v.args) == 1 or v.op == 'call' and v.x[0] in CONJ | {'numpy.transpose'} and len(v.args) == 1

    def chain(self, v):
        t = c = False
        v = bare(v)
        while self.link(v):
            x = v.x if v.op == 'attr' else v.x[0].split('.')[-1]
            t ^= x in ('T', 'H', 'getH', 'transpose')
            c ^= x in ('H', 'getH', 'conj', 'conjugate')
            v = bare(v.args[0])
        return v, t, c

    # ---- orthogonalisation -----------------------------------------------------------------------------------------------

    def subtracted(self, v, e):
        """x - <q, x> q conjugates q"""
        if v.op not in ('bin', 'aug') or v.x != 'Sub' or len(v.args) < 2:
            return
        m = bare(v.args[1])
        if m.op not in ('bin', 'aug') or m.x != 'Mult':
            return
        for s, q in (m.args[:2], m.args[1::-1]):
            fs = self.scalarproduct(s)
            if fs is None:
                continue
            kq, kx = bare(q).key, bare(v.args[0]).key
            ks = {k: c for k, t, c in fs}
            if len(fs) == 2 and set(ks) == {kq, kx} and kq != kx and ks[kq] != ks[kx]:
                if self.kind(q) == 'complex' or self.kind(v.args[0]) == 'complex':
                    self.ck.count('orthogonalisations')
                    if not ks[kq]:
                        self.report('wrong factor conjugated', e, 'the coefficient of %s that is subtracted conjugates the other vector' % show(bare(q), 3))
                    else:
                        self.ck.ok('orthogonalisations', getattr(e.fn, 'qual', self.fn.qual))

    def scalarproduct(self, s):
        H = self.H
        s = bare(s)
        if s.op == 'item' and s.args[1].op == 'tuple' and all(is_const(a, 0) for a in s.args[1].args):
            s = bare(s.args[0])
        if s.op == 'call' and s.x[0] == 'numpy.vdot' and len(s.args) == 2:
            na, nb = H.nf(s.args[0]), H.nf(s.args[1])
            n = None if na is None or nb is None else H.mul(H.adj(na), nb)
        elif s.op == 'mcall' and s.x[0] == 'dot' or s.op == 'call' and s.x[0] in DOTF:
            n = H.nf(s)
        else:
            return None
        if n is None or len(n) != 1:
            return None
        (sc, fs), c = next(iter(n.items()))
        return fs
