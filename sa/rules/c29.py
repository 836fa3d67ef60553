"""C29: single-particle matrices hold the entries that the quadratic operator defines."""
import itertools

from ..common import *
from ..entries import variants
from ..interp import AnalysisError
from ..paths import flat, norm
from ..values import V, is_const, show
from .c28 import bare, closure, num, where

RULE = ('For each kind of term (letters, equal or different labels) the conditions in the loop over the terms are evaluated, and the entries that are put into the coordinate lists or the dense matrix '
        'on the path that remains are brought to normal form: row and column as linear forms in the labels and the number of orbitals, value as product of coefficient, prefactor, their conjugates '
        'and a number. As a set they must be the entries of the single-particle matrix: t at (i,j) and its conjugate at (j,i); for superconducting Hamiltonians also minus the conjugate in the hole block '
        'and the antisymmetric pairing; for Majorana modes the antisymmetric matrix with a_j at 2j and b_j at 2j+1. Terms that are not quadratic must end in an error. The blocks taken from the '
        'eigenvectors must be the particle and the hole rows of the same columns the energies are taken from, and the pair of columns that belongs to a negative value must be exchanged completely.')
ASSUME = ['diagonal terms of a Hermitian operator are real', 'a_j at 2j and b_j at 2j+1, particle rows before hole rows, as documented in the code',
          'fermionic strings stand for themselves plus the Hermitian conjugate']

LISTS = {'scipy.sparse.csr_matrix', 'scipy.sparse.coo_matrix', 'scipy.sparse.csc_matrix'}
DENSE = {'numpy.zeros', 'scipy.sparse.lil_matrix', 'scipy.sparse.dok_matrix'}
QUAL = 'diagonalization.'
ZERO = {}


def lin(d):
    return tuple(sorted(((k, v) for k, v in d.items() if v), key=str))


class Unknown(Exception):
    pass


class Scene:
    """one kind of term"""

    def __init__(self, I, L, letters, equal):
        self.I, self.L, self.letters, self.equal = I, L, letters, equal

    # ---- conditions and constants
    def ev(self, v, d=0):
        """the value of v if it is fixed by the kind of term, else Unknown"""
        v = bare(v)
        if d > 60:
            raise Unknown
        if v.op == 'const':
            return v.x
        if v.op == 'attr' and v.x == 'orbital_operators':
            return tuple(self.letters)
        if v.op == 'call' and v.x[0] == 'builtins.len' and v.args:
            a = bare(v.args[0])
            if a.op == 'attr' and a.x == 'orbital_labels' or self.string(a):
                return len(self.letters)
            return len(self.ev(a, d + 1))
        if v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple', 'numpy.array', 'numpy.copy', 'numpy.asarray') and v.args:
            return tuple(self.ev(v.args[0], d + 1))
        if v.op == 'call' and v.x[0] in ('builtins.str', 'builtins.int', 'builtins.bool', 'builtins.float') and v.args:
            return {'str': str, 'int': int, 'bool': bool, 'float': float}[v.x[0].split('.')[1]](self.ev(v.args[0], d + 1))
        if v.op == 'call' and v.x[0] in ('builtins.all', 'builtins.any') and v.args:
            raise Unknown
        if v.op == 'attr' and v.x == 'size' and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x in ('orbital_operators', 'orbital_labels'):
            return len(self.letters)
        if v.op == 'mcall' and v.x[0] in ('tolist', 'copy') and v.args:
            return tuple(self.ev(v.args[0], d + 1))
        if v.op in ('tuple', 'new') and not self.I.byobj.get(v.uid):
            return tuple(self.ev(a, d + 1) for a in (v.args if v.op == 'tuple' or v.args else self.I.objinit.get(v.uid) or self.fail()))
        if v.op == 'item':
            X, i = self.ev(v.args[0], d + 1), bare(v.args[1])
            if i.op == 'slice':
                return X[slice(*[None if not isinstance(a, V) else self.ev(a, d + 1) for a in i.args])]
            i = self.ev(i, d + 1)
            if isinstance(X, tuple) and isinstance(i, int) and -len(X) <= i < len(X):
                return X[i]
            raise Unknown
        if v.op == 'un':
            x = self.ev(v.args[0], d + 1)
            return (not x) if v.x == 'not' else -x if v.x in ('neg', 'USub') else self.fail()
        if v.op == 'bool':
            rest = False
            for a in v.args:
                try:
                    x = bool(self.ev(a, d + 1))
                except Unknown:
                    rest = True
                    continue
                if x != (v.x in ('and', 'And')):
                    return x
            if rest:
                raise Unknown
            return v.x in ('and', 'And')
        if v.op == 'cmp' and len(v.args) == 2:
            a, b = v.args
            try:
                la, lb = self.linear(a), self.linear(b)
                if v.x in ('Eq', 'NotEq') and any(k[0] == 'l' for f in (la, lb) for k, c in f if isinstance(k, tuple)):
                    diff = dict(la)
                    for k, c in lb:
                        diff[k] = diff.get(k, 0) - c
                    diff = {k: c for k, c in diff.items() if c}
                    if not diff:
                        return v.x == 'Eq'
                    if set(diff) == {('l', 0), ('l', 1)} and diff[('l', 0)] == -diff[('l', 1)]:
                        return v.x == 'NotEq'
                    raise Unknown
            except Unknown:
                pass
            x, y = self.ev(a, d + 1), self.ev(b, d + 1)
            if v.x == 'Eq' or v.x == 'Is':
                return x == y
            if v.x in ('NotEq', 'IsNot'):
                return x != y
            if v.x == 'In':
                return x in y
            if v.x == 'NotIn':
                return x not in y
            try:
                return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[v.x]
            except (TypeError, KeyError):
                raise Unknown
        if v.op == 'join':
            return self.ev(self.pick(v), d + 1)
        if v.op == 'bin':
            x, y = self.ev(v.args[0], d + 1), self.ev(v.args[1], d + 1)
            try:
                return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Mod': lambda: x % y}[v.x]()
            except (KeyError, TypeError):
                raise Unknown
        if v.op == 'mcall' and v.x[0] == 'count' and len(v.args) == 2:
            return self.ev(v.args[0], d + 1).count(self.ev(v.args[1], d + 1))
        raise Unknown

    def fail(self):
        raise Unknown

    def string(self, v):
        return v.op == 'item' and bare(v.args[0]).op == 'elem' and bare(v.args[0]).x == self.L.id and is_const(bare(v.args[1]), 1)

    def pick(self, v):
        """the alternative of a join"""
        yes, maybe = [], []
        for a, g in zip(v.args, v.x or ()):
            t = self.holds(g)
            if t is True:
                yes.append(a)
            elif t is None:
                maybe.append(a)
        if len(yes) == 1 and not maybe:
            return yes[0]
        if not yes and len(maybe) == 1:
            return maybe[0]
        keys = {bare(a).key for a in yes + maybe}
        if len(keys) == 1:
            return (yes + maybe)[0]
        raise Unknown

    def holds(self, gs):
        """True, False or None for a list of conditions"""
        r = True
        for c, p in gs or ():
            try:
                x = bool(self.ev(c))
            except (Unknown, TypeError, IndexError, AttributeError):
                r = None if r else r
                continue
            if x != p:
                return False
        return r

    # ---- rows and columns
    def linear(self, v, d=0):
        v = bare(v)
        if d > 40:
            raise Unknown
        if v.op == 'join':
            return self.linear(self.pick(v), d + 1)
        if v.op == 'item' and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x == 'orbital_labels':
            k = num(v.args[1])
            if k is None:
                k = self.ev(v.args[1])
            if not isinstance(k, int):
                raise Unknown
            if k < 0:
                k += len(self.letters)
            return lin({('l', 0 if self.equal else k): 1})
        if v.op == 'param' and v.x[1] == 'num_orbitals':
            return lin({'N': 1})
        if v.op == 'call' and v.x[0] in ('builtins.int', 'numpy.int64') and v.args:
            return self.linear(v.args[0], d + 1)
        try:
            x = self.ev(v)
            if isinstance(x, (bool, int)):
                return lin({1: int(x)})
        except (Unknown, TypeError, IndexError):
            pass
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            a, b = self.linear(v.args[0], d + 1), self.linear(v.args[1], d + 1)
            s = dict(a)
            for k, c in b:
                s[k] = s.get(k, 0) + (c if v.x == 'Add' else -c)
            return lin(s)
        if v.op in ('bin', 'aug') and v.x == 'Mult':
            for a, b in (v.args[:2], v.args[:2][::-1]):
                f = self.linear(a, d + 1)
                if all(k == 1 for k, c in f):
                    n = dict(f).get(1, 0)
                    return lin({k: c * n for k, c in self.linear(b, d + 1)})
        raise Unknown

    # ---- values
    def value(self, v, d=0):
        """(number, sorted atoms)"""
        v = bare(v)
        if d > 60:
            raise Unknown
        if v.op == 'join':
            return self.value(self.pick(v), d + 1)
        if v.op == 'const' and isinstance(v.x, (int, float, complex)) and not isinstance(v.x, bool):
            return complex(v.x), ()
        if v.op == 'item' and bare(v.args[0]).op == 'elem' and bare(v.args[0]).x == self.L.id and is_const(bare(v.args[1]), 0) or \
                v.op == 'item' and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x == 'coeffs':
            return 1 + 0j, (('c', 0),)
        if v.op == 'attr' and v.x == 'prefactor':
            return 1 + 0j, (('p', 0),)
        if v.op == 'un' and v.x in ('neg', 'USub'):
            f, a = self.value(v.args[0], d + 1)
            return -f, a
        if v.op in ('bin', 'aug') and v.x == 'Mult':
            (f, a), (g, b) = self.value(v.args[0], d + 1), self.value(v.args[1], d + 1)
            return f * g, tuple(sorted(a + b))
        if v.op in ('bin', 'aug') and v.x == 'Div':
            (f, a), (g, b) = self.value(v.args[0], d + 1), self.value(v.args[1], d + 1)
            if b or not g:
                raise Unknown
            return f / g, a
        if v.op == 'call' and v.x[0] in ('numpy.conj', 'numpy.conjugate') or v.op == 'mcall' and v.x[0] in ('conj', 'conjugate'):
            f, a = self.value(v.args[0], d + 1)
            return f.conjugate(), tuple(sorted((n, 1 - c if n in ('c', 'p') else c) for n, c in a))
        if v.op == 'call' and v.x[0] in ('numpy.real', 'numpy.imag') or v.op == 'attr' and v.x in ('real', 'imag'):
            part = 'Re' if 'real' in (v.x[0] if v.op == 'call' else v.x) else 'Im'
            f, a = self.value(v.args[0], d + 1)
            if f.imag:
                if f.real:
                    raise Unknown
                part, f = ('Im' if part == 'Re' else 'Re'), (-f.imag if part == 'Re' else f.imag)
            return complex(f), ((part, a),)
        if v.op == 'call' and v.x[0] in ('numpy.abs', 'builtins.abs', 'numpy.absolute') and v.args:
            f, a = self.value(v.args[0], d + 1)
            return complex(abs(f)), (('Abs', a),) if a else ()
        if v.op == 'mu' and v.x[0] == self.L.id:
            return 1 + 0j, (('carried', ((v.x[1], 0),)),)
        if v.op == 'call' and v.x[0] in ('builtins.complex', 'builtins.float') and len(v.args) == 1:
            return self.value(v.args[0], d + 1)
        try:
            x = self.ev(v)
            if isinstance(x, (int, float, complex)) and not isinstance(x, bool):
                return complex(x), ()
        except (Unknown, TypeError, IndexError):
            pass
        raise Unknown


def real(nf):
    """the normal form when the value is known to be real"""
    f, a = nf
    out = []
    for n, c in a:
        if n == 'Re':
            out += [(m, 0) for m, k in c]
        elif n not in ('c', 'p'):
            out.append((n, c))
        else:
            out.append((n, 0))
    return f, tuple(sorted(out, key=str))


def atoms(f, nf):
    f0, a = nf
    return (f * f0, a)


T = (1 + 0j, (('c', 0), ('p', 0)))
TC = (1 + 0j, (('c', 1), ('p', 1)))


def neg(nf):
    return -nf[0], nf[1]


def at(l, N=0, k=1, s=0):
    d = {('l', l): k}
    if N:
        d['N'] = N
    if s:
        d[1] = s
    return lin(d)


def tb(letters, equal):
    if letters == ('CDag', 'C'):
        if equal:
            return {(at(0), at(0)): T}
        return {(at(0), at(1)): T, (at(1), at(0)): TC}
    return None


def bdg(letters, equal):
    if letters == ('CDag', 'C'):
        if equal:
            return {(at(0), at(0)): T, (at(0, 1), at(0, 1)): neg(T)}
        return {(at(0), at(1)): T, (at(1), at(0)): TC, (at(0, 1), at(1, 1)): neg(TC), (at(1, 1), at(0, 1)): neg(T)}
    if letters == ('CDag', 'CDag') and not equal:
        return {(at(0), at(1, 1)): T, (at(1), at(0, 1)): neg(T), (at(0, 1), at(1)): neg(TC), (at(1, 1), at(0)): TC}
    return None


def maj(letters, equal):
    R = lambda f: (complex(f), (('Re', (('c', 0),)),))
    if letters == ('D',):
        a, b = at(0, k=2), at(0, k=2, s=1)
        return {(a, b): R(-2), (b, a): R(2)}
    if len(letters) == 2 and set(letters) <= {'A', 'B'} and not equal:
        a, b = at(0, k=2, s=int(letters[0] == 'B')), at(1, k=2, s=int(letters[1] == 'B'))
        return {(a, b): R(2), (b, a): R(-2)}
    return None


# words of ladder operators in normal order and of Majorana letters in any order, up to six and four letters
FERMION = [("CDag",) * m + ("C",) * n for m in range(5) for n in range(5) if 0 < m + n <= 6]
MAJORANA = [w for k in range(1, 5) for w in itertools.product('ABD', repeat=k)]
WORDS = {'diagonalize_quadratic_tightbinding': (tb, [('CDag', 'C')], [w for w in FERMION if w not in {('CDag', 'C')}]),
         'diagonalize_bdg': (bdg, [('CDag', 'C'), ('CDag', 'CDag')], [w for w in FERMION if w not in {('CDag', 'C'), ('CDag', 'CDag')}]),
         'diagonalize_quadratic': (maj, [('D',), ('A', 'A'), ('A', 'B'), ('B', 'A'), ('B', 'B')], [w for w in MAJORANA if w != ('D',) and (len(w) != 2 or 'D' in w)])}


class Matrix:
    def __init__(self, ck, r, name):
        self.ck, self.I, self.fn, self.name = ck, r.I, r.fn, name

    def bad(self, rule, e, msg):
        self.ck.bad(rule, self.fn.qual, e.where if hasattr(e, 'where') else where(self.fn, e.node if e is not None and getattr(e, 'node', None) is not None else self.fn.node), '%s: %s' % (self.fn.qual, msg))

    def eigenargs(self):
        """matrices handed to the eigensolvers"""
        out = {}
        for e in self.I.trace:
            if e.kind == 'call' and e.x[0] in ('numpy.linalg.eigh', 'scipy.sparse.linalg.eigsh', 'scipy.linalg.eigh', 'scipy.linalg.schur', 'numpy.linalg.eigvalsh') and e.args:
                v = bare(e.args[0])
                while v.op == 'mcall' and v.x[0] in ('toarray', 'todense', 'tocsr', 'tocsc', 'copy') or v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.asarray', 'scipy.sparse.csr_matrix') and bare(v.args[0]).op != 'tuple':
                    v = bare(v.args[0])
                out.setdefault(v.key, (v, e))
        return list(out.values())

    def check(self):
        expect, words, foreign = WORDS[self.name]
        found = False
        for M, e in self.eigenargs():
            parts = self.parts(M)
            if parts is None:
                self.ck.unsure('matrix not opened', show(M, 3))
                continue
            found = True
            loops = {L.id: L for x in parts['events'] for L in x.loops[:1] if L.kind == 'for'}
            if len(loops) != 1:
                self.ck.unsure('loops over the terms', self.fn.qual)
                continue
            L = next(iter(loops.values()))
            for letters in words:
                for equal in ((False, True) if len(letters) == 2 else (True,)):
                    want = expect(letters, equal)
                    if want is not None:
                        self.scene(Scene(self.I, L, letters, equal), parts, want, L)
            for letters in foreign:
                self.rejected(Scene(self.I, L, letters, False), parts, L, letters)
        if not found:
            self.ck.unsure('matrix not opened', self.fn.qual)

    def parts(self, M):
        if M.op == 'call' and M.x[0] in LISTS and M.args and bare(M.args[0]).op == 'tuple' and len(bare(M.args[0]).args) == 2:
            d, rc = (bare(x) for x in bare(M.args[0]).args)
            if rc.op != 'tuple' or len(rc.args) != 2:
                return None
            lists = [d] + [bare(x) for x in rc.args]
            if not all(x.op == 'new' for x in lists):
                return None
            ev = [e for e in self.I.trace if e.kind in ('method', 'aug_name') and e.args and bare(e.args[0]).uid in {x.uid for x in lists} and (e.kind == 'aug_name' or e.x in ('append', 'extend'))]
            other = [e for e in self.I.byobj.get(lists[0].uid, ()) if e.kind in ('store_item', 'aug_item')]
            if other:
                return None
            return {'lists': [x.uid for x in lists], 'events': ev} if ev else None
        if M.op == 'call' and M.x[0] in DENSE:
            ev = [e for e in self.I.trace if e.kind in ('store_item', 'aug_item') and e.args and bare(e.args[0]).uid == M.uid or e.kind in ('store_item', 'aug_item') and e.args and bare(e.args[0]).key == M.key]
            return {'dense': True, 'events': ev} if ev else None
        return None

    def entries(self, S, parts, L):
        """[(row, column, value, event)] on the path of this kind of term; None if it cannot be told"""
        cols = {u: [] for u in parts.get('lists', ())}
        out = []
        for e in parts['events']:
            if L not in e.loops:
                return None
            t = S.holds(e.guards[len(L.guards):])
            if t is False:
                continue
            if t is None:
                return None
            if e.loops[-1] is not L:
                return None
            if 'dense' in parts:
                i = bare(e.args[1])
                if i.op != 'tuple' or len(i.args) != 2:
                    return None
                out.append((S.linear(i.args[0]), S.linear(i.args[1]), S.value(e.args[2]), e))
                continue
            if e.kind == 'method' and e.x == 'append':
                cols[bare(e.args[0]).uid].append((e.args[1], e))
            else:
                a = bare(e.args[1])
                if a.op not in ('new', 'tuple') or a.op == 'new' and (self.I.byobj.get(a.uid) or not isinstance(self.I.objinit.get(a.uid), list)):
                    return None
                cols[bare(e.args[0]).uid] += [(x, e) for x in (a.args if a.op == 'tuple' else self.I.objinit[a.uid])]
        if 'dense' in parts:
            return out
        d, r, c = (cols[u] for u in parts['lists'])
        if not len(d) == len(r) == len(c):
            return None
        return [(S.linear(y), S.linear(z), S.value(x), e) for (x, e), (y, _), (z, _) in zip(d, r, c)]

    def scene(self, S, parts, want, L):
        ck = self.ck
        title = '%s term%s' % (' '.join(S.letters), ' on one orbital' if S.equal and len(S.letters) > 1 else '')
        try:
            got = self.entries(S, parts, L)
        except (Unknown, TypeError, IndexError, AttributeError):
            got = None
        if got is None:
            ck.unsure('entries not opened', '%s %s' % (self.fn.qual, title))
            return
        fix = real if S.equal and len(S.letters) == 2 or self.name == 'diagonalize_quadratic' else (lambda x: x)
        if self.name == 'diagonalize_quadratic':
            # the prefactor of a Majorana string is contained in the convention of the matrix
            if any(n == 'p' for r, c, v, e in got for n, k in v[1]):
                ck.unsure('entries not opened', '%s %s' % (self.fn.qual, title))
                return
        table = {}
        for r, c, v, e in got:
            table.setdefault((r, c), []).append((fix(v), e))
        show_ = lambda rc: '(%s, %s)' % tuple(' + '.join(('' if k == 1 else '%s*' % k if n != 1 else str(k)) + ('' if n == 1 else 'N' if n == 'N' else 'ij'[n[1]] if n[1] < 2 else '?') if not (n == 1 and k == 1) else '1' for n, k in f) or '0' for f in rc)
        any_e = got[0][3] if got else None
        if not got:
            raised = [e for e in self.I.trace if e.kind == 'raise' and L in e.loops and S.holds(e.guards[len(L.guards):]) is not False]
            if raised:
                self.bad('quadratic term rejected', raised[0], 'a %s is rejected' % title)
            else:
                self.bad('entries missing', L, 'a %s is left out of the matrix' % title)
            return
        for rc, w in want.items():
            if rc not in table:
                self.bad('entries missing', any_e, 'a %s has no entry at %s' % (title, show_(rc)))
                return
            vs = table[rc]
            if len(vs) > 1:
                self.bad('wrong entries', vs[1][1], 'a %s is entered more than once at %s' % (title, show_(rc)))
                return
            (f, a), e = vs[0]
            wf, wa = fix(w)
            if a != wa or abs(f - wf) > 1e-12:
                self.bad('wrong entries', e, 'a %s is entered at %s as %s instead of %s' % (title, show_(rc), text((f, a)), text((wf, wa))))
                return
        extra = set(table) - set(want)
        if extra:
            rc = sorted(extra)[0]
            self.bad('wrong entries', table[rc][0][1], 'a %s has an entry at %s that does not belong to it' % (title, show_(rc)))
            return
        if parts.get('dense') and any(e.kind == 'store_item' for r, c, v, e in got):
            self.bad('entries overwritten', got[0][3], 'the entries of several terms on the same orbitals replace one another instead of being added')
            return
        ck.ok('kinds of terms', '%s: %s' % (self.fn.qual, title))

    def rejected(self, S, parts, L, letters):
        ck = self.ck
        sure, maybe = [], []
        for e in self.I.trace:
            if e.kind == 'raise' and L in e.loops:
                t = S.holds(e.guards[len(L.guards):])
                (sure if t else maybe if t is None else []).append(e)
        if sure:
            ck.ok('terms that are not quadratic are rejected', '%s: %s' % (self.fn.qual, ' '.join(letters)))
        elif maybe:
            ck.unsure('rejection', '%s: %s' % (self.fn.qual, ' '.join(letters)))
        elif any(e.kind == 'raise' and L in e.loops and e.loops[-1] is not L for e in self.I.trace):
            ck.unsure('rejection', '%s: %s' % (self.fn.qual, ' '.join(letters)))
        else:
            self.bad('not quadratic', L, 'a term with the letters %s is accepted without an error' % ' '.join(letters))


def text(nf):
    f, a = nf
    s = []
    for n, c in a:
        s.append({'c': 'coefficient', 'p': 'prefactor'}.get(n, n) + ('*' if c == 1 else '') if n in ('c', 'p') else '%s(%s)' % (n, ' '.join(m for m, k in c)))
    return ('%g ' % f.real if not f.imag else '(%s) ' % f) + ' '.join(s)


# ---- what is taken from the eigenvectors
def half(v):
    """a bound of a slice as linear form in the number of orbitals"""
    v = bare(v)
    if v.op == 'const':
        return 'none' if v.x is None else lin({1: v.x}) if isinstance(v.x, int) else None
    if v.op == 'param' and v.x[1] == 'num_orbitals':
        return lin({'N': 1})
    if v.op == 'bin' and v.x == 'Mult':
        for a, b in (v.args, v.args[::-1]):
            n, f = num(a), half(b)
            if n is not None and f not in (None, 'none'):
                return lin({k: c * n for k, c in f})
    if v.op == 'bin' and v.x in ('Add', 'Sub'):
        a, b = half(v.args[0]), half(v.args[1])
        if None in (a, b) or 'none' in (a, b):
            return None
        d = dict(a)
        for k, c in b:
            d[k] = d.get(k, 0) + (c if v.x == 'Add' else -c)
        return lin(d)
    return None


FULL = 'full'


def interval(s, size):
    """slice -> (lo, hi), size = the length of the axis"""
    s = bare(s)
    if s.op != 'slice':
        return None
    a = [x if isinstance(x, V) else None for x in s.args]
    lo = half(a[0]) if a and a[0] is not None else 'none'
    hi = half(a[1]) if len(a) > 1 and a[1] is not None else 'none'
    st = half(a[2]) if len(a) > 2 and a[2] is not None else 'none'
    if None in (lo, hi) or st not in ('none', lin({1: 1})):
        return None
    lo = () if lo == 'none' else lo
    hi = size if hi == 'none' else hi
    return lo, hi


class Blocks(Matrix):
    """diagonalize_bdg: energies, U, V"""

    def taken(self, v, axes):
        """(rows, columns) or (entries,) taken from the sorted result of the eigensolver"""
        two = lin({'N': 2})
        v = bare(v)
        sel = []
        while True:
            v = bare(v)
            if v.op == 'item':
                i = bare(v.args[1])
                sel.append(i)
                v = v.args[0]
                if bare(v).op in ('join', 'call'):
                    pass
                continue
            break
        out = [((), two)] * axes
        for i in reversed(sel):
            parts = [bare(x) for x in i.args] if i.op == 'tuple' else [i]
            if i.op == 'const':
                continue
            for ax, s in enumerate(parts):
                if ax >= axes:
                    return None
                if s.op == 'slice':
                    lo, hi = out[ax]
                    d = dict(hi)
                    for k, c in lo:
                        d[k] = d.get(k, 0) - c
                    x = interval(s, lin(d))
                    if x is None:
                        return None
                    a, b = x
                    add = lambda f: lin({k: dict(f).get(k, 0) + dict(lo).get(k, 0) for k in set(dict(f)) | set(dict(lo))})
                    out[ax] = (add(a), add(b))
                elif any(w.op == 'call' and w.x[0] == 'numpy.argsort' for w in closure(s, 50)):
                    continue
                else:
                    return None
        return out

    def check(self):
        ck = self.ck
        N, two = lin({'N': 1}), lin({'N': 2})
        for v, g, n, s in self.I.returns:
            v = bare(v)
            if v.op != 'tuple' or len(v.args) != 3:
                ck.unsure('blocks', show(v, 2))
                continue
            E, U, W = (bare(x) for x in v.args)
            positive = False
            if E.op == 'call' and E.x[0] in ('numpy.abs', 'builtins.abs', 'numpy.absolute') or E.op == 'un':
                positive = True
                E = bare(E.args[0])
            e, u, w = self.taken(E, 1), self.taken(U, 2), self.taken(W, 2)
            if u is None or w is None or e is None:
                ck.unsure('blocks', self.fn.qual)
                continue

            class At:
                node = n
            if u[0] != ((), N):
                self.bad('wrong block', At, 'the particle components are not the first half of the rows of the eigenvectors')
            elif w[0] != (N, two):
                self.bad('wrong block', At, 'the hole components are not the second half of the rows of the eigenvectors')
            elif not u[1] == w[1] == e[0]:
                self.bad('wrong block', At, 'energies, particle components and hole components are taken from different eigenvectors')
            elif e[0] == ((), N) and not positive:
                self.bad('wrong block', At, 'the lower half of the energies is returned with its negative sign')
            else:
                ck.ok('blocks of the eigenvectors', self.fn.qual)


class Swap(Matrix):
    """diagonalize_quadratic: sign of the values and exchange of the columns"""

    def pos(self, v, X=None):
        """(factor of the loop index, constant) of the row and column read from the Schur form"""
        out = []
        for a in v:
            a = bare(a)
            if a.op == 'slice':
                out.append('all')
                continue
            f = self.lin(a)
            if f is None:
                return None
            out.append(f)
        return tuple(out)

    def lin(self, v):
        v = bare(v)
        if v.op == 'idx':
            return (1, 0) if len(v.args) == 1 else None
        n = num(v)
        if n is not None:
            return (0, n)
        if v.op == 'bin' and v.x in ('Add', 'Sub'):
            a, b = self.lin(v.args[0]), self.lin(v.args[1])
            if a is None or b is None:
                return None
            s = 1 if v.x == 'Add' else -1
            return (a[0] + s * b[0], a[1] + s * b[1])
        if v.op == 'bin' and v.x == 'Mult':
            for a, b in (v.args, v.args[::-1]):
                k, f = num(a), self.lin(b)
                if k is not None and f is not None:
                    return (f[0] * k, f[1] * k)
        return None

    def schur(self, v, which):
        """v is part of result number `which` of the Schur decomposition"""
        v = bare(v)
        return v.op == 'item' and is_const(bare(v.args[1]), which) and bare(v.args[0]).op == 'call' and bare(v.args[0]).x[0] == 'scipy.linalg.schur'

    def entry(self, v):
        """(sign, position) of an entry of the quasi-triangular matrix"""
        v = bare(v)
        if v.op == 'un' and v.x in ('neg', 'USub'):
            x = self.entry(v.args[0])
            return None if x is None else (-x[0], x[1])
        if v.op == 'call' and v.x[0] in ('builtins.float', 'numpy.real') and v.args:
            return self.entry(v.args[0])
        if v.op == 'item' and self.schur(v.args[0], 0) and bare(v.args[1]).op == 'tuple':
            p = self.pos(bare(v.args[1]).args)
            return None if p is None else (1, p)
        return None

    def check(self):
        ck, I = self.ck, self.I
        UP, DN = ((2, 0), (2, 1)), ((2, 1), (2, 0))
        first = None
        for e in I.trace:
            if e.kind == 'method' and e.x == 'append' and len(e.args) > 1:
                x = self.entry(e.args[1])
                if x is not None:
                    first = x
                    if x[1] not in (UP, DN):
                        self.bad('wrong entries', e, 'the energies are not the off-diagonal entries of the 2x2 blocks')
                    else:
                        ck.ok('entries of the blocks', self.fn.qual)
        swaps = []
        for e in I.trace:
            if e.kind == 'store_item' and e.loops and len(e.args) > 2 and self.schur(e.args[0], 1) and bare(e.args[1]).op == 'tuple':
                to = self.pos(bare(e.args[1]).args)
                src, copied = bare(e.args[2]), False
                while src.op == 'call' and src.x[0] in ('numpy.copy', 'numpy.array', 'copy.copy', 'copy.deepcopy') or src.op == 'mcall' and src.x[0] == 'copy':
                    src, copied = bare(src.args[0]), True
                if src.op == 'item' and self.schur(src.args[0], 1) and bare(src.args[1]).op == 'tuple' and to is not None:
                    fr = self.pos(bare(src.args[1]).args)
                    swaps.append((e, to, fr, copied, src))
                else:
                    ck.unsure('exchange of columns', show(e.args[2], 3))
            if e.kind == 'store_item' and len(e.args) > 2 and first is not None:
                x = self.entry(e.args[2])
                if x is not None and e.loops:
                    (s, p), (s0, p0) = x, first
                    # the new value is minus the old one: T antisymmetric
                    same = (p == p0)
                    if p in (UP, DN) and p0 in (UP, DN):
                        if (s * s0 if same else -s * s0) != -1:
                            self.bad('wrong sign', e, 'the sign of a negative value is not changed when its columns are exchanged')
                        else:
                            ck.ok('negative values are replaced', self.fn.qual)
                    else:
                        self.bad('wrong entries', e, 'a value is replaced by an entry that does not belong to its block')
        if swaps:
            dest = {t: f for e, t, f, c, s in swaps}
            A, B = ('all', (2, 0)), ('all', (2, 1))
            if any(f is None for f in dest.values()):
                ck.unsure('exchange of columns', self.fn.qual)
            elif set(dest) != {A, B} or dest[A] != B or dest[B] != A:
                self.bad('columns not exchanged', swaps[0][0], 'the two columns of a block are not exchanged with one another')
            else:
                e, t, f, c, s = swaps[-1]
                e0, t0, f0, c0, s0 = swaps[0]
                if f == t0 and not c and e is not e0 and getattr(e.node, 'lineno', 0) != getattr(e0.node, 'lineno', 0):
                    self.bad('columns not exchanged', e, 'the second column is filled from a view of the first one, which was overwritten before')
                else:
                    ck.ok('columns exchanged', self.fn.qual)
        for v, g, n, s in I.returns:
            v = bare(v)
            if v.op == 'tuple' and len(v.args) == 4:
                c, E = bare(v.args[0]), bare(v.args[1])
                f, w = 1.0, c
                while w.op == 'bin' and w.x in ('Mult', 'Div') or w.op == 'un' and w.x in ('neg', 'USub'):
                    if w.op == 'un':
                        f, w = -f, bare(w.args[0])
                    elif num(w.args[1]) is not None:
                        k = num(w.args[1])
                        f, w = (f * k if w.x == 'Mult' else f / k), bare(w.args[0])
                    elif w.x == 'Mult' and num(w.args[0]) is not None:
                        f, w = f * num(w.args[0]), bare(w.args[1])
                    else:
                        break
                if (w.op == 'call' and w.x[0] in ('numpy.sum', 'builtins.sum') or w.op == 'mcall' and w.x[0] == 'sum') and bare(w.args[0]).key == E.key:
                    class At:
                        node = n
                    if abs(f + 0.5) > 1e-12:
                        self.bad('ground state energy', At, 'the energy of the ground state is %g times the sum of the energies instead of -1/2 times' % f)
                    else:
                        ck.ok('ground state energy', self.fn.qual)
                else:
                    ck.unsure('ground state energy', show(c, 3))


class Modes(Swap):
    """diagonalize_quadratic: the modes written in the operators c_1 .. c_N, c_1^dagger .. c_N^dagger"""
    N = 3

    def number(self, v, env, d=0):
        v = bare(v)
        if d > 30:
            raise Unknown('depth')
        if v.op == 'idx' and v.x[0] in env:
            return env[v.x[0]]
        if v.op == 'elem' and v.x in env:
            return env[v.x]
        n = num(v)
        if n is not None:
            return n
        if v.op == 'param' and v.x[1] == 'num_orbitals':
            return self.N
        if v.op == 'call' and v.x[0] == 'builtins.int' and len(v.args) == 1:
            return self.number(v.args[0], env, d + 1)
        if v.op == 'bin' and v.x in ('Add', 'Sub', 'Mult', 'FloorDiv'):
            a, b = (self.number(x, env, d + 1) for x in v.args)
            return a + b if v.x == 'Add' else a - b if v.x == 'Sub' else a * b if v.x == 'Mult' else a // b
        raise Unknown(show(v, 3))

    def combination(self, v, env, d=0):
        """{entry of the orthogonal matrix: factor}"""
        v = bare(v)
        if d > 40:
            raise Unknown('depth')
        if v.op == 'item' and self.schur(v.args[0], 1) and bare(v.args[1]).op == 'tuple' and len(bare(v.args[1]).args) == 2:
            return {tuple(self.number(x, env) for x in bare(v.args[1]).args): 1}
        if v.op == 'un' and v.x in ('neg', 'USub'):
            return {k: -c for k, c in self.combination(v.args[0], env, d + 1).items()}
        if v.op == 'call' and v.x[0] in ('numpy.conj', 'numpy.conjugate') or v.op == 'mcall' and v.x[0] in ('conj', 'conjugate'):
            return {k: complex(c).conjugate() for k, c in self.combination(v.args[0], env, d + 1).items()}
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            a, b = (self.combination(x, env, d + 1) for x in v.args)
            out = dict(a)
            for k, c in b.items():
                out[k] = out.get(k, 0) + (c if v.x == 'Add' else -c)
            return out
        if v.op in ('bin', 'aug') and v.x in ('Mult', 'Div'):
            for a, b in (v.args, v.args[::-1]) if v.x == 'Mult' else (v.args[::-1],):
                k, t = bare(a), 1
                while k.op == 'un' and k.x in ('neg', 'USub'):
                    k, t = bare(k.args[0]), -t
                k = k.x * t if k.op == 'const' and type(k.x) in (int, float, complex) else num(a)
                if k is not None and k != 0:
                    return {q: c * k if v.x == 'Mult' else c / k for q, c in self.combination(b, env, d + 1).items()}
        if v.op == 'item' and bare(v.args[0]).op == 'new' and bare(v.args[0]).x != 'dict':
            raise Unknown('entry written before')
        raise Unknown(show(v, 3))

    def check(self):
        ck, I, N = self.ck, self.I, self.N
        for v, g, n, s in I.returns:
            v = bare(v)
            if v.op != 'tuple' or len(v.args) != 4:
                continue
            M = bare(v.args[2])
            evs = [e for e in I.trace if e.kind in ('store_item', 'aug_item') and len(e.args) > 2 and bare(e.args[0]).uid == M.uid]
            if not evs:
                ck.unsure('modes in fermionic operators', self.fn.qual)
                continue
            table, writer = {}, {}
            try:
                if M.op != 'call' or M.x[0] != 'numpy.zeros' or any(e.kind != 'store_item' for e in evs):
                    raise Unknown('matrix')
                nests = {tuple(l.id for l in e.loops) for e in evs}
                if len(nests) > 1 and {k for t in nests for k in t} and any(set(a) & set(b) and a != b for a in nests for b in nests):
                    raise Unknown('loops')
                groups = []
                for e in evs:
                    if groups and [l.id for l in groups[-1][0].loops] == [l.id for l in e.loops]:
                        groups[-1].append(e)
                    else:
                        groups.append([e])
                for grp in groups:
                    envs = [{}]
                    for l in grp[0].loops:
                        it = bare(l.iter) if l.iter is not None else None
                        if l.kind not in ('for', 'comp') or it is None or it.op != 'call' or it.x[0] != 'builtins.range' or l.brk:
                            raise Unknown('loop')
                        envs = [{**q, l.id: x} for q in envs for x in range(*[self.number(a, q) for a in it.args])]
                    for env in envs:
                        for e in grp:
                            if len(e.guards) > len(e.loops[-1].guards if e.loops else ()):
                                raise Unknown('condition')
                            ix = bare(e.args[1])
                            if ix.op != 'tuple' or len(ix.args) != 2:
                                raise Unknown('index')
                            k = tuple(self.number(a, env) for a in ix.args)
                            table[k] = {q: complex(c) for q, c in self.combination(e.args[2], env).items() if c}
                            writer.setdefault(k, []).append((e, env))
            except Unknown as u:
                ck.unsure('modes in fermionic operators', str(u))
                continue
            ck.count('mode vectors')

            class At:
                node = n
            wrong = None
            for m in range(N):
                for k in range(N):
                    a, b, c, d = (2 * m, 2 * k), (2 * m, 2 * k + 1), (2 * m + 1, 2 * k), (2 * m + 1, 2 * k + 1)
                    want = {(m, k): {a: .5, b: .5j, c: -.5j, d: .5}, (N + m, k): {a: .5, b: .5j, c: .5j, d: -.5},
                            (m, N + k): {a: .5, b: -.5j, c: -.5j, d: -.5}, (N + m, N + k): {a: .5, b: -.5j, c: .5j, d: .5}}
                    for p, w in want.items():
                        have = table.get(p)
                        if have is None or set(have) != set(w) or any(abs(have[q] - w[q]) > 1e-12 for q in w):
                            wrong = wrong or (p, m, k, have)
            if wrong is None and any(len(x) > 1 for x in writer.values()):
                wrong = wrong or (next(k for k, x in writer.items() if len(x) > 1), 0, 0, None)
            if wrong:
                p, m, k, have = wrong
                e = writer[p][-1][0] if p in writer else At
                what = 'the amplitude of %s_%d in the %s operator of mode %d' % (('c', 'c^dagger')[p[0] >= N], m, ('annihilation', 'creation')[p[1] >= N], k)
                self.bad('wrong mode vectors', e, '%s, entry %s for %d orbitals, %s' % (what, p, N, 'is never written' if have is None and p not in writer else 'is written more than once' if len(writer.get(p, ())) > 1 else 'is not the one that follows from c = (a + i b)/2 and the real mode vectors'))
            else:
                ck.ok('modes in fermionic operators', self.fn.qual)


def run(ck):
    ctx = ck.ctx
    for name in WORDS:
        fn = ctx.prog.find(QUAL + name)
        if fn is None:
            ck.need(None, QUAL + name)
            continue
        base = {f.qual for f in ctx.prog.functions() if not ctx.prog.helper(f) and f.qual != fn.qual}
        for i, tys in enumerate(variants(fn)):
            try:
                r = ctx.run_one(fn, tys, i, opaque=base)
                Matrix(ck, r, name).check()
                if name == 'diagonalize_bdg':
                    Blocks(ck, r, name).check()
                if name == 'diagonalize_quadratic':
                    Swap(ck, r, name).check()
                    Modes(ck, r, name).check()
            except (AnalysisError, RecursionError) as e:
                ctx.failures.append('%s: %s' % (fn.qual, e))
    ck.floor('kinds of terms', 6)
