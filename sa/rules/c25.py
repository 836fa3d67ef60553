"""C25: spin configurations are written in one bit layout, and strings act on them as their letters say."""
from ..entries import variants
from ..interp import AnalysisError
from ..summary import bare
from ..values import V, is_const, show
from .c18 import where

RULE = ('Bit positions are reduced to linear forms over the number of orbitals and the label. For every loop over the letters of a string the effect of one pass on the configuration and on the coefficient is evaluated for '
        'each letter and each value of the bit and compared with the Pauli matrices; for every loop that copies bits, the position that is read and the position that is written are compared with the permutation or with '
        'the place of the orbital in its subsystem. Matrix elements are stored at (new, old) configuration; density matrices sum over the orbitals that are not kept; the entropy and overlap formulas are compared in normal form.')
ASSUME = ['a string has at most one letter per label', 'the first orbital is the most significant bit and a set bit is spin down, as in the matrices of the existing strings']

PASS = {'builtins.int', 'builtins.bool', 'numpy.int64', 'numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple', 'numpy.int_', 'operator.index', 'builtins.float', 'builtins.complex', 'builtins.range'}
PAULI = {'X': {0: (1, 1), 1: (1, 0)}, 'Y': {0: (1j, 1), 1: (-1j, 0)}, 'Z': {0: (1, 0), 1: (-1, 1)}}


class Unk(Exception):
    pass


def strip(v):
    while True:
        w = bare(v)
        if w.op == 'call' and w.x[0] in PASS - {'builtins.range'} and w.args:
            w = w.args[0]
        if w is v:
            return v
        v = w


def add(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
        if out[x] == 0:
            del out[x]
    return out


class Bits:
    """values as functions of one bit of a configuration"""

    def __init__(self, M, letters=None, conf=None, coeff=None, acc=None):
        self.M, self.I = M, M.I
        self.letters = letters or {}
        self.conf, self.coeff, self.acc = conf, coeff, acc
        self.bit = 0
        self.reads = []
        self.writes = []

    # ---- positions
    def linear(self, v, depth=0):
        v = strip(v)
        if depth > 20:
            raise Unk('position')
        if v.op == 'const' and isinstance(v.x, int) and not isinstance(v.x, bool):
            return {1: v.x} if v.x else {}
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            return add(self.linear(v.args[0], depth + 1), self.linear(v.args[1], depth + 1), 1 if v.x == 'Add' else -1)
        if v.op == 'un' and v.x == 'neg':
            return add({}, self.linear(v.args[0], depth + 1), -1)
        if v.op == 'bin' and v.x == 'Mult':
            for a, b in (v.args, v.args[::-1]):
                a = strip(a)
                if a.op == 'const' and isinstance(a.x, int):
                    return {k: c * a.x for k, c in self.linear(b, depth + 1).items() if c * a.x}
        return {self.M.atom(v): 1}

    # ---- values
    def ev(self, v, depth=0):
        if depth > 60:
            raise Unk('depth')
        w = bare(v)
        k = w.key
        if k in self.letters:
            return ('str', self.letters[k])
        if self.conf is not None and k in self.conf:
            return ('conf', {})
        if self.coeff is not None and k == self.coeff:
            return ('coef', 1)
        if self.acc is not None and k == self.acc:
            return ('acc', ())
        op = w.op
        e = lambda x: self.ev(x, depth + 1)
        if op == 'const':
            if isinstance(w.x, str):
                return ('str', w.x)
            if isinstance(w.x, (bool, int, float, complex)):
                return ('num', w.x)
            raise Unk('constant')
        if op == 'call' and w.x[0] in ('builtins.int', 'builtins.bool', 'builtins.float', 'builtins.complex', 'numpy.int64', 'builtins.abs') and len(w.args) == 1:
            r = e(w.args[0])
            if w.x[0] == 'builtins.bool':
                return ('num', self.true(r))
            return r
        if op == 'join':
            left, unk = [], False
            for a, g in zip(w.args, w.x):
                t = self.all(g, depth)
                if t is True:
                    return e(a)
                if t is None:
                    left.append(a)
            if len(left) == 1:
                return e(left[0])
            raise Unk('condition')
        if op == 'cmp':
            return ('num', self.cmp(w, depth))
        if op == 'bool':
            vs = [self.true(e(a)) for a in w.args]
            return ('num', all(vs) if w.x == 'and' else any(vs))
        if op == 'un':
            a = e(w.args[0])
            if w.x == 'not':
                return ('num', not self.true(a))
            if w.x == 'neg' and a[0] in ('num', 'coef'):
                return (a[0], -a[1])
            if w.x == 'inv' and a[0] == 'masked' and a[1] == 1:
                return ('hole', a[2])
            raise Unk('operator')
        if op in ('bin', 'aug'):
            return self.bin(w, depth)
        if op == 'dyn' or op == 'item':
            b = strip(w.args[0])
            if b.op == 'tuple' and op == 'item' and len(w.args) == 2:
                i = e(w.args[1])
                if i[0] == 'num' and int(i[1]) == i[1] and 0 <= int(i[1]) < len(b.args):
                    return e(b.args[int(i[1])])
            if b.op == 'new' and op == 'item' and b.x in ('dict', 'list') and not self.I.byobj.get(b.uid):
                i = e(w.args[1])
                xs = self.I.objinit.get(b.uid) or []
                if b.x == 'dict':
                    for kx, x in xs:
                        if kx.op == 'const' and kx.x == i[1]:
                            return e(x)
                elif i[0] == 'num' and 0 <= int(i[1]) < len(xs):
                    return e(xs[int(i[1])])
        raise Unk(op)

    def all(self, g, depth):
        r = True
        for c, p in g:
            try:
                if self.true(self.ev(c, depth + 1)) != bool(p):
                    return False
            except Unk:
                r = None
        return r

    def true(self, a):
        if a[0] == 'num':
            return bool(a[1])
        if a[0] == 'masked':
            return bool(a[1])
        if a[0] == 'str':
            return bool(a[1])
        raise Unk('truth')

    def cmp(self, w, depth):
        a = self.ev(w.args[0], depth + 1)
        if w.x == 'In':
            b = strip(w.args[1])
            xs = b.args if b.op == 'tuple' else self.I.objinit.get(b.uid) if b.op == 'new' and b.x in ('list', 'set', 'dict') and not self.I.byobj.get(b.uid) else None
            if b.op == 'const' and isinstance(b.x, str) and a[0] == 'str':
                return a[1] in b.x
            if xs is None:
                raise Unk('membership')
            return any(self.ev(x[0] if isinstance(x, tuple) else x, depth + 1) == a for x in xs)
        b = self.ev(w.args[1], depth + 1)
        if w.x in ('Eq', 'Is'):
            if a[0] == b[0] == 'str' or a[0] == b[0] == 'num':
                return a[1] == b[1]
            for x, y in ((a, b), (b, a)):
                if x[0] == 'masked' and y == ('num', 0):
                    return not x[1]
                if x[0] == 'masked' and y[0] == 'masked' and x[2] == y[2]:
                    return x[1] == y[1]
        if w.x in ('Lt', 'LtE'):
            f = (lambda p, q: p < q) if w.x == 'Lt' else (lambda p, q: p <= q)
            if a[0] == b[0] == 'num':
                return f(a[1], b[1])
            if a == ('num', 0) and b[0] == 'masked' and w.x == 'Lt':
                return bool(b[1])
            if b == ('num', 0) and a[0] == 'masked' and w.x == 'LtE':
                return not a[1]
        raise Unk('comparison')

    def read(self, c, pos):
        k = tuple(sorted(pos.items(), key=str))
        if k not in self.reads:
            self.reads.append(k)
        return c[1].get(k, self.bit)

    def pos(self, v):
        return self.linear(v)

    def bin(self, w, depth):
        x, (l, r) = w.x, w.args[:2]
        key = lambda p: tuple(sorted(p.items(), key=str))
        if x in ('LShift', 'Pow'):
            a = self.ev(l, depth + 1)
            if x == 'Pow':
                if a in (('num', 2), ('num', 2.0)):
                    try:
                        b = self.ev(r, depth + 1)
                        if b[0] == 'num':
                            return ('num', 2 ** b[1])
                    except Unk:
                        pass
                    return ('masked', 1, key(self.pos(r)))
                b = self.ev(r, depth + 1)
                if a[0] == 'num' and b[0] == 'num':
                    return ('num', a[1] ** b[1])
                raise Unk('power')
            if a[0] == 'num':
                return ('masked', int(a[1]), key(self.pos(r)))
            if a[0] == 'acc':
                s = self.pos(r)
                if s == {1: 1}:
                    return ('horner',)
            raise Unk('shift')
        a = self.ev(l, depth + 1)
        if x == 'RShift':
            if a[0] == 'conf':
                return ('shifted', a[1], self.pos(r))
            if a[0] == 'masked':
                if a[2] == key(self.pos(r)):
                    return ('num', a[1])
            raise Unk('shift')
        b = self.ev(r, depth + 1)
        if x == 'BitAnd':
            for p, q in ((a, b), (b, a)):
                if p[0] == 'conf' and q[0] == 'masked' and q[1] == 1:
                    return ('masked', self.read(p, dict(q[2])), q[2])
                if p[0] == 'shifted' and q == ('num', 1):
                    return ('num', self.read(('conf', p[1]), p[2]))
                if p[0] == 'conf' and q[0] == 'hole':
                    return self.put(p, q[1], 0)
            if a[0] == b[0] == 'num':
                return ('num', int(a[1]) & int(b[1]))
        if x == 'Mod' and a[0] == 'shifted' and b == ('num', 2):
            return ('num', self.read(('conf', a[1]), a[2]))
        if x == 'FloorDiv' and a[0] == 'conf' and b[0] == 'masked' and b[1] == 1:
            return ('shifted', a[1], dict(b[2]))
        if x == 'Mult':
            for p, q in ((a, b), (b, a)):
                if p[0] == 'num' and q[0] == 'masked' and p[1] in (0, 1):
                    return ('masked', int(q[1] * p[1]), q[2])
                if p[0] == 'coef' and q[0] == 'num':
                    return ('coef', p[1] * q[1])
                if p[0] == 'acc' and q == ('num', 2):
                    return ('horner',)
            if a[0] == b[0] == 'num':
                return ('num', a[1] * b[1])
        if x == 'Div' and b[0] == 'num' and a[0] in ('num', 'coef') and b[1]:
            return (a[0], a[1] / b[1])
        if x in ('Add', 'Sub', 'BitXor', 'BitOr'):
            for p, q in ((a, b), (b, a)):
                if p[0] == 'conf' and q[0] == 'masked' and (x != 'Sub' or p is a):
                    old = p[1].get(q[2], None)
                    cur = self.bit if old is None else old
                    if q[1] == 0:
                        return p
                    if q[2] not in self.writes:
                        self.writes.append(q[2])
                    if x == 'BitXor':
                        return self.put(p, q[2], 1 - cur)
                    if x == 'BitOr':
                        return self.put(p, q[2], 1)
                    if x == 'Add' and cur == 0:
                        return self.put(p, q[2], 1)
                    if x == 'Sub' and cur == 1:
                        return self.put(p, q[2], 0)
                    raise Unk('carry')
                if p[0] == 'acc' and q[0] == 'masked' and x != 'Sub':
                    return ('acc', p[1] + (q[2],)) if q[1] else p
                if p[0] == 'horner' and q[0] == 'num' and x != 'Sub' and q[1] in (0, 1):
                    return ('hout', int(q[1]))
            if a[0] == b[0] == 'num' and x in ('Add', 'Sub'):
                return ('num', a[1] + b[1] if x == 'Add' else a[1] - b[1])
            if a[0] == b[0] == 'num' and x == 'BitXor':
                return ('num', int(a[1]) ^ int(b[1]))
        raise Unk('operator ' + str(x))

    def put(self, c, pos, b):
        if pos not in self.writes:
            self.writes.append(pos)
        d = dict(c[1])
        d[pos] = b
        return ('conf', d)


class Layout:
    def __init__(self, ck, r):
        self.ck, self.r, self.I = ck, r, r.I
        self.copies = {}
        self.actions = {}

    def where(self, node, fn=None):
        return where(fn or self.r.fn, node)

    def bad(self, rule, fn, node, msg):
        self.ck.bad(rule, fn.qual, self.where(node, fn), msg)

    # ---- atoms of positions
    def atom(self, v):
        v = strip(v)
        if v.op == 'idx':
            return ('pos', v.x[0])
        if v.op == 'mu':
            L = self.I.loops.get(v.x[0]) if isinstance(self.I.loops, dict) else None
            if is_const(v.args[0], 0) and len(v.back) == 1:
                b = bare(v.back[0])
                if b.op in ('bin', 'aug') and b.x == 'Add' and bare(b.args[0]).key == v.key and is_const(b.args[1], 1):
                    return ('pos', v.x[0])
        if v.op == 'elem':
            L = self.loop(v.x)
            if L is not None and L.iter is not None:
                return ('elem', v.x, self.listkey(v.args[0]))
        return ('v', v.key)

    def listkey(self, v):
        v = strip(v)
        while v.op == 'call' and v.x[0] == 'builtins.enumerate' and v.args:
            v = strip(v.args[0])
        if v.op == 'attr' and v.x == 'op_strings':
            pass
        return v.key

    def loop(self, i):
        return self.I.loops.get(i)

    def count(self, L):
        """number of passes"""
        it = strip(L.iter)
        while it.op == 'call' and it.x[0] in ('builtins.enumerate', 'builtins.list', 'builtins.tuple', 'numpy.arange') and it.args:
            if it.x[0] == 'numpy.arange':
                return {self.atom(it.args[0]): 1}
            it = strip(it.args[0])
        if it.op == 'call' and it.x[0] == 'builtins.range':
            if len(it.args) != 1:
                return None
            try:
                return Bits(self).linear(it.args[0])
            except Unk:
                return None
        return {('len', it.key): 1}

    def same(self, a, b):
        """two linear forms, lengths of lists made atoms"""
        n = lambda d: {self.lenatom(k): c for k, c in d.items()}
        return n(a) == n(b)

    def lenatom(self, k):
        if isinstance(k, tuple) and k[0] == 'v':
            v = self.vals.get(k[1])
            if v is not None and v.op == 'call' and v.x[0] == 'builtins.len' and v.args:
                w = strip(v.args[0])
                return ('len', w.key)
        return k

    # ---- collection
    def collect(self):
        self.vals = {}
        seen = set()
        st = []
        for e in self.I.trace:
            st += [a for a in e.args if isinstance(a, V)]
            if isinstance(e.val, V):
                st.append(e.val)
        st += [v for v, g, n, s in self.I.returns]
        for L in self.I.loops.values():
            if L.iter is not None:
                st.append(L.iter)
        while st:
            v = st.pop()
            if v.uid in seen:
                continue
            seen.add(v.uid)
            self.vals.setdefault(v.key, v)
            st += list(v.args) + list(v.back)
            if v.op == 'join':
                for g in v.x:
                    st += [c for c, p in g]
            if v.op == 'new':
                for x in self.I.objinit.get(v.uid) or []:
                    st += list(x) if isinstance(x, tuple) else [x]
        self.mus = {}
        for v in self.vals.values():
            if v.op == 'mu':
                self.mus.setdefault(v.x[0], []).append(v)

    def bitty(self, v, depth=0, seen=None):
        """does a bit operation occur in v (within one pass)?"""
        seen = set() if seen is None else seen
        if v.uid in seen or depth > 40:
            return False
        seen.add(v.uid)
        if v.op in ('bin', 'aug') and v.x in ('BitXor', 'BitAnd', 'LShift', 'RShift', 'BitOr'):
            return True
        if v.op == 'mu':
            return False
        if any(self.bitty(a, depth + 1, seen) for a in v.args):
            return True
        if v.op == 'join':
            return any(self.bitty(c, depth + 1, seen) for g in v.x for c, p in g)
        return False

    # ---- strings acting on configurations
    def letters(self, L):
        """(letter values, label values) of a loop over the letters of a string"""
        ops, labels = {}, {}
        for v in self.vals.values():
            if v.op == 'elem' and v.x == L.id or v.op == 'item' and v.args[1].op == 'idx' and v.args[1].x[0] == L.id:
                s = strip(v.args[0])
                if s.op == 'attr' and s.x == 'orbital_operators':
                    ops[v.key] = v
                if s.op == 'attr' and s.x == 'orbital_labels':
                    labels[v.key] = v
        return ops, labels

    def strings(self):
        for L in list(self.I.loops.values()):
            ops, labels = self.letters(L)
            if not ops or not labels:
                continue
            mus = self.mus.get(L.id, [])
            confs = [m for m in mus if any(self.flips(b, m.key) for b in m.back)]
            if len(confs) != 1:
                continue
            conf = confs[0]
            coeffs = [m for m in mus if m is not conf and m.key != conf.key and not (m.args and is_const(m.args[0], 0)) and any(b.key != m.key for b in m.back)]
            coeffs = [m for m in coeffs if not self.counter(m)]
            if len(coeffs) > 1:
                self.ck.unsure('action of a string', L.fn.qual)
                continue
            coeff = coeffs[0] if coeffs else None
            self.action(L, ops, labels, conf, coeff)

    def counter(self, m):
        return all(bare(b).op in ('bin', 'aug') and bare(b).x == 'Add' for b in m.back)

    def flips(self, v, key, depth=0, seen=None):
        seen = set() if seen is None else seen
        if v.uid in seen or depth > 40:
            return False
        seen.add(v.uid)
        if v.op in ('bin', 'aug') and v.x in ('BitXor', 'BitOr', 'Add', 'Sub') and any(bare(a).key == key or self.touches(a, key) for a in v.args) and (v.x.startswith('Bit') or any(self.bitty(a) for a in v.args)):
            return True
        if v.op == 'join' or v.op == 'narrow':
            return any(self.flips(a, key, depth + 1, seen) for a in v.args)
        return False

    def touches(self, v, key):
        v = bare(v)
        return v.op in ('bin', 'aug') and any(bare(a).key == key for a in v.args)

    def action(self, L, ops, labels, conf, coeff):
        fn = L.fn
        confs = {conf.key} | {bare(a).key for a in conf.args}
        node = L.node
        labelatoms = {self.atom(v) for v in labels.values()}
        ns = set()
        try:
            for letter, want in PAULI.items():
                for b in (0, 1):
                    B = Bits(self, {k: letter for k in ops}, confs, coeff.key if coeff is not None else None)
                    B.bit = b
                    c = B.ev(conf.back[0]) if len(conf.back) == 1 else None
                    f = ('coef', 1) if coeff is None else B.ev(coeff.back[0]) if len(coeff.back) == 1 else None
                    if c is None or f is None or c[0] != 'conf' or f[0] != 'coef':
                        raise Unk('effect of a pass')
                    for k in B.reads + B.writes:
                        d = dict(k)
                        la = [a for a in d if a in labelatoms]
                        rest = {a: x for a, x in d.items() if a not in la and a != 1}
                        if len(la) != 1 or len(rest) > 1:
                            raise Unk('position')
                        if d[la[0]] != -1 or d.get(1, 0) != -1 or list(rest.values()) != [1]:
                            self.bad('bit of an orbital', fn, node, '%s uses bit %s for the letter of a label, not bit n-1-label as elsewhere' % (fn.qual, self.words(d)))
                            return
                        ns.add(list(rest)[0])
                    bits = list(c[1].values())
                    new = bits[0] if bits else b
                    if len(bits) > 1:
                        raise Unk('several bits')
                    if new != want[b][1]:
                        self.bad('letter acts wrongly', fn, node, '%s: %s turns bit %d into %d' % (fn.qual, letter, b, new))
                        return
                    if abs(complex(f[1]) - want[b][0]) > 1e-12:
                        self.bad('letter acts wrongly', fn, node, '%s: %s on a bit that is %d multiplies by %s instead of %s' % (fn.qual, letter, b, f[1], want[b][0]))
                        return
                    self.ck.ok('letters acting on a bit', '%s: %s on %d' % (fn.qual, letter, b))
        except Unk as u:
            self.ck.unsure('action of a string', '%s: %s' % (fn.qual, u))
            return
        init = strip(conf.args[0])
        for n in ns:
            self.range(init, n, fn, node)
        if coeff is not None:
            i = strip(coeff.args[0])
            if i.op == 'const' and i.x not in (1, 1.0):
                self.bad('letter acts wrongly', fn, node, '%s starts from the coefficient %s' % (fn.qual, i.x))
        self.actions[conf.key] = (conf, coeff, init)

    def words(self, d):
        out = []
        for k, c in d.items():
            if k == 1:
                out.append('%+d' % c)
            else:
                v = self.vals.get(k[-1]) if k[0] == 'v' else None
                out.append('%+d*%s' % (c, show(v, 3) if v is not None else 'label' if k[0] == 'elem' else 'place'))
        return ' '.join(out) or '0'

    def range(self, conf, n, fn, node):
        """configurations of n orbitals are 0 ... 2**n - 1"""
        if conf.op != 'idx':
            return
        L = self.loop(conf.x[0])
        if L is None or L.iter is None:
            return
        it = strip(L.iter)
        if it.op != 'call' or it.x[0] not in ('builtins.range', 'numpy.arange'):
            return
        if len(it.args) != 1:
            if len(it.args) == 2 and is_const(it.args[0], 0):
                stop = it.args[1]
            else:
                return
        else:
            stop = it.args[0]
        try:
            m = Bits(self).ev(stop)
        except Unk:
            return
        if m[0] != 'masked':
            return
        if not self.same(dict(m[2]), {n: 1}):
            self.bad('range of configurations', fn, node, '%s runs over 2**(%s) configurations, but takes their bits from n = %s' % (fn.qual, self.words(dict(m[2])), self.words({n: 1})))
        else:
            self.ck.ok('ranges of configurations')

    # ---- bits copied from one configuration to another
    def relocations(self):
        for m in [m for ms in self.mus.values() for m in ms]:
            L = self.loop(m.x[0])
            if L is None or L.iter is None or not m.args or not is_const(m.args[0], 0) or len(m.back) != 1 or not self.bitty(m.back[0]):
                continue
            if m.key in self.copies:
                continue
            self.relocation(L, m, m.back[0], m.key)
        for e in self.I.trace:
            if e.kind == 'call' and e.x[0] in ('builtins.sum', 'numpy.sum') and len(e.args) == 1 and e.val is not None and e.val.key not in self.copies:
                w = bare(e.args[0])
                evs = [x for x in self.I.byobj.get(w.uid, ()) if x.kind == 'method' and x.x == 'append'] if w.op == 'new' else []
                if len(evs) == 1 and evs[0].loops and len(self.I.byobj.get(w.uid, ())) == 1 and self.bitty(evs[0].args[1]):
                    self.relocation(evs[0].loops[-1], None, evs[0].args[1], e.val.key, evs[0])

    def symbols(self, v, out, depth=0, seen=None):
        """configurations whose bits are tested"""
        seen = set() if seen is None else seen
        if v.uid in seen or depth > 40:
            return
        seen.add(v.uid)
        if v.op in ('bin', 'aug') and v.x in ('BitAnd', 'RShift', 'FloorDiv'):
            for a in v.args:
                w = strip(a)
                if w.op in ('idx', 'param', 'elem', 'item') or w.op == 'mu' and not self.bitty(w):
                    if v.x == 'BitAnd' or a is v.args[0]:
                        out[w.key] = w
        if v.op == 'mu':
            return
        for a in v.args:
            self.symbols(a, out, depth + 1, seen)
        if v.op == 'join':
            for g in v.x:
                for c, p in g:
                    self.symbols(c, out, depth + 1, seen)

    def relocation(self, L, m, back, key, ev=None):
        fn = L.fn
        syms = {}
        self.symbols(back, syms)
        if ev is not None:
            for c, p in ev.guards:
                self.symbols(c, syms)
        if len(syms) != 1:
            return
        X = list(syms.values())[0]
        try:
            res = []
            for b in (0, 1):
                B = Bits(self, {}, {X.key}, None, m.key if m is not None else None)
                B.bit = b
                if ev is not None:
                    g = B.all([(c, p) for c, p in ev.guards if self.bitty(c)], 0)
                    if g is None:
                        raise Unk('condition')
                    r = B.ev(back) if g else ('masked', 0, ())
                    r = ('acc', (r[2],) if r[1] else ()) if r[0] == 'masked' else r
                else:
                    r = B.ev(back)
                res.append((r, B.reads))
        except Unk as u:
            self.ck.unsure('bits copied', '%s: %s' % (fn.qual, u))
            return
        (r0, k0), (r1, k1) = res
        reads = k1 or k0
        if len(reads) != 1:
            return
        src = dict(reads[0])
        if r0[0] == 'hout' and r1[0] == 'hout':
            if (r0[1], r1[1]) != (0, 1):
                self.bad('bit copied wrongly', fn, L.node, '%s writes %d for a bit that is 0 and %d for a bit that is 1' % (fn.qual, r0[1], r1[1]))
                return
            n = self.count(L)
            if n is None:
                return
            dst = add(add(dict(n), {1: -1}), {('pos', L.id): -1})
        elif r0[0] == 'acc' and r1[0] == 'acc':
            if len(r0[1]) == 1 and not r1[1]:
                self.bad('bit copied wrongly', fn, L.node, '%s sets a bit where the bit read is 0' % fn.qual)
                return
            if r0[1] or len(r1[1]) != 1:
                self.ck.unsure('bits copied', fn.qual)
                return
            dst = dict(r1[1][0])
        else:
            return
        self.place(L, X, src, dst, key)

    def split(self, d):
        """position n - 1 - t as (n, t); t an atom"""
        if d.get(1, 0) != -1:
            return None
        plus = [k for k, c in d.items() if k != 1 and c == 1]
        minus = [k for k, c in d.items() if k != 1 and c == -1]
        if len(plus) != 1 or len(minus) != 1 or len(d) != 3:
            return None
        return plus[0], minus[0]

    def place(self, L, X, src, dst, key):
        fn = L.fn
        s, t = self.split(src), self.split(dst)
        if s is None or t is None:
            side, d = ('reads', src) if s is None else ('writes', dst)
            if any(k[0] in ('pos', 'elem') for k in d if k != 1) or len(d) < 3:
                self.bad('bit of an orbital', fn, L.node, '%s %s bit %s, not bit n-1-label as elsewhere' % (fn.qual, side, self.words(d)))
            else:
                self.ck.unsure('bits copied', '%s: %s' % (fn.qual, self.words(d)))
            return
        (n1, a), (n2, b) = s, t
        self.range(X, n1, fn, L.node)
        it = strip(L.iter)
        while it.op == 'call' and it.x[0] == 'builtins.enumerate' and it.args:
            it = strip(it.args[0])
        pa, pb = self.image(a), self.image(b)
        part = b == ('pos', L.id) and pa is not None and pa[1] == b and not self.same({n1: 1}, {n2: 1})
        if part and a[0] == 'v':
            it = strip(self.vals[a[1]].args[0])
        if not part and (pb is not None and pb[1] == a or pa is not None and pa[1] == b):
            if pb is None or pb[1] != a:
                self.bad('bit copied wrongly', fn, L.node, '%s moves the bit of the image of a label to the label, the inverse of the permutation' % fn.qual)
                return
            if not self.same({n1: 1}, {n2: 1}):
                self.bad('bit of an orbital', fn, L.node, '%s reads bits of %s orbitals and writes bits of %s' % (fn.qual, self.words({n1: 1}), self.words({n2: 1})))
                return
            n = self.count(L)
            if n is not None and not self.same(n, {n1: 1}) and it.op == 'call' and it.x[0] == 'builtins.range':
                self.bad('orbitals left out', fn, L.node, '%s copies the bits of %s labels only' % (fn.qual, self.words(n)))
                return
            self.ck.ok('bits copied', '%s: label to permutation[label]' % fn.qual)
            self.copies[key] = ('permuted', X, n1, fn)
            return
        if part or b == ('pos', L.id) and (a == b or a[0] == 'elem' and a[1] == L.id):
            n = self.count(L)
            if a == b and not (it.op == 'call' and it.x[0] in ('builtins.range', 'numpy.arange')):
                self.bad('bit copied wrongly', fn, L.node, '%s reads the bit at the place of an orbital in %s instead of the bit of the orbital' % (fn.qual, show(it, 3)))
                return
            if n is not None and not self.same(n, {n2: 1}) and not self.same({('len', it.key): 1}, {n2: 1}):
                self.bad('bit of an orbital', fn, L.node, '%s numbers the orbitals of a subsystem by their place among %s, but writes them as %s orbitals' % (fn.qual, self.words(n), self.words({n2: 1})))
                return
            self.ck.ok('bits copied', '%s: place in the list' % fn.qual)
            self.copies[key] = ('part', X, n1, fn, it)
            return
        if a == ('pos', L.id) and b[0] == 'elem':
            self.bad('bit copied wrongly', fn, L.node, '%s reads the bit at the place of an orbital in a list and writes it at the orbital' % fn.qual)
            return
        self.ck.unsure('bits copied', '%s: %s to %s' % (fn.qual, self.words(src), self.words(dst)))

    def image(self, a):
        """permutation[label] -> (permutation, label)"""
        if a[0] == 'v':
            v = self.vals.get(a[1])
            if v is not None and v.op == 'item':
                return strip(v.args[0]).key, self.atom(v.args[1])
        if a[0] == 'elem':
            return a[2], ('pos', a[1])
        return None

    # ---- stores of amplitudes
    def stores(self):
        self.axes = {}
        for e in self.I.trace:
            if e.kind != 'store_item':
                continue
            arr, idx, val = bare(e.args[0]), bare(e.args[1]), bare(e.args[2])
            parts = [bare(p) for p in (idx.args if idx.op == 'tuple' else (idx,))]
            tags = [self.copies.get(p.key) for p in parts]
            if val.op != 'item':
                continue
            src = strip(val.args[1])
            stag = self.copies.get(src.key)
            if len(parts) == 1 and stag is not None and stag[0] == 'permuted' and tags[0] is None and parts[0].key == stag[1].key:
                self.bad('amplitude moved wrongly', e.fn, e.node, '%s takes the amplitude of the permuted configuration, which applies the inverse permutation' % e.fn.qual)
            elif len(parts) == 1 and tags[0] is not None and tags[0][0] == 'permuted':
                if src.key == tags[0][1].key:
                    self.ck.ok('amplitudes moved', e.fn.qual)
            elif len(parts) == 2 and all(t is not None and t[0] == 'part' for t in tags):
                if any(src.key != t[1].key for t in tags):
                    continue
                self.subsystems(e, arr, tags)

    def subsystems(self, e, arr, tags):
        lists = [t[4] for t in tags]
        shape = None
        if arr.op == 'call' and arr.args:
            sh = bare(arr.args[0])
            if sh.op == 'tuple' and len(sh.args) == 2:
                shape = sh.args
        if shape:
            for k, (s, l) in enumerate(zip(shape, lists)):
                try:
                    m = Bits(self).ev(s)
                except Unk:
                    continue
                if m[0] == 'masked' and not self.same(dict(m[2]), {('len', l.key): 1}):
                    self.bad('subsystem axes', e.fn, e.node, '%s: axis %d has 2**(%s) entries, but is indexed by configurations of %s' % (e.fn.qual, k, self.words(dict(m[2])), show(l, 3)))
                    return
        comp = [self.complement(lists[0]), self.complement(lists[1])]
        kept = None
        for k in (0, 1):
            if comp[k] is not None:
                if comp[k] == lists[1 - k].key:
                    kept = 1 - k
                else:
                    self.bad('subsystem axes', e.fn, e.node, '%s: the two axes do not split all orbitals (%s, %s)' % (e.fn.qual, show(lists[0], 3), show(lists[1], 3)))
                    return
        if kept is None:
            return
        self.ck.ok('subsystem axes', e.fn.qual)
        self.axes[arr.key] = tuple('kept' if k == kept else 'traced' for k in (0, 1))

    def complement(self, l):
        """key of the list that l is the complement of"""
        if l.op == 'new' and l.x == 'list':
            evs = self.I.byobj.get(l.uid, ())
            if len(evs) == 1 and evs[0].kind == 'method' and evs[0].x == 'append' and evs[0].loops:
                x = strip(evs[0].args[1])
                g = [(c, p) for c, p in evs[0].guards if c.op == 'cmp' and c.x == 'In' and strip(c.args[0]).key == x.key]
                if len(g) == 1 and not g[0][1]:
                    w = strip(g[0][0].args[1])
                    while w.op == 'call' and w.x[0] in ('builtins.set', 'builtins.frozenset') and w.args:
                        w = strip(w.args[0])
                    return w.key
                if len(g) == 1 and g[0][1]:
                    return 'same'
        return None

    # ---- products of split vectors
    def ax(self, v, depth=0):
        v = bare(v)
        if depth > 12:
            return None
        if v.key in self.axes:
            return self.axes[v.key]
        if v.op == 'attr' and v.x in ('T', 'H'):
            a = self.ax(v.args[0], depth + 1)
            return a[::-1] if a else None
        if v.op == 'call' and v.x[0] in ('numpy.conj', 'numpy.conjugate', 'numpy.transpose', 'numpy.array', 'numpy.asarray') and len(v.args) == 1:
            a = self.ax(v.args[0], depth + 1)
            return a[::-1] if a and v.x[0] == 'numpy.transpose' else a
        if v.op == 'mcall' and v.x[0] in ('conj', 'conjugate', 'transpose', 'copy') and len(v.args) == 1:
            a = self.ax(v.args[0], depth + 1)
            return a[::-1] if a and v.x[0] == 'transpose' else a
        return None

    def flags(self, v, depth=0):
        """(core value, transposed, conjugated)"""
        v = bare(v)
        if depth < 12:
            f = None
            if v.op == 'attr' and v.x in ('T', 'H'):
                f = (1, v.x == 'H')
            elif v.op == 'call' and len(v.args) == 1 and v.x[0] in ('numpy.conj', 'numpy.conjugate', 'numpy.transpose', 'numpy.array', 'numpy.asarray') and not v.x[1:] == ('axes',):
                f = (v.x[0] == 'numpy.transpose', v.x[0] in ('numpy.conj', 'numpy.conjugate'))
            elif v.op == 'mcall' and len(v.args) == 1 and v.x[0] in ('conj', 'conjugate', 'transpose', 'copy', 'getH', 'tocsr', 'tocsc', 'toarray'):
                f = (v.x[0] in ('transpose', 'getH'), v.x[0] in ('conj', 'conjugate', 'getH'))
            if f is not None:
                core, t, c = self.flags(v.args[0], depth + 1)
                return core, t ^ bool(f[0]), c ^ bool(f[1])
        return v, False, False

    def products(self):
        for v in self.vals.values():
            if v.op == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul') and len(v.args) == 2 or v.op == 'bin' and v.x == 'MatMult' or v.op == 'mcall' and v.x[0] == 'dot' and len(v.args) == 2:
                a, b = self.ax(v.args[0]), self.ax(v.args[1])
                if a and b and len(a) == len(b) == 2:
                    f = self.r.fn
                    if a[1] != b[0]:
                        self.bad('partial trace', f, v.node, '%s contracts the axis of the orbitals that are kept with that of the others' % f.qual)
                    elif a[1] != 'traced':
                        self.bad('partial trace', f, v.node, '%s sums over the orbitals that are kept' % f.qual)
                    else:
                        ca, cb = self.flags(v.args[0])[2], self.flags(v.args[1])[2]
                        if ca or not cb:
                            self.bad('partial trace', f, v.node, '%s: the reduced state of a state with amplitudes c is c times its conjugate transpose; here %s' % (f.qual, 'neither factor is conjugated' if not ca and not cb else 'both factors are conjugated' if ca and cb else 'the first factor is conjugated instead of the second'))
                        else:
                            self.ck.ok('partial traces', f.qual)

    # ---- matrix elements
    def role(self, v, depth=0, seen=None):
        """what a list of matrix data holds: set of 'new', 'old', 'coeff'"""
        v = bare(v)
        seen = set() if seen is None else seen
        if v.uid in seen or depth > 14:
            return set()
        seen.add(v.uid)
        if v.key in self.actions:
            return {'new'}
        for c, f, i in self.actions.values():
            if f is not None and v.key == f.key:
                return {'coeff'}
            if v.key == i.key:
                return {'old'}
        if v.op in ('mu', 'join'):
            return set().union(*[self.role(a, depth + 1, seen) for a in list(v.args) + list(v.back)])
        if v.op == 'elem':
            return self.role(v.args[0], depth + 1, seen)
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Mult'):
            return set().union(*[self.role(a, depth + 1, seen) for a in v.args])
        if v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.concatenate', 'builtins.list', 'numpy.asarray', 'builtins.range', 'numpy.arange') and v.args:
            if v.x[0] in ('builtins.range', 'numpy.arange'):
                return set()
            return self.role(v.args[0], depth + 1, seen)
        if v.op == 'new' and v.x == 'list':
            out = set()
            for x in self.I.objinit.get(v.uid) or []:
                out |= self.role(x[1] if isinstance(x, tuple) else x, depth + 1, seen)
            for e in self.I.byobj.get(v.uid, ()):
                if e.kind == 'method' and e.x in ('append', 'extend') or e.kind == 'aug_name':
                    out |= self.role(e.args[1], depth + 1, seen)
            return out
        return set()

    def weighted(self, v, depth=0, seen=None):
        """are the matrix elements multiplied by coefficients of an operator? None: cannot tell"""
        v = bare(v)
        seen = set() if seen is None else seen
        if v.uid in seen or depth > 14:
            return False
        seen.add(v.uid)
        if v.op == 'elem':
            s = strip(v.args[0])
            if s.op == 'attr' and s.x == 'coeffs':
                return True
        if v.op == 'item' and strip(v.args[0]).op == 'attr' and strip(v.args[0]).x == 'coeffs':
            return True
        kids = list(v.args) + list(v.back)
        if v.op == 'new':
            for x in self.I.objinit.get(v.uid) or []:
                kids += list(x) if isinstance(x, tuple) else [x]
            for e in self.I.byobj.get(v.uid, ()):
                kids += [a for a in e.args[1:]]
        return any(self.weighted(a, depth + 1, seen) for a in kids if isinstance(a, V))

    def matrices(self):
        if not self.actions:
            return
        for e in self.I.trace:
            if e.kind != 'call' or e.x[0] not in ('scipy.sparse.csr_matrix', 'scipy.sparse.coo_matrix', 'scipy.sparse.csc_matrix') or not e.args:
                continue
            a = bare(e.args[0])
            if a.op != 'tuple' or len(a.args) != 2 or bare(a.args[1]).op != 'tuple' or len(bare(a.args[1]).args) != 2:
                continue
            d, (r, c) = a.args[0], bare(a.args[1]).args
            D, R, C = self.role(d), self.role(r), self.role(c)
            if not (R or C):
                continue
            if R == {'new'} and C == {'old'} and (not D or D == {'coeff'}):
                self.ck.ok('matrix elements', e.fn.qual)
            elif R == {'old'} and C == {'new'}:
                self.bad('matrix elements transposed', e.fn, e.node, '%s stores the element from the old to the new configuration at (old, new)' % e.fn.qual)
                continue
            elif len(R | C) > 1 and len(R) == 1 and len(C) == 1:
                self.bad('matrix elements misplaced', e.fn, e.node, '%s stores elements at (%s, %s) configuration' % (e.fn.qual, R, C))
                continue
            ops = [L for L in e.loops]
            src = self.looped(d) | self.looped(r)
            if src and not self.weighted(d):
                self.bad('coefficient left out', e.fn, e.node, '%s: the matrix elements of an operator are not multiplied by its coefficients' % e.fn.qual)
            elif src:
                k = self.altered(d)
                if k:
                    self.bad('coefficient altered', e.fn, e.node, '%s: the matrix elements are multiplied by %s of the coefficient instead of the coefficient' % (e.fn.qual, k))
                    continue
                self.ck.ok('matrix elements weighted', e.fn.qual)
            k = [self.turned(x) for x in (d, r, c)]
            if None not in k and len(set(k)) > 1:
                self.bad('matrix elements misplaced', e.fn, e.node, '%s: the rows, columns and values of the matrix elements are not collected in the same order, some are turned around' % e.fn.qual)

    def altered(self, d):
        """the function other than the identity that is applied to a coefficient"""
        def coeff(v):
            v = bare(v)
            s = strip(v.args[0]) if v.op in ('elem', 'item') else None
            return s is not None and s.op == 'attr' and s.x == 'coeffs'
        up, st, seen = {}, [bare(d)], set()
        while st:
            v = bare(st.pop())
            if v.uid in seen or len(seen) > 400:
                continue
            seen.add(v.uid)
            kids = list(v.args) + list(v.back)
            if v.op == 'new':
                for x in self.I.objinit.get(v.uid) or []:
                    kids += list(x) if isinstance(x, tuple) else [x]
                for e in self.I.byobj.get(v.uid, ()):
                    kids += list(e.args[1:])
            for k in kids:
                if isinstance(k, V):
                    up.setdefault(bare(k).uid, []).append(v)
                    st.append(k)
        for w in self.vals.values():
            w = bare(w)
            if w.uid in seen and coeff(w) and len(up.get(w.uid, ())) == 1:
                p = up[w.uid][0]
                f = p.x[0] if p.op in ('call', 'mcall') else p.x if p.op == 'attr' else None
                f = str(f).split('.')[-1] if f else None
                f = {'conjugate': 'conj', 'absolute': 'abs'}.get(f, f)
                if f in ('conj', 'abs', 'real', 'imag') and not any(q.op in ('call', 'mcall') and str(q.x[0]).split('.')[-1] in ('conj', 'conjugate') for q in up.get(p.uid, ())):
                    return f
        return None

    def turned(self, v):
        """is the list collected from lists that are turned around? None: cannot tell"""
        out, st, seen = set(), [bare(v)], set()
        while st:
            w = bare(st.pop())
            if w.uid in seen:
                continue
            seen.add(w.uid)
            if w.op == 'mu':
                st += list(w.args) + list(w.back)
            elif w.op == 'join':
                st += list(w.args)
            elif w.op in ('bin', 'aug') and w.x == 'Add' and len(w.args) == 2:
                st.append(w.args[0])
                b = bare(w.args[1])
                s = bare(b.args[1]) if b.op == 'item' else None
                if s is not None and s.op == 'slice':
                    if all(bare(a).op == 'const' for a in s.args) and bare(s.args[2]).x == -1:
                        out.add(True)
                    else:
                        return None
                elif b.op == 'call' and b.x[0] in ('builtins.reversed', 'builtins.sorted'):
                    return None
                else:
                    out.add(False)
        return out.pop() if len(out) == 1 else None

    def looped(self, v):
        """loops over an operator (with its coefficients) from which a list of matrix data is collected"""
        out = set()
        st, seen = [bare(v)], set()
        while st:
            w = st.pop()
            if w.uid in seen:
                continue
            seen.add(w.uid)
            if w.op == 'mu':
                L = self.loop(w.x[0])
                it = strip(L.iter) if L is not None and L.iter is not None else None
                if it is not None and it.op == 'call' and it.x[0] == 'builtins.zip' and any(strip(a).op == 'attr' and strip(a).x == 'coeffs' for a in it.args):
                    out.add(L.id)
                st += list(w.args) + list(w.back)
            elif w.op in ('join', 'bin', 'aug'):
                st += list(w.args)
        return out

    # ---- formulas
    def formulas(self):
        for v in list(self.vals.values()):
            if v.op == 'call' and v.x[0] in ('numpy.log', 'numpy.log2', 'numpy.log10', 'math.log', 'math.log2', 'numpy.log1p', 'cmath.log') and v.args:
                t = self.tracearg(v.args[0])
                if t is not None:
                    self.entropy(v, t)
        for e in self.I.trace:
            if e.kind == 'method' and e.x == 'append' and e.loops and self.actions:
                t = [w for w in self.inner(e.args[1]) if self.overlap(w)]
                if t:
                    self.normalised(e, t[0])

    def inner(self, v):
        out, st, seen = [], [v], set()
        while st:
            w = st.pop()
            if w.uid in seen or len(seen) > 60:
                continue
            seen.add(w.uid)
            out.append(w)
            if w.op in ('bin', 'aug', 'call', 'mcall', 'un', 'narrow'):
                st += list(w.args)
        return out

    def real(self, v):
        v = bare(v)
        while v.op == 'call' and v.x[0] in ('numpy.real', 'numpy.abs', 'builtins.abs', 'builtins.float') or v.op == 'attr' and v.x == 'real':
            v = bare(v.args[0])
        return v

    def tracearg(self, v):
        v = self.real(v)
        if v.op == 'call' and v.x[0] == 'numpy.trace' and v.args:
            return v.args[0]
        if v.op == 'mcall' and v.x[0] == 'trace':
            return v.args[0]
        if v.op == 'mcall' and v.x[0] == 'sum' and bare(v.args[0]).op == 'mcall' and bare(v.args[0]).x[0] == 'diagonal':
            return bare(v.args[0]).args[0]
        return None

    def overlap(self, v):
        t = self.tracearg(v)
        if t is None:
            return False
        t = bare(t)
        return t.op == 'mcall' and t.x[0] == 'dot' or t.op == 'call' and t.x[0] in ('numpy.dot', 'numpy.matmul') or t.op == 'bin' and t.x in ('MatMult',)

    def normalised(self, e, t):
        """trace(P^dagger M) / 2**n"""
        m = self.tracearg(t)
        if m is not None:
            for a in bare(m).args[:1]:
                core, tr, cj = self.flags(a)
                if tr != cj:
                    self.bad('overlap with another string', e.fn, e.node, '%s: the overlap with a string P is the trace of its conjugate transpose (P is Hermitian) times the matrix; here P is only %s' % (e.fn.qual, 'transposed' if tr else 'conjugated'))

        class Count(Exception):
            pass

        def over(w, a, depth=0):
            w = bare(w)
            return w.op == 'elem' and bare(w.args[0]).key == a.key or depth < 8 and w.op in ('attr', 'mcall', 'call', 'bin', 'un') and any(over(x, a, depth + 1) for x in w.args)

        def strings(a):
            a = bare(a)
            if a.op == 'param':
                return a.x[1] not in ('matrix',) and not a.x[1].startswith('num_')
            return a.op == 'new' and a.x == 'list' and over(t, a) or a.op == 'attr' and a.x == 'op_strings'

        def ev(v, n):
            v = bare(v)
            if v.key == bare(t).key:
                return ('t', 1.0)
            if v.op == 'const' and isinstance(v.x, (int, float)):
                return ('n', v.x)
            if v.op == 'param' and v.x[1].startswith('num_'):
                return ('n', n)
            if v.op == 'call' and v.x[0] == 'builtins.len' and strings(v.args[0]):
                raise Count
            if v.op == 'call' and v.x[0] in ('builtins.float', 'builtins.complex', 'builtins.int'):
                return ev(v.args[0], n)
            if v.op == 'bin':
                a, b = ev(v.args[0], n), ev(v.args[1], n)
                k = 't' if 't' in (a[0], b[0]) else 'n'
                if k == 'n':
                    f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Div': lambda x, y: x / y, 'Pow': lambda x, y: x ** y, 'LShift': lambda x, y: x << y}.get(v.x)
                    if f:
                        return ('n', f(a[1], b[1]))
                if v.x == 'Mult' and a[0] != b[0]:
                    return ('t', a[1] * b[1])
                if v.x == 'Div' and a[0] == 't' and b[0] == 'n':
                    return ('t', a[1] / b[1])
            if v.op == 'un' and v.x == 'neg':
                a = ev(v.args[0], n)
                return (a[0], -a[1])
            raise Unk(v.op)
        try:
            r = [ev(e.args[1], n) for n in (1, 2, 3)]
        except Count:
            self.bad('overlap not normalised', e.fn, e.node, '%s: the overlap of a matrix with a string on n orbitals is tr(PM)/2**n; here it is scaled with the number of the strings, which may be any' % e.fn.qual)
            return
        except (Unk, TypeError, ZeroDivisionError):
            self.ck.unsure('overlaps', e.fn.qual)
            return
        if any(x[0] != 't' for x in r):
            return
        if any(abs(x[1] - 2.0 ** -n) > 1e-12 for x, n in zip(r, (1, 2, 3))):
            self.bad('overlap not normalised', e.fn, e.node, '%s: the overlap of a matrix with a string on n orbitals is tr(PM)/2**n, found tr(PM) times %s for n = 1, 2, 3' % (e.fn.qual, ', '.join(str(x[1]) for x in r)))
        else:
            self.ck.ok('overlaps', e.fn.qual)

    def power(self, v, n):
        """v as a power of a matrix when the order is n: (matrix key, exponent)"""
        v = bare(v)
        if v.op == 'mu':
            L = self.loop(v.x[0])
            a = self.power(v.args[0], n)
            if len(v.back) != 1 or L is None or L.iter is None:
                raise Unk('loop')
            it = strip(L.iter)
            if it.op != 'call' or it.x[0] != 'builtins.range':
                raise Unk('loop')
            rs = [self.number(x, n) for x in it.args]
            k = len(range(*[int(x) for x in rs]))
            b = bare(v.back[0])
            fs = self.factors(b)
            other = [f for f in fs if bare(f).key != v.key]
            if len(fs) != len(other) + 1:
                raise Unk('product')
            ps = [self.power(o, n) for o in other]
            m = {p[0] for p in ps + [a] if p[1]}
            if len(m) > 1:
                raise Unk('product')
            return (list(m)[0] if m else None, a[1] + k * sum(p[1] for p in ps))
        if v.op == 'call' and v.x[0] in ('numpy.eye', 'numpy.identity'):
            return (None, 0)
        if v.op == 'call' and v.x[0].endswith('matrix_power') and len(v.args) >= 2:
            p = self.power(v.args[0], n)
            return (p[0], p[1] * int(self.number(v.args[1], n)))
        fs = self.factors(v)
        if len(fs) > 1:
            ps = [self.power(f, n) for f in fs]
            m = {p[0] for p in ps if p[1]}
            if len(m) > 1:
                raise Unk('product')
            return (list(m)[0] if m else None, sum(p[1] for p in ps))
        if v.op == 'join':
            raise Unk('cases')
        return (v.key, 1)

    def factors(self, v):
        v = bare(v)
        if v.op == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul') and len(v.args) == 2 or v.op in ('bin', 'aug') and v.x == 'MatMult' or v.op == 'mcall' and v.x[0] == 'dot' and len(v.args) == 2:
            return self.factors(v.args[0]) + self.factors(v.args[1])
        return [v]

    def number(self, v, n):
        v = bare(v)
        if v.op == 'const' and isinstance(v.x, (int, float)):
            return v.x
        if v.op == 'param' and v.x[1] in ('n', 'alpha', 'order'):
            return n
        if v.op == 'call' and v.x[0] in ('builtins.int', 'builtins.float'):
            return self.number(v.args[0], n)
        if v.op == 'bin' and v.x in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
            a, b = self.number(v.args[0], n), self.number(v.args[1], n)
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'Pow': lambda: a ** b}[v.x]()
        if v.op == 'un' and v.x == 'neg':
            return -self.number(v.args[0], n)
        raise Unk('number')

    def scale(self, v, t, n):
        """factor of t in v"""
        v = bare(v)
        if v.key == t.key:
            return 1.0
        if v.op == 'call' and v.x[0] in ('numpy.real', 'builtins.float') or v.op == 'attr' and v.x == 'real':
            return self.scale(v.args[0], t, n)
        if v.op == 'un' and v.x == 'neg':
            return -self.scale(v.args[0], t, n)
        if v.op == 'bin' and v.x in ('Mult', 'Div'):
            try:
                k = self.number(v.args[1], n)
                s = self.scale(v.args[0], t, n)
                return s * k if v.x == 'Mult' else s / k
            except Unk:
                if v.x == 'Div':
                    raise
                return self.scale(v.args[1], t, n) * self.number(v.args[0], n)
        raise Unk('factor')

    def entropy(self, log, arg):
        for v, g, node, s in self.I.returns:
            try:
                for n in (2, 3, 5):
                    k = self.power(arg, n)
                    f = self.scale(v, log, n)
                    if k[1] != n:
                        self.bad('entropy formula', self.r.fn, node, '%s takes the trace of power %d of the density matrix for order %d' % (self.r.fn.qual, k[1], n))
                        return
                    if abs(f - 1.0 / (1 - n)) > 1e-12:
                        self.bad('entropy formula', self.r.fn, node, '%s multiplies the logarithm by %.4g for order %d instead of 1/(1-n)' % (self.r.fn.qual, f, n))
                        return
                if log.x[0] not in ('numpy.log', 'math.log', 'cmath.log'):
                    self.bad('entropy formula', self.r.fn, node, '%s uses %s instead of the natural logarithm' % (self.r.fn.qual, log.x[0]))
                    return
                self.ck.ok('entropies', self.r.fn.qual)
            except (Unk, ZeroDivisionError) as u:
                self.ck.unsure('entropies', '%s: %s' % (self.r.fn.qual, u))

    def run(self):
        self.collect()
        self.strings()
        self.relocations()
        self.stores()
        self.products()
        self.matrices()
        self.formulas()


def run(ck):
    prog = ck.ctx.prog
    for fn in list(prog.judged()):
        if fn.module.name != 'diagonalization':
            continue
        for i, tys in enumerate(variants(fn)):
            try:
                r = ck.ctx.run_one(fn, tys, i)
            except AnalysisError as e:
                ck.ctx.failures.append('%s: %s' % (fn.qual, e))
                continue
            if r is not None:
                Layout(ck, r).run()
    ck.floor('letters acting on a bit', 6)
    ck.floor('bits copied', 3)
    ck.floor('matrix elements', 1)
    ck.floor('subsystem axes', 1)
    ck.floor('partial traces', 1)
    ck.floor('entropies', 1)
    ck.floor('overlaps', 1)
