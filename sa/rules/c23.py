"""C23: reusing exploration caches does not change results."""
from itertools import product as cartesian
from ..values import V, show, is_const
from ..summary import bare
from ..spaces import rq
from .c06 import runs
from .c18 import where

RULE = ('A function that stores structure constants in a dictionary given by its caller explores blocks (basis strings) x (operator strings). The string sets are evaluated as set formulas over the cached sets, the given basis and the given operator '
        '(all regions of the Venn diagram are enumerated): old entries and computed blocks must be disjoint and together be exactly (strings explored afterwards) x (operator strings explored afterwards), which must contain the given basis and operator; '
        'strings are looked up in a cached basis only after they were added to it; each stored entry continues all three lists of the old entry, whole and in the same order; stored data does not depend on coefficients; entries are read through the given basis only; '
        'callers hand the caches on together and in the same roles. Every other memo table is keyed by all varying inputs of the stored computation.')
ASSUME = ['strings of a Basis are distinct (C02, C03)', 'any combination of cached, given and new strings can occur']
SC = {'algebra.structure_constants'}
COPY = {'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset', 'builtins.iter', 'builtins.sorted', 'builtins.reversed', 'copy.copy', 'copy.deepcopy', 'numpy.array'}
INF = 10 ** 9
ORDERED = {'algebra.product', 'algebra.commutator', 'algebra._product', 'algebra._commutator'}


def run(ck):
    roles = {}
    rs = runs(ck)
    for fn, r, S in rs:
        C = Caches(ck, fn, r.I, S)
        C.explore(r, roles)
        C.memo()
    for fn, r, S in rs:
        Calls(ck, fn, r.I, S, roles).run()
    ck.floor('explorations with caches', 1)


# ---- set formulas ------------------------------------------------------------------------------------------------------------

def NOT(a):
    return ('not', a)


def AND(*a):
    return ('and',) + a


def OR(*a):
    return ('or',) + a


UNK = ('?',)


def atoms(f, out):
    if f[0] == 'atom':
        out.add(f[1])
    elif f[0] in ('and', 'or', 'not'):
        for g in f[1:]:
            atoms(g, out)
    return out


def val(f, c):
    """three-valued membership of a string in region c"""
    if f[0] == 'atom':
        return c[f[1]]
    if f[0] == 'const':
        return f[1]
    if f[0] == 'not':
        x = val(f[1], c)
        return None if x is None else not x
    if f[0] == 'and':
        xs = [val(g, c) for g in f[1:]]
        return False if False in xs else None if None in xs else True
    if f[0] == 'or':
        xs = [val(g, c) for g in f[1:]]
        return True if True in xs else None if None in xs else False
    return None


def regions(at):
    at = sorted(at, key=repr)
    for bits in cartesian((False, True), repeat=len(at)):
        yield dict(zip(at, bits))


def shifted(x):
    """a position counted from the size of a collection: the position without the shift"""
    def size(v):
        v = bare(v)
        return v.op == 'const' and isinstance(v.x, int) or v.op == 'call' and v.x[0] == 'builtins.len' or v.op == 'rcall' and rq(v).endswith('.__len__') or v.op in ('bin', 'aug') and v.x in ('Add', 'Sub') and all(size(a) for a in v.args)
    while x.op in ('bin', 'aug') and x.x in ('Add', 'Sub') and len(x.args) == 2:
        rest = [a for a in x.args if not size(a)]
        if len(rest) != 1 or x.x == 'Sub' and rest[0] is x.args[1]:
            break
        x = bare(rest[0])
    return x


class Caches:
    def __init__(self, ck, fn, I, S):
        self.ck, self.fn, self.I, self.S = ck, fn, I, S
        self.names = {}
        self.adds = [e for e in I.trace if e.kind == 'rcall' and e.val is not None and rq(e.val) == 'basis.Basis.__iadd__']
        self.inst = {e.val.uid: e for e in I.trace if e.kind == 'instantiate'}
        self.inst.update({e.x[2].uid: e for e in I.trace if e.kind == 'instantiate' and len(e.x) > 2 and isinstance(e.x[2], V)})
        self.memo_ = {}
        self.assume = {}

    # ---- conditions on whole sets: is a set of strings empty? -------------------------------------------------------------

    def empties(self, g):
        """tests for emptiness a condition is made of: (key, set of strings)"""
        g = bare(g)
        if g.op == 'un' and g.x in ('not', 'Not'):
            return self.empties(g.args[0])
        if g.op == 'bool':
            return [x for a in g.args for x in self.empties(a)]
        t = self.emptiness(g)
        return [t] if t is not None else []

    def emptiness(self, g):
        """(key, set, truth value of g when the set is empty)"""
        g = bare(g)
        n = self.sized(g)
        if n is not None:
            return ('len', n.key), n, False
        if g.op == 'cmp' and len(g.args) == 2:
            a, b = bare(g.args[0]), bare(g.args[1])
            na, nb = self.sized(a), self.sized(b)
            if na is not None and is_const(b):
                if g.x == 'Eq' and b.x == 0 or g.x == 'LtE' and b.x == 0 or g.x == 'Lt' and b.x == 1:
                    return ('len', na.key), na, True
            if nb is not None and is_const(a):
                if g.x == 'Eq' and a.x == 0:
                    return ('len', nb.key), nb, True
                if g.x == 'Lt' and a.x == 0 or g.x == 'LtE' and a.x == 1:
                    return ('len', nb.key), nb, False
        return None

    def sized(self, v):
        v = bare(v)
        if v.op == 'rcall' and rq(v) == 'basis.Basis.__len__' or v.op == 'call' and v.x[0] == 'builtins.len':
            o = bare(v.args[0])
            return bare(o.args[0]) if o.op == 'attr' and o.x in ('op_strings', '_op_strings') else o
        return None

    def decided(self, g):
        """truth of a condition under the assumptions about empty sets"""
        g = bare(g)
        if g.op == 'const' and isinstance(g.x, bool):
            return g.x
        if g.op == 'un' and g.x in ('not', 'Not'):
            x = self.decided(g.args[0])
            return None if x is None else not x
        if g.op == 'bool':
            xs = [self.decided(a) for a in g.args]
            if g.x in ('and', 'And'):
                return False if False in xs else None if None in xs else True
            return True if True in xs else None if None in xs else False
        t = self.emptiness(g)
        if t is not None and t[0] in self.assume:
            return t[2] if self.assume[t[0]] else not t[2]
        return None

    def happens(self, e):
        """does the event happen under the assumptions?"""
        out = True
        for g, p in e.guards:
            x = self.decided(g)
            if x is None:
                out = None
            elif x is not bool(p):
                return False
        return out

    # ---- strings contained in a value ------------------------------------------------------------------------------------

    def atom(self, k, v):
        self.names.setdefault(k, show(v, 3))
        return ('atom', k)

    def ty(self, v):
        t = self.I.T.ty(v)
        c = self.I.T.repo_class(t)
        return c.qual if c is not None else t

    def iscls(self, v, name):
        t = self.I.T.ty(v)
        c = self.I.T.repo_class(t)
        return c is not None and c.qual.split('.')[-1] == name

    def objects(self, v, seen=()):
        """(conditions, object) that a name may refer to"""
        v = bare(v)
        if v.uid in seen:
            return []
        seen = seen + (v.uid,)
        if v.op == 'rcall' and rq(v) == 'basis.Basis.__iadd__':
            return self.objects(v.args[0], seen)
        if v.op == 'join':
            return [(tuple(gs) + h, o) for a, gs in zip(v.args, v.x) for h, o in self.objects(a, seen)]
        if v.op == 'mu':
            return [x for a in list(v.args) + list(v.back) for x in self.objects(a, seen)]
        return [((), v)]

    def adding(self):
        """additions to objects: (event, origins)"""
        if not hasattr(self, '_adding'):
            self._adding = [(e, {o.uid for g, o in self.objects(e.args[0])}) for e in self.adds]
        return self._adding

    def contents(self, o, seq, d):
        """strings in the object o at time seq"""
        out = [self.base(o, seq, d)]
        for e, os in self.adding():
            if e.seq >= seq or o.uid not in os:
                continue
            h = self.happens(e)
            if h is False:
                continue
            f = self.operand(e.args[1], e.seq, d)
            out.append(f if h and len(os) == 1 and not e.loops else AND(f, UNK))
        return OR(*out) if len(out) > 1 else out[0]

    def setof(self, v, seq, depth=0):
        v = bare(v)
        if depth > 60:
            return UNK
        k = (v.uid, seq)
        if k not in self.memo_:
            self.memo_[k] = UNK
            self.memo_[k] = self.setof_(v, seq, depth + 1)
        return self.memo_[k]

    def setof_(self, v, seq, d):
        os = [o for g, o in self.objects(v) if not any(self.decided(x) is not None and self.decided(x) is not bool(p) for x, p in g)]
        fs = {self.contents(o, seq, d) for o in {o.uid: o for o in os}.values()}
        return fs.pop() if len(fs) == 1 else UNK

    def base(self, v, seq, d):
        if v.op == 'inst':
            e = self.inst.get(v.uid)
            if e is None or not e.x[0].endswith('.Basis'):
                return UNK
            a = dict(e.x[1])
            given = [x for x in a.values() if not is_const(x, None)]
            if not given:
                return ('const', False)
            return self.setof(given[0], e.seq, d) if len(given) == 1 else UNK
        if v.op == 'rcall':
            if rq(v) == 'basis.Basis.__add__' and len(v.args) == 2:
                t = self.seqof(v, seq)
                return OR(self.setof(v.args[0], t, d), self.operand(v.args[1], t, d))
            if self.iscls(v, 'Basis'):
                return self.atom(('v', v.key), v)
            return UNK
        if v.op == 'attr' and v.x in ('op_strings', '_op_strings'):
            return self.setof(v.args[0], seq, d)
        if v.op == 'attr' and v.x == '_basis' or self.iscls(v, 'Operator'):
            o = bare(v.args[0]) if v.op == 'attr' and v.x == '_basis' else v
            return self.atom(('operator', o.key), o)
        if self.iscls(v, 'Basis'):
            if v.op in ('join', 'mu'):
                return UNK
            return self.atom(('v', v.key), v)
        if v.op == 'mcall' and v.x[0] == 'keys' and v.args:
            return self.keys(v.args[0], seq)
        if v.op == 'call' and v.x[0] in COPY and v.args:
            return self.setof(v.args[0], self.seqof(v, seq), d)
        if v.op == 'param' and v.x[2] == 'dict' or v.op == 'param' and self.isdict(v):
            return self.keys(v, seq)
        if v.op == 'new' and v.x == 'dict':
            return self.keys(v, seq)
        if v.op == 'new' and v.x in ('list', 'set', 'tuple') or v.op == 'tuple':
            out = [('const', False)]
            init = v.args if v.op == 'tuple' else self.I.objinit.get(v.uid)
            for x in init or ():
                out.append(UNK)
            for e in self.I.byobj.get(v.uid, ()):
                if e.seq >= seq:
                    continue
                if e.kind == 'method' and e.x in ('append', 'add') and len(e.args) == 2:
                    f = self.member(e.args[1], e)
                    out.append(UNK if f is None else f)
                elif e.kind == 'method' and e.x in ('extend', 'update') and len(e.args) == 2 and not e.loops and not e.guards:
                    out.append(self.setof(e.args[1], e.seq, d))
                elif e.kind == 'method' and e.x in ('sort', 'reverse'):
                    pass
                else:
                    out.append(UNK)
            return OR(*out)
        if v.op == 'bin' and v.x == 'Add':
            return OR(*[self.setof(a, seq, d) for a in v.args])
        return UNK

    def isdict(self, v):
        return any(bare(e.args[0]) is v and e.kind == 'store_item' for e in self.I.trace if e.args and hasattr(e.args[0], 'op'))

    def seqof(self, v, dflt):
        """when was v computed?"""
        if not hasattr(self, '_when'):
            self._when = {}
            for e in self.I.trace:
                if e.val is not None and e.kind in ('rcall', 'call'):
                    self._when.setdefault(e.val.uid, e.seq)
        return self._when.get(v.uid, dflt)

    def operand(self, x, seq, d):
        if self.iscls(x, 'Basis') or bare(x).op in ('inst', 'new'):
            return self.setof(x, seq, d)
        if self.iscls(x, 'OperatorString'):
            return UNK
        return self.setof(x, seq, d)

    def source(self, x):
        """the collection that x is an element of"""
        x = bare(x)
        if x.op == 'elem':
            return bare(x.args[0])
        if x.op == 'item' and is_const(x.args[1], 1) and bare(x.args[0]).op == 'elem' and self.iscls(bare(x.args[0]).args[0], 'Operator'):
            return bare(bare(x.args[0]).args[0])
        i = b = None
        if x.op == 'item':
            b, i = bare(x.args[0]), bare(x.args[1])
        elif x.op == 'rcall' and rq(x) == 'basis.Basis.__getitem__':
            b, i = bare(x.args[0]), bare(x.args[1])
        if i is not None and i.op == 'idx' and len(i.args) == 1:
            n = bare(i.args[0])
            o = bare(n.args[0]) if n.args and (rq(n) == 'basis.Basis.__len__' if n.op == 'rcall' else n.op == 'call' and n.x[0] == 'builtins.len') else n if i.x[1] == 'enum' else None
            base = bare(b.args[0]) if b.op == 'attr' and b.x in ('op_strings', '_op_strings') else b
            if o is not None:
                o = bare(o.args[0]) if o.op == 'attr' and o.x in ('op_strings', '_op_strings') else o
                if o.key == base.key:
                    return b
        return None

    def loopof(self, x):
        x = bare(x)
        if x.op == 'elem':
            return x.x
        if x.op == 'idx':
            return x.x[0]
        if x.op in ('item', 'rcall') and len(x.args) == 2:
            return self.loopof(x.args[0]) if bare(x.args[0]).op == 'elem' else self.loopof(x.args[1])
        return None

    def loopseq(self, lid):
        """when the loop starts"""
        for e in self.I.trace:
            if any(getattr(l, 'id', l) == lid for l in e.loops):
                return e.seq
        return INF

    def member(self, x, e):
        """strings x for which event e happens"""
        src = self.source(x)
        if src is None:
            return None
        lid = self.loopof(x)
        f = [self.setof(src, self.loopseq(lid))]
        L = self.I.loops.get(lid)
        skip = {g.key for g, p in (L.guards if L is not None else ())}
        for g, p in e.guards:
            if g.key in skip or self.decided(g) is bool(p):
                continue
            c = self.cond(g, x, e)
            f.append(c if p else NOT(c))
        for l in e.loops:
            l = self.I.loops.get(getattr(l, 'id', l))
            if l is not None and l.kind != 'comp' and (l.brk or l.kind == 'while'):
                f.append(UNK)
        return AND(*f)

    def cond(self, g, x, e):
        g = bare(g)
        if g.op == 'un' and g.x in ('not', 'Not'):
            return NOT(self.cond(g.args[0], x, e))
        if g.op == 'bool':
            return (AND if g.x in ('and', 'And') else OR)(*[self.cond(a, x, e) for a in g.args])
        if g.op == 'rcall' and rq(g) == 'basis.Basis.__contains__' and bare(g.args[1]).key == bare(x).key:
            return self.setof(g.args[0], e.seq)
        if g.op == 'cmp' and g.x == 'In' and bare(g.args[0]).key == bare(x).key:
            z = bare(g.args[1])
            if z.op == 'param' and self.isdict(z) or z.op == 'new' and z.x == 'dict':
                return self.keys(z, e.seq, e)
            return self.setof(z, e.seq)
        if g.op == 'const' and isinstance(g.x, bool):
            return ('const', g.x)
        return UNK

    def keys(self, d, seq, at=None):
        d = bare(d)
        out = [self.atom(('keys', d.key), d)] if d.op == 'param' else [('const', False)]
        now = {getattr(l, 'id', l) for l in at.loops} if at is not None else set()
        for e in self.I.byobj.get(d.uid, ()):
            if e.kind != 'store_item' or e.seq >= seq or self.happens(e) is False:
                continue
            if now & {getattr(l, 'id', l) for l in e.loops}:
                continue  # keys of a loop are distinct: not stored yet
            f = self.member(e.args[1], e)
            out.append(UNK if f is None else f)
        return OR(*out)

    # ---- explorations -----------------------------------------------------------------------------------------------------

    def walk(self, v, stop=()):
        st, seen = [v], set()
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            yield x
            if x.key in stop:
                continue
            st.extend(x.args)
            if x.op == 'new':
                for e in self.I.byobj.get(x.uid, ()):
                    if e.kind == 'method' and e.x in ('append', 'extend', 'add'):
                        st.extend(e.args[1:])
                for y in self.I.objinit.get(x.uid) or ():
                    st.extend(y if isinstance(y, tuple) else (y,))

    def explore(self, r, roles):
        I, ck = self.I, self.ck
        stores = {}
        for e in I.trace:
            if e.kind == 'store_item' and len(e.args) == 3 and bare(e.args[0]).op == 'param':
                sc = {}
                for x in self.walk(e.args[2]):
                    if x.op == 'item' and bare(x.args[1]).key == bare(e.args[1]).key:
                        b = bare(x.args[0])
                        b = bare(b.args[0]) if b.op == 'item' and is_const(b.args[1], 0) else b
                        if b.op == 'rcall' and rq(b) in SC:
                            sc[b.key] = b
                if sc:
                    stores.setdefault(bare(e.args[0]).uid, []).append((e, list(sc.values())))
        for uid, es in stores.items():
            ck.count('explorations with caches')
            self.cache(bare(es[0][0].args[0]), es, r, roles)

    def bad(self, rule, e, msg, node=None):
        w = where(getattr(e, 'fn', None) or self.fn, node if node is not None else e.node) if e is not None else []
        self.ck.bad(rule, getattr(getattr(e, 'fn', None) or self.fn, 'qual', self.fn.qual), w, msg)

    def scargs(self, v):
        a = [bare(x) for x in v.args]
        return a[0], a[1]

    def cache(self, D, es, r, roles):
        ck, I, fn = self.ck, self.I, self.fn
        E = X = None
        ok = True
        for e, scs in es:
            if len(scs) != 1:
                ck.unsure('blocks explored', '%s: entries from several computations' % fn.qual)
                ok = False
                continue
            x, y = self.entry(e, D, scs[0], self.scargs(scs[0])[0], self.callseq(scs[0], e))
            X, E = X or x, E or y
        tests = {}
        gs = [g for e in [e for e, scs in es] + self.adds for g, p in e.guards]
        for e, scs in es:
            for sc in scs:
                for x in self.walk(sc):
                    gs += [g for alt in x.x for g, p in alt] if x.op == 'join' else []
        for g in gs:
            for k, n, t in self.empties(g):
                if k not in tests and atoms(self.setof(n, INF), set()):
                    tests[k] = n
        tests = list(tests.items())[:6]
        if E is not None:
            roles.setdefault(fn.qual, {}).update({'D': D, 'E': E, 'X': X})
            self.data(D, es)
            self.readers(D)
            self.returned(r, D, E, X)
        for truth in cartesian((False, True), repeat=len(tests)):
            self.assume = {k: t for (k, n), t in zip(tests, truth)}
            self.memo_ = {}
            self.blocks(D, E, X, es, ok, [n for (k, n), t in zip(tests, truth) if t])
        self.assume, self.memo_ = {}, {}

    def callseq(self, sc, e):
        I = self.I
        call = next((x for x in I.trace if x.kind == 'rcall' and x.val is sc), None) or next((x for x in I.trace if x.kind == 'rcall' and x.val is not None and x.val.key == sc.key), None)
        return call.seq if call is not None else e.seq

    def blocks(self, D, E, X, es, ok, empty):
        ck, I, fn = self.ck, self.I, self.fn
        blocks = []
        for e, scs in es:
            if len(scs) != 1 or self.happens(e) is False:
                continue
            sc = scs[0]
            N, M = self.scargs(sc)
            cs = self.callseq(sc, e)
            keys = self.member(e.args[1], e)
            blocks.append((e, self.setof(N, cs), keys if keys is not None else UNK, N, sc, self.setof(M, cs), cs))
        if E is None:
            ck.unsure('blocks explored', '%s: explored strings not found' % fn.qual)
            self.old(D, blocks, set())
            return
        if not ok:
            return
        fE0, fE1 = self.atom(('v', E.key), E), self.setof(E, INF)
        fK0, fK1 = self.atom(('keys', D.key), D), self.keys(D, INF)
        wantB = [p for p in I.params.values() if self.iscls(p, 'Basis') and p is not E and p is not X]
        wantH = [p for p in I.params.values() if self.iscls(p, 'Operator')]
        fs = [fE1, fK1] + [f for b in blocks for f in (b[1], b[2])]
        nil = [self.setof(n, min([b[0].seq for b in blocks] or [INF])) for n in empty]
        at = {('v', E.key), ('keys', D.key)}
        for f in fs + nil:
            atoms(f, at)
        fB = self.atom(('v', wantB[0].key), wantB[0]) if len(wantB) == 1 else None
        fH = self.atom(('operator', wantH[0].key), wantH[0]) if len(wantH) == 1 else None
        for f in (fB, fH):
            if f is not None:
                at.add(f[1])
        if len(at) > 7:
            ck.unsure('blocks explored', '%s: too many sets' % fn.qual)
            return
        rs = [c for c in regions(at) if not any(val(f, c) for f in nil)]
        ev = lambda f: [val(f, c) for c in rs]
        e0, e1, k0, k1 = ev(fE0), ev(fE1), ev(fK0), ev(fK1)
        name = lambda i: self.region(rs[i])
        node = es[0][0]
        for want, have, what in ((fB, e1, 'basis'), (fH, k1, 'operator')):
            if want is None:
                continue
            w = ev(want)
            miss = [i for i in range(len(rs)) if w[i] and have[i] is False]
            if miss:
                self.bad('given strings not explored', node, 'strings of the given %s that are %s are not explored' % (what, name(miss[0])))
            elif None in have:
                ck.unsure('given strings explored', fn.qual)
            else:
                ck.ok('given strings explored', '%s: %s' % (fn.qual, what))
        bs = [(ev(b[1]), ev(b[2])) for b in blocks]
        n = len(rs)
        unsure = missing = twice = extra = None
        total = 0
        for i in range(n):
            for j in range(n):
                c = [e0[i] and k0[j]] + [False if x[i] is False or y[j] is False else None if x[i] is None or y[j] is None else True for x, y in bs]
                t, u = c.count(True), c.count(None)
                total += 1
                want = False if e1[i] is False or k1[j] is False else None if e1[i] is None or k1[j] is None else True
                if t > 1:
                    twice = twice or (i, j)
                elif want is True and t == 0 and u == 0:
                    missing = missing or (i, j)
                elif want is False and t:
                    extra = extra or (i, j)
                elif want is None or u:
                    unsure = True
        ck.count('pairs of regions', total)
        say = lambda p: 'basis strings that are %s and operator strings that are %s' % (name(p[0]), name(p[1]))
        if twice:
            self.bad('explored twice', node, 'the entries for %s are computed although they are already cached, so they are counted twice' % say(twice))
        if missing:
            self.bad('not explored', node, 'the entries for %s are neither cached nor computed, but both count as explored afterwards' % say(missing))
        if extra:
            self.bad('not recorded as explored', node, 'the entries for %s are stored, but one of the two is not recorded as explored' % say(extra))
        if unsure and not (twice or missing or extra):
            ck.unsure('blocks explored', '%s: %s' % (fn.qual, [show(b[3], 3) for b in blocks]))
        elif not (twice or missing or extra):
            ck.ok('old entries and computed blocks partition what counts as explored', '%s: %d blocks, %d pairs of regions' % (fn.qual, len(blocks), total))
        self.old(D, blocks, at)

    def region(self, c):
        return ' and '.join('%s %s' % ('in' if b else 'not in', self.label(a)) for a, b in sorted(c.items(), key=repr))

    def label(self, a):
        return ('keys of ' if a[0] == 'keys' else '') + self.names.get(a, '?')

    # ---- one stored entry -------------------------------------------------------------------------------------------------

    def comps(self, e):
        x = bare(e.args[2])
        return x.args if x.op == 'tuple' else self.I.objinit.get(x.uid) if x.op == 'new' else None

    def slot(self, v, D, k):
        """j when v is component j of the entry of k in D"""
        v = bare(v)
        if v.op != 'item' or v.args[1].op != 'const':
            return None
        b = bare(v.args[0])
        if b.op == 'item' and bare(b.args[0]) is D and bare(b.args[1]).key == bare(k).key:
            return v.args[1].x
        if b.op == 'mcall' and b.x[0] in ('get', 'setdefault') and bare(b.args[0]) is D and bare(b.args[1]).key == bare(k).key:
            return v.args[1].x
        if b.op == 'join':
            js = {self.slot(V('item', (a, v.args[1]), None, v.node), D, k) for a in b.args}
            return js.pop() if len(js) == 1 else None
        return None

    def scslot(self, v, sc, k):
        v = bare(v)
        if v.op == 'item' and v.args[1].op == 'const':
            b = bare(v.args[0])
            if b.op == 'item' and bare(b.args[1]).key == bare(k).key:
                s = bare(b.args[0])
                if s.op == 'item' and is_const(s.args[1], 0):
                    s = bare(s.args[0])
                if s.key == sc.key:
                    return v.args[1].x
        return None

    def parts(self, v, D, k, sc, choose):
        """the pieces a list is put together from"""
        v = bare(v)
        if v.op in ('bin', 'aug') and v.x == 'Add':
            out = []
            for a in v.args:
                p = self.parts(a, D, k, sc, choose)
                if p is None:
                    return None
                out += p
            return out
        if v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple', 'copy.copy', 'copy.deepcopy', 'numpy.array') and v.args:
            return self.parts(v.args[0], D, k, sc, choose)
        if v.op == 'join':
            a = choose(v)
            return self.parts(a, D, k, sc, choose) if a is not None else None
        j = self.slot(v, D, k)
        if j is not None:
            return [('old', j)]
        j = self.scslot(v, sc, k)
        if j is not None:
            return [('new', j, (), 'raw')]
        if v.op in ('item', 'slice') and v.args and self.slot(v.args[0], D, k) is not None:
            i = bare(v.args[1])
            return [('some', self.slot(v.args[0], D, k))] if i.op == 'slice' and not all(is_const(y, None) for y in i.args) else [('old', self.slot(v.args[0], D, k))] if i.op == 'slice' else None
        if v.op == 'new' and v.x == 'list':
            out = []
            if self.I.objinit.get(v.uid):
                return None
            for e in self.I.byobj.get(v.uid, ()):
                if e.kind != 'method':
                    return None
                if e.x == 'append':
                    j = None
                    for l in e.loops:
                        L = self.I.loops.get(getattr(l, 'id', l))
                        it = bare(L.iter) if L is not None and L.iter is not None else None
                        its = it.args if it is not None and it.op == 'call' and it.x[0] in ('builtins.zip', 'builtins.enumerate') else (it,)
                        for y in its:
                            if y is None:
                                continue
                            n = bare(y)
                            if n.op == 'call' and n.x[0] in ('builtins.range',) and len(n.args) == 1 and bare(n.args[0]).op == 'call' and bare(n.args[0]).x[0] == 'builtins.len':
                                n = bare(bare(n.args[0]).args[0])
                            s = self.scslot(n, sc, k)
                            if s is not None:
                                j = ('new', self.which(e.args[1], sc, k, s))
                                o = {g.key for g, p in L.guards}
                                g = tuple(sorted((g.key, p) for g, p in e.guards if g.key not in o))
                                x = shifted(bare(e.args[1]))
                                j += (g, 'raw' if x.op == 'elem' and self.scslot(x.args[0], sc, k) is not None or x.op == 'item' and self.scslot(x.args[0], sc, k) is not None else '')
                            o = self.slot(n, D, k)
                            if o is not None:
                                j = ('old', o)
                    if j is None:
                        return None
                    out.append(j)
                elif e.x == 'extend':
                    p = self.parts(e.args[1], D, k, sc, choose)
                    if p is None:
                        return None
                    out += p
                elif e.x not in ('sort', 'reverse', 'insert', 'pop', 'clear', 'remove'):
                    continue
                else:
                    return None
            return out
        return None

    def which(self, x, sc, k, dflt):
        """the component that an appended value is computed from"""
        js = set()
        for y in self.walk(x):
            s = None
            if y.op == 'elem':
                s = self.scslot(y.args[0], sc, k)
            elif y.op == 'item':
                s = self.scslot(y.args[0], sc, k)
            if s is not None:
                js.add(s)
        return js.pop() if len(js) == 1 else dflt

    def entry(self, e, D, sc, N, cs):
        """the cached bases that positions of the stored entry refer to"""
        X = E = None
        for x in self.walk(e.args[2], stop={D.key}):
            if x.op == 'rcall' and rq(x) == 'basis.Basis.index':
                Z, y = bare(x.args[0]), bare(x.args[1])
                b = None
                if y.op == 'item' and bare(y.args[0]).op == 'attr' and bare(y.args[0]).x in ('op_strings', '_op_strings'):
                    b = bare(bare(y.args[0]).args[0])
                elif y.op == 'rcall' and rq(y) == 'basis.Basis.__getitem__':
                    b = bare(y.args[0])
                elif y.op == 'item':
                    b = bare(y.args[0])
                if b is None:
                    continue
                root = Z
                while root.op == 'rcall' and rq(root) == 'basis.Basis.__iadd__':
                    root = bare(root.args[0])
                if root.op != 'param':
                    continue
                ev = next((t for t in self.I.trace if t.kind == 'rcall' and t.val is x), None)
                seq = ev.seq if ev is not None else e.seq
                if b.key == N.key:
                    E = root
                    self.added(e, Z, self.setof(N, cs), seq, 'basis strings')
                elif b.op == 'item' and bare(b.args[0]).key == sc.key:
                    X = root
                    self.added(e, Z, self.atom(('v', b.key), b), seq, 'strings reached')
        return X, E

    def added(self, e, Z, f, seq, what):
        z = self.setof(Z, seq)
        at = atoms(z, atoms(f, set()))
        if len(at) > 7:
            return
        miss = [c for c in regions(at) if val(f, c) and val(z, c) is False]
        if miss:
            self.bad('looked up before being added', e, 'the %s that are %s are looked up in a cached basis that does not contain them' % (what, self.region(miss[0])))
        elif all(val(z, c) is not None for c in regions(at)):
            self.ck.ok('strings are in the cached basis when looked up', what)

    def old(self, D, blocks, at):
        """each entry continues all lists of the old entry"""
        ck, fn = self.ck, self.fn
        order = {}
        for e, fN, fkeys, N, sc, fm, cs in blocks:
            xs = self.comps(e)
            if not xs:
                ck.unsure('entries continued', fn.qual)
                continue
            k = e.args[1]
            indict = self.keys(D, e.seq, e)
            at2 = atoms(indict, atoms(fkeys, set(at)))
            if len(at2) > 7:
                continue
            verdict = None
            for c in regions(at2):
                inkeys = val(fkeys, c)
                if inkeys is False:
                    continue
                have = val(indict, c)

                def choose(v):
                    for a, gs in zip(v.args, v.x):
                        if self.truth(gs, k, c, e):
                            return a
                    return None
                ps = [self.parts(x, D, k, sc, choose) for x in xs]
                if any(p is None for p in ps) or inkeys is None:
                    verdict = verdict or 'unsure'
                    continue
                shapes = [tuple(q[0] for q in p) for p in ps]
                olds = [[q for q in p if q[0] in ('old', 'some')] for p in ps]
                news = [[q for q in p if q[0] == 'new'] for p in ps]
                if have and any(not o for o in olds):
                    self.bad('earlier entries lost', e, 'the entry of an operator string that is %s replaces its earlier entry' % self.region(c), k.node)
                    verdict = 'bad'
                elif any(q[0] == 'some' for o in olds for q in o):
                    self.bad('earlier entries lost', e, 'only a part of an earlier entry is kept', k.node)
                    verdict = 'bad'
                elif len({len(o) for o in olds}) > 1 or len({len(o) for o in news}) > 1 or any(len(o) > 1 for o in olds + news):
                    self.bad('lists of an entry out of step', e, 'the lists of an entry are continued differently: %s' % ', '.join('+'.join(s) for s in shapes), k.node)
                    verdict = 'bad'
                elif len(set(shapes)) > 1:
                    self.bad('lists of an entry out of step', e, 'the lists of an entry are continued in different orders: %s' % ', '.join('+'.join(s) for s in shapes), k.node)
                    verdict = 'bad'
                elif len({o[0][2] for o in news if o}) > 1:
                    self.bad('lists of an entry out of step', e, 'different new values are left out of the lists of an entry', k.node)
                    verdict = 'bad'
                else:
                    for i, (o, w) in enumerate(zip(olds, news)):
                        if o and o[0][1] != i:
                            self.bad('lists of an entry out of step', e, 'list %d of an entry continues list %s of the earlier entry' % (i, o[0][1]), k.node)
                            verdict = 'bad'
                        elif w and w[0][3] == 'raw' and w[0][1] in (0, 1):
                            self.bad('positions not translated', e, 'list %d of an entry collects positions in the strings of one exploration, not in the cached strings' % i, k.node)
                            verdict = 'bad'
                        elif w and order.setdefault(i, w[0][1]) != w[0][1] or sorted(order.values()) != sorted(set(order.values())):
                            self.bad('lists of an entry out of step', e, 'list %d of an entry collects values of different kinds' % i, k.node)
                            verdict = 'bad'
                if verdict == 'bad':
                    break
            if verdict is None:
                ck.ok('old entries are continued whole and in step', '%s: %s' % (fn.qual, show(k, 3)))
            elif verdict == 'unsure':
                ck.unsure('entries continued', fn.qual)

    def truth(self, gs, k, c, e):
        for g, p in gs:
            f = self.cond(g, k, e)
            x = val(f, c) if all(a in c for a in atoms(f, set())) else None
            if x is not p:
                return False
        return True

    def data(self, D, es):
        for e, scs in es:
            dep = None
            for x in self.walk(e.args[2], stop={D.key} | {s.key for s in scs}):
                if x.op == 'attr' and x.x == 'coeffs' or x.op == 'item' and is_const(x.args[1], 0) and bare(x.args[0]).op == 'elem' and self.iscls(bare(x.args[0]).args[0], 'Operator'):
                    dep = x
            if dep is not None:
                self.bad('cached data depends on coefficients', e, 'the stored entry depends on %s, but is reused for other operators with the same strings' % show(dep, 3))
            else:
                self.ck.ok('cached data depends on strings only', show(e.args[1], 3))

    # ---- use of cached entries -------------------------------------------------------------------------------------------

    def entryof(self, v, D):
        """(key, component) of a list of an entry of D"""
        v = bare(v)
        if v.op == 'item' and v.args[1].op == 'const':
            b = bare(v.args[0])
            if b.op == 'item' and bare(b.args[0]) is D:
                return bare(b.args[1]), v.args[1].x
            if b.op == 'mcall' and b.x[0] == 'get' and bare(b.args[0]) is D:
                return bare(b.args[1]), v.args[1].x
        return None

    def readers(self, D):
        I, ck = self.I, self.ck
        for L in I.loops.values():
            if L.iter is None:
                continue
            its = []
            it = bare(L.iter)
            for y in (it.args if it.op == 'call' and it.x[0] in ('builtins.zip', 'builtins.enumerate', 'builtins.range') else (it,)):
                y = bare(y)
                if y.op == 'call' and y.x[0] == 'builtins.zip':
                    its += [bare(z) for z in y.args]
                elif y.op == 'call' and y.x[0] == 'builtins.len':
                    its.append(bare(y.args[0]))
                else:
                    its.append(y)
            ent = [x for x in (self.entryof(y, D) for y in its) if x is not None]
            if not ent or len({k.key for k, j in ent}) != 1:
                continue
            key = ent[0][0]
            self.eachkey(L, key)
            for e in I.trace:
                if L.id not in [getattr(l, 'id', l) for l in e.loops] or e.kind not in ('method', 'store_item', 'rcall', 'aug_item'):
                    continue
                if e.kind == 'method' and e.x not in ('append', 'extend', 'add') or e.kind == 'rcall' and rq(e.val) != 'basis.Basis.__iadd__':
                    continue
                uses = {j for a in e.args for j in self.used(a, D, key, L)}
                if not uses:
                    continue
                seen = {j for g, p in e.guards for j in self.used(g, D, key, L)}
                if 1 not in seen:
                    self.bad('cached entries of other basis strings used', e, 'cached values are used without checking that they belong to a string of the given basis')
                else:
                    ck.ok('cached entries are used for strings of the given basis only', show(e.args[-1], 3))

    def eachkey(self, L, key):
        """inside a loop over operator strings, the entry read is that of the current string"""
        outer = None
        P = L.parent
        while P is not None:
            P = self.I.loops.get(getattr(P, 'id', P))
            if P is None:
                break
            it = bare(P.iter) if P.iter is not None else None
            if it is not None and (self.iscls(it, 'Operator') or self.iscls(it, 'Basis') or it.op == 'attr' and it.x in ('op_strings', '_op_strings', '_basis')):
                outer = P
                if any(x.op == 'elem' and x.x == P.id or x.op == 'idx' and x.x[0] == P.id for x in self.walk(key)):
                    self.ck.ok('the entry of the current string is read', show(key, 3))
                    return
            P = P.parent
        if outer is not None and self.source(key) is None:
            self.bad('entry of another string', outer, 'in a loop over operator strings, the cached entry of %s is read in every pass' % show(key, 3))

    def used(self, v, D, key, L):
        out = set()
        st, seen = [v], set()
        while st:
            y = st.pop()
            if y.uid in seen:
                continue
            seen.add(y.uid)
            if y.op in ('elem', 'item') and y.args:
                x = self.entryof(y.args[0], D)
                if x is not None and x[0].key == key.key and (y.op == 'elem' and y.x == L.id or y.op == 'item' and bare(y.args[1]).op == 'idx' and bare(y.args[1]).x[0] == L.id):
                    out.add(x[1])
            if y.op != 'mu':
                st.extend(y.args)
        return out

    def returned(self, r, D, E, X):
        for v, guards, node, state in self.I.returns:
            b = bare(v)
            xs = b.args if b.op == 'tuple' else self.I.objinit.get(b.uid) if b.op == 'new' else (b,)
            for x in xs or ():
                roots = {z.uid for y in self.I.roots(x) for z in self.origins(y)}
                for c, n in ((E, 'explored strings'), (X, 'reached strings'), (D, 'structure constants')):
                    if c is not None and c.uid in roots:
                        self.ck.bad('cache returned', self.fn.qual, where(self.fn, node), 'the cache of %s is returned as a result, so results depend on earlier explorations' % n)

    def origins(self, v):
        out, st, seen = [], [v], set()
        while st:
            x = bare(st.pop())
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op == 'rcall' and rq(x) == 'basis.Basis.__iadd__':
                st.append(x.args[0])
            elif x.op == 'mu':
                st += list(x.args) + list(x.back)
            elif x.op == 'join':
                st += list(x.args)
            else:
                out.append(x)
        return out

    # ---- memo tables -----------------------------------------------------------------------------------------------------

    def memo(self):
        """if k in D: D[k] else: D[k] = f(...): k must determine f(...)"""
        I, ck = self.I, self.ck
        tables = {}
        for e in I.trace:
            if e.kind != 'store_item' or len(e.args) != 3:
                continue
            d, k = bare(e.args[0]), bare(e.args[1])
            if not (d.op == 'new' and d.x == 'dict' or d.op == 'param' and self.isdict(d) or d.op == 'attr'):
                continue
            if not any(self.asks(g, p, d, k) for g, p in e.guards):
                continue
            if not self.isread(d, k, e):
                continue
            ck.count('memo tables')
            stop = {k.key} | {bare(x).key for x in self.pieces(k)}
            free = None
            st, seen = [e.args[2]], set()
            while st:
                x = bare(st.pop())
                if x.uid in seen or x.key in stop:
                    continue
                seen.add(x.uid)
                if x.op in ('item', 'mcall') and x.args and bare(x.args[0]).key == d.key:
                    continue
                if x.op in ('elem', 'idx', 'mu') and self.inner(x, d):
                    free = x
                    break
                st.extend(x.args)
                if x.op == 'new':
                    st.extend(y for y in self.I.objinit.get(x.uid) or () if isinstance(y, V))
            tables.setdefault(d.key, []).append((e, k))
            if free is None:
                free = self.unordered(k, e.args[2])
                if free is not None:
                    self.bad('memo key incomplete', e, 'the stored value depends on the order of %s and %s, the key does not' % tuple(show(x, 3) for x in free))
                    continue
            if free is not None:
                self.bad('memo key incomplete', e, 'the stored value depends on %s, which is not part of the key %s' % (show(free, 3), show(k, 3)))
            else:
                ck.ok('memo keys determine the stored value', '%s: %s' % (self.fn.qual, show(k, 3)))

        for es in tables.values():
            fs = {}
            for e, k in es:
                f = {rq(x) for x in self.computed(e.args[2])}
                if len(f) == 1:
                    fs.setdefault((k.op, len(k.args)), []).append((f.pop(), e))
            for xs in fs.values():
                if len({f for f, e in xs}) > 1:
                    self.bad('memo table used for two computations', xs[-1][1], 'results of %s are stored in one table under the same kind of key' % ' and '.join(sorted({f for f, e in xs})))

    def computed(self, v):
        v = bare(v)
        if v.op == 'rcall':
            return [v]
        if v.op in ('item', 'tuple'):
            return [x for a in v.args for x in self.computed(a)]
        return []

    def unordered(self, k, v):
        """two parts of an unordered key that the value treats differently"""
        if k.op == 'call' and k.x[0] in ('builtins.tuple', 'builtins.str', 'builtins.repr') and k.args:
            return self.unordered(bare(k.args[0]), v)
        if not (k.op == 'call' and k.x[0] in ('builtins.frozenset', 'builtins.set', 'builtins.sorted') and k.args or k.op == 'new' and k.x == 'set'):
            return None
        ps = [bare(x).key for x in self.pieces(k)]
        for x in self.computed(v):
            if rq(x) in ORDERED and len(x.args) >= 2 and all(bare(a).key in ps for a in x.args[:2]):
                return x.args[0], x.args[1]
        return None

    def asks(self, g, p, d, k):
        g = bare(g)
        if g.op == 'un' and g.x in ('not', 'Not'):
            return self.asks(g.args[0], not p, d, k)
        if g.op == 'bool':
            return any(self.asks(a, p, d, k) for a in g.args)
        return g.op == 'cmp' and g.x == 'In' and bare(g.args[1]).key == d.key and bare(g.args[0]).key == k.key and p is False

    def isread(self, d, k, e):
        """is the table also read under the same key where it is present?"""
        for v in self.reads().get(d.key, ()):
            if bare(v.args[1]).key == k.key:
                if any(self.asks(g, not p, d, k) for g, p in self.I.vguards.get(v.uid, ())):
                    b = [y for y in self.I.byobj.get(d.uid, ()) if y.kind == 'aug_item']
                    return not b
        return False

    def reads(self):
        if not hasattr(self, '_reads'):
            self._reads = {}
            seen = set()
            st = [a for e in self.I.trace for a in list(e.args) + ([e.val] if e.val is not None else []) if hasattr(a, 'op')]
            st += [g for e in self.I.trace for g, p in e.guards]
            while st:
                x = st.pop()
                if x.uid in seen:
                    continue
                seen.add(x.uid)
                if x.op == 'item':
                    self._reads.setdefault(bare(x.args[0]).key, []).append(x)
                st.extend(x.args)
        return self._reads

    def pieces(self, k):
        k = bare(k)
        out = []
        if k.op == 'tuple':
            for a in k.args:
                out.append(a)
                out += self.pieces(a)
        elif k.op == 'call' and k.x[0] in ('builtins.tuple', 'builtins.frozenset', 'builtins.str', 'builtins.repr', 'builtins.hash') and k.args:
            out.append(k.args[0])
            out += self.pieces(k.args[0])
        elif k.op == 'call' and k.x[0] == 'builtins.sorted' and k.args:
            out += self.pieces(k.args[0])
        elif k.op == 'new':
            for a in self.I.objinit.get(k.uid) or ():
                if isinstance(a, V):
                    out.append(a)
                    out += self.pieces(a)
        return out

    def inner(self, x, d):
        """does x vary while the table d lives?"""
        lid = x.x if x.op == 'elem' else x.x[0]
        L = self.I.loops.get(lid)
        if L is None:
            return True
        made = self.I.objmade.get(d.uid)
        if made is not None and L.id in [getattr(l, 'id', l) for l in made[0]]:
            return False
        return True


class Calls(Caches):
    """callers of an exploration hand the caches on together"""

    def __init__(self, ck, fn, I, S, roles):
        Caches.__init__(self, ck, fn, I, S)
        self.roles = roles

    def run(self):
        if self.fn.qual in self.roles:
            return
        used = {}
        calls = []
        for e in self.I.trace:
            q = e.x[0] if e.kind == 'icall' else rq(e.val) if e.kind == 'rcall' and e.val is not None else None
            if q in self.roles:
                calls.append((e, q))
        self.caches = {}
        for e, q in calls:
            R = self.roles[q]
            f = self.ck.ctx.prog.find(q)
            names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
            got = {}
            for c in 'EXD':
                p = R.get(c)
                if p is None:
                    continue
                n = p.x[1]
                if n in names and names.index(n) < len(e.args):
                    got[c] = bare(e.args[names.index(n)])
            self.one(e, q, got, used)
            for c, v in got.items():
                for g, o in self.objects(v):
                    self.caches[o.uid] = (c, o)
        names = {'E': 'explored strings', 'X': 'reached strings', 'D': 'structure constants'}
        for e in self.adds + [e for e in self.I.trace if e.kind == 'store_item']:
            if getattr(e.fn, 'qual', None) in self.roles or set(self.roles) & {getattr(f, 'qual', f) for f in e.stack or ()}:
                continue
            for g, o in self.objects(e.args[0]):
                if o.uid in self.caches:
                    self.bad('cache changed outside the exploration', e, 'the cache of %s is changed here without exploring' % names[self.caches[o.uid][0]])

    def alts(self, v):
        """(conditions, origin) of a cache value"""
        v = bare(v)
        while v.op == 'rcall' and rq(v) == 'basis.Basis.__iadd__':
            v = bare(v.args[0])
        if v.op == 'mu':
            return self.alts(v.args[0]) if v.args else []
        if v.op == 'join':
            return [(tuple((g.key, p) for g, p in gs) + h, o) for a, gs in zip(v.args, v.x) for h, o in self.alts(a)]
        if v.op == 'item' and v.args[1].op == 'const':
            return [((), ('item', bare(v.args[0]).key, v.args[1].x))]
        if v.op == 'inst' or v.op == 'new':
            return [((), ('fresh', v.uid))]
        return [((), ('other', v.key))]

    def one(self, e, q, got, used):
        ck = self.ck
        al = {c: self.alts(v) for c, v in got.items()}
        cs = sorted(al)
        bad = None
        for i, c in enumerate(cs):
            for d in cs[i + 1:]:
                for g, a in al[c]:
                    for h, b in al[d]:
                        G = dict(g)
                        if any(k in G and G[k] != p for k, p in h):
                            continue
                        if a[0] == 'fresh' and b[0] == 'item' or a[0] == 'item' and b[0] == 'fresh':
                            bad = 'an empty cache is combined with a filled one'
                        elif a[0] == b[0] == 'item' and a[1] == b[1] and a[2] == b[2]:
                            bad = 'one cache is passed for two'
                        elif a[0] == b[0] == 'fresh' and a[1] == b[1]:
                            bad = 'one cache is passed for two'
        names = {'E': 'explored strings', 'X': 'reached strings', 'D': 'structure constants'}
        for c in cs:
            for g, a in al[c]:
                if a[0] == 'other':
                    continue
                o = used.setdefault(a, c)
                if o != c:
                    bad = 'the cache of %s is passed as the cache of %s' % (names[o], names[c])
        order = self.ck.ctx.__dict__.setdefault('_cacheorder', {})
        for c in cs:
            for g, a in al[c]:
                if a[0] == 'item' and isinstance(a[2], int):
                    o = order.setdefault((q, c), a[2])
                    if o != a[2]:
                        bad = 'the cache of %s is entry %d of the given caches here and entry %d elsewhere' % (names[c], a[2], o)
        if bad:
            self.bad('caches mixed up', e, bad)
        elif len(cs) == 3:
            ck.ok('caches handed on together', '%s calls %s' % (self.fn.qual, q))
