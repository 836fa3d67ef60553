"""C14: eigenvalues and eigenvectors stay paired."""
from ..spaces import EIGH, SVD, rq
from ..summary import bare
from ..values import show
from .c06 import runs
from .c07 import Matrices
from .c18 import where
from .c27 import closure

RULE = ('Arrays that come from an eigen- or singular-value decomposition carry, along the axis of the eigenvalues, the decomposition and the chain of re-orderings and selections applied so far. An index computed in one order may only be used on '
        'arrays in the same order and only along that axis; values and vectors that are returned, passed on, iterated or read at the same position together must have gone through the same chain. Taking the first n entries keeps the pairing.')
ASSUME = ['eigenvectors are the columns of the second result of eigh/eig/eigsh (numpy, scipy)', 'conditions with different expressions are treated as independent only when one of the two values does not depend on them']
DECOMP = EIGH | SVD


def run(ck):
    for fn, r, S in runs(ck):
        P = Spectra(ck, fn, r.I, S)
        P.run(r)
    ck.floor('decompositions', 3)


class Spectra(Matrices):
    def run(self, r):
        I, S = self.I, self.S
        self.seen = set()
        vs = self.values()
        dec = [v for v, e in vs if v.op == 'call' and v.x[0] in DECOMP or v.op == 'rcall' and rq(v) in ('core.commuting_operators', 'core.invariant_operators')]
        self.columnwise()
        if not dec:
            return
        for k in {v.key for v in dec}:
            self.ck.count('decompositions')
        self.reads = []
        done = set()
        for v, e in vs:
            k = (v.key, tuple(g.key for g, p in I.vguards.get(v.uid, ())))
            if k in done:
                continue
            done.add(k)
            if v.op == 'item':
                self.index(v, e, v.args[0], v.args[1])
            elif v.op == 'tuple':
                self.group(v, e, v.args)
            elif v.op == 'rcall':
                self.group(v, e, v.args)
        for e in I.trace:
            if e.kind in ('store_item', 'aug_item') and e.args:
                self.index(e.val if e.val is not None else e.args[1], e, e.args[0], e.args[1])
            elif e.kind in ('rcall', 'icall', 'dyncall', 'instantiate') and e.args:
                self.group(e.val if e.val is not None else e.args[0], e, [a for a in e.args if hasattr(a, 'op')])
            if e.kind == 'instantiate' and e.args:
                self.vector(e)
            if e.kind == 'method' and e.x == 'sort' and e.args:
                self.inplace(e)
        for val, guards, node, state in I.returns:
            b = bare(val)
            xs = b.args if b.op == 'tuple' else I.objinit.get(b.uid) if b.op == 'new' else None
            if xs:
                self.group(b, None, xs, guards, node)
        self.collected()
        self.truncated()
        for L in I.loops.values():
            it = bare(L.iter) if L.iter is not None else None
            if it is not None and it.op == 'call' and it.x[0] == 'builtins.enumerate' and it.args:
                it = bare(it.args[0])
            if it is not None and it.op == 'call' and it.x[0] == 'builtins.zip':
                self.zipped(L, it)
        self.together()

    # ---- orders ----------------------------------------------------------------------------------------------------------

    def alts(self, t):
        """alternatives (conditions, axis without inner alternatives)"""
        if t is None:
            return []
        if t[0] == 'phi':
            return [(tuple(g) + h, y) for g, x in t[1] for h, y in self.alts(x)]
        if t[0] == 'sel':
            return [(h, y if y == ('unknown',) else ('sel', t[1], y)) for h, y in self.alts(t[2])]
        return [((), t)]

    def order(self, t):
        """(decomposition, selections) of an axis; prefixes do not count"""
        steps = []
        while t is not None and t[0] == 'sel':
            if not (t[1][0] == 'slice' and self.prefix(t[1])):
                steps.append(t[1])
            t = t[2]
        return (t, tuple(steps)) if t is not None and t[0] == 'eig' else None

    def prefix(self, how):
        from ..values import const
        n = const(None).key
        one = const(1).key
        return how[1] == n and how[3] in (n, one) and not self.negative(how[2])

    def negative(self, key):
        if not hasattr(self, 'negs'):
            self.negs = set()
            for v, e in self.values():
                if v.op == 'slice' and (v.args[1].op == 'const' and isinstance(v.args[1].x, int) and v.args[1].x < 0 or v.args[1].op == 'un' and v.args[1].x in ('USub', 'neg', '-')):
                    self.negs.add(v.args[1].key)
        return key in self.negs

    def spectral(self, t):
        xs = [x for g, x in self.alts(t) if x != ('unknown',)]
        return bool(xs) and all(self.order(x) for x in xs)

    def bases(self, t):
        return {self.order(x)[0] for g, x in self.alts(t) if x != ('unknown',) and self.order(x)}

    def match(self, a, b):
        """same order of the same decomposition? None: unrelated or unknown"""
        if a is None or b is None:
            return None
        A, B = self.alts(a), self.alts(b)
        one, two = [set() for x in A], [set() for y in B]
        for i, (g, x) in enumerate(A):
            for j, (h, y) in enumerate(B):
                dg, dh = dict(g), dict(h)
                if self.S.excluded(dg, dh):
                    continue
                if not (set(dg) <= set(dh) or set(dh) <= set(dg)):
                    r = None
                else:
                    r = self.match1(x, y)
                    if r == 'other':
                        continue
                    if r == 'diff' and any(p and k in self.S.firsts() for k, p in list(dg.items()) + list(dh.items())):
                        r = None
                one[i].add(r)
                two[j].add(r)
        # an alternative whose condition is not known may go with any alternative of the other
        if any(rs == {'diff'} for rs in one + two):
            return 'diff'
        return 'same' if set().union(*one) == {'same'} else None

    def match1(self, x, y):
        o, p = self.order(x), self.order(y)
        if o is None or p is None:
            return None
        if o[0] != p[0]:
            return 'other'
        if o[1] == p[1]:
            return 'same'
        s, t = list(o[1]), list(p[1])
        while s and t and s[-1] == t[-1]:
            s.pop()
            t.pop()
        if not s or not t:
            return 'diff'
        if any(k[0] == 'array' for k in s + t):
            return None
        return 'diff'

    # ---- single uses -----------------------------------------------------------------------------------------------------

    def scope(self, v, e, guards=None):
        g = self.I.vguards.get(v.uid) if v is not None else None
        if g is None:
            g = guards if guards is not None else e.guards if e is not None else ()
        return g

    def at(self, v, e, t):
        return self.S.given(t, self.scope(v, e))

    def index(self, v, e, b, i):
        S = self.S
        b = bare(b)
        if b.op == 'new' and b.x == 'dict':
            return
        a = S.axes(b)
        if not a:
            return
        parts = i.args if i.op == 'tuple' else (i,)
        spec = [k for k, t in enumerate(a) if self.spectral(t)]
        for k, (p, t) in enumerate(zip(parts, a)):
            if p.op == 'slice':
                continue
            if k in spec:
                self.reads.append((p, self.at(v, e, t), len(a), v, e))
            sp = S.elems(p) if S.isarray(p) else S.space(p)
            if sp is None or not self.spectral(sp):
                continue
            sp = self.at(v, e, sp)
            if k in spec:
                t = self.at(v, e, t)
                r = self.match(sp, t) if not (bare(p).op == 'idx') else None
                if r is None and self.bases(sp) and self.bases(t) and not self.bases(sp) & self.bases(t) and self.exact(sp) and self.exact(t) and bare(p).op != 'idx':
                    r = 'diff'
                if r == 'diff':
                    self.wrong('selected in another order', e, v, 'positions in %s are used to select from %s' % (S.show(sp), S.show(t)))
                elif r == 'same':
                    self.ck.ok('selected by an index in the same order', getattr(e.fn, 'qual', ''))
            elif spec and self.bases(sp) & self.bases(a[spec[0]]):
                if any(j < len(parts) and parts[j].op != 'slice' for j in spec):
                    continue
                self.wrong('vectors selected along the wrong axis', e, v, 'positions of eigenvalues are used on axis %d, but the eigenvectors are along axis %d' % (k, spec[0]))

    # ---- orders found from the columns -----------------------------------------------------------------------------------

    def columnwise(self):
        """positions sorted by a quantity computed from each column must be applied to the columns, those of rows to the rows"""
        I = self.I
        for v, e in self.values():
            if v.op != 'item':
                continue
            i = bare(v.args[1])
            if i.op != 'tuple' or len(i.args) != 2:
                continue
            for k in (0, 1):
                p, q = bare(i.args[k]), i.args[1 - k]
                if not (q.op == 'slice' and all(bare(a).op == 'const' and bare(a).x is None for a in q.args)):
                    continue
                while p.op == 'item' and (p.args[1].op == 'slice' or p.args[1].op == 'const' and p.args[1].x == 0 and bare(p.args[0]).op == 'call' and bare(p.args[0]).x[0] in ('numpy.where', 'numpy.nonzero')):
                    p = bare(p.args[0])
                if p.op != 'call' or p.x[0] not in ('numpy.argsort', 'numpy.where', 'numpy.nonzero') or not p.args:
                    continue
                ax = self.measured(bare(p.args[0]), bare(v.args[0]))
                if ax is None:
                    continue
                if ax == k:
                    self.ck.ok('order applied to the axis it was found from', getattr(e.fn, 'qual', '') if e is not None else self.fn.qual)
                else:
                    self.wrong('order applied to the wrong axis', e, v, 'the positions were found from the %s of the matrix, but are applied to its %s' % (('rows', 'columns')[ax], ('rows', 'columns')[k]))

    def measured(self, q, b):
        """axis of b whose members the entries of the list q were computed from"""
        while q.op == 'call' and q.x[0] in ('numpy.array', 'numpy.asarray', 'numpy.abs') and q.args:
            q = bare(q.args[0])
        if q.op != 'new' or q.x != 'list':
            return None
        got = set()
        for e in self.I.byobj.get(q.uid, ()):
            if e.kind == 'method' and e.x == 'append' and len(e.args) == 2 and e.loops:
                for w in closure(e.args[1]):
                    if w.op == 'item' and bare(w.args[0]).key == b.key and bare(w.args[1]).op == 'tuple' and len(bare(w.args[1]).args) == 2:
                        x, y = bare(w.args[1]).args
                        for k, (m, n) in enumerate(((x, y), (y, x))):
                            m = bare(m)
                            if m.op == 'idx' and m.x[0] == e.loops[-1].id and n.op == 'slice':
                                got.add(k)
                            elif m.op != 'slice':
                                got.add(None)
                        continue
                    if w.op == 'item' and bare(w.args[0]).key == b.key:
                        i = bare(w.args[1])
                        got.add(0 if i.op == 'idx' and i.x[0] == e.loops[-1].id else None)
            else:
                got.add(None)
        got |= {None for x in self.I.objinit.get(q.uid) or ()}
        return got.pop() if len(got) == 1 else None

    def truncated(self):
        """the number of values kept is the number of columns kept"""
        S = self.S
        vals, rows, blocks = {}, [], set()
        for v, e in self.values():
            if v.op != 'item':
                continue
            b, i = bare(v.args[0]), bare(v.args[1])
            a = S.axes(b)
            if not a:
                continue
            parts = i.args if i.op == 'tuple' else (i,)
            if any(p.op != 'slice' for p in parts):
                continue
            none = [all(bare(x).op == 'const' and bare(x).x is None for x in p.args) for p in parts]
            spec = [k for k, t in enumerate(a) if self.spectral(t)]
            if len(a) == 1 and spec == [0] and not none[0]:
                for d in self.bases(a[0]):
                    vals.setdefault(d, set()).add(parts[0].args[1].key)
            elif len(a) == 2:
                # blocks of the matrix: other rows, or columns cut as well
                blocks |= {b.key} if len(parts) > 1 and not none[1] or not bare(parts[0].args[0]).op == 'const' else set()
            if len(a) == 2 and spec == [1] and not none[0] and (len(parts) < 2 or none[1]) and not any(x[0] == 'sel' and x[1][0] == 'slice' for g, x in self.alts(a[1])):
                rows.append((v, e, a[1], bare(parts[0].args[1])))
        for v, e, t, n in rows:
            if n.op != 'const' and bare(v.args[0]).key not in blocks and v.key not in blocks and all(n.key in vals.get(d, ()) for d in self.bases(t)):
                self.wrong('rows kept instead of columns', e, v, 'as many rows of the eigenvectors are kept as eigenvalues, but the eigenvectors are the columns')

    def exact(self, t):
        return all(x != ('unknown',) for g, x in self.alts(t))

    def vector(self, e):
        """a row of the matrix of eigenvectors is not an eigenvector"""
        S = self.S
        if getattr(e.val, 'x', None) is None or S.cls(e.val) != 'Operator':
            return
        v = bare(e.args[0])
        a = S.axes(v)
        if a and len(a) == 1 and self.spectral(a[0]) and v.op == 'item':
            b = S.axes(v.args[0])
            if b and len(b) == 2 and self.spectral(b[1]) and not self.spectral(b[0]):
                self.wrong('vectors selected along the wrong axis', e, v, 'a row of the matrix of eigenvectors is used as an eigenvector')

    def inplace(self, e):
        S = self.S
        b = bare(e.args[0])
        a = S.axes(b)
        if not a or len(a) != 1 or not self.spectral(a[0]) or b.op == 'new':
            return
        vecs = [v for v, x in self.values() if (S.axes(v) or ()) and len(S.axes(v)) == 2 and self.spectral(S.axes(v)[1]) and self.bases(S.axes(v)[1]) & self.bases(a[0])]
        if vecs:
            self.wrong('values and vectors in different orders', e, b, 'eigenvalues are sorted in place, their eigenvectors are not')

    # ---- values that belong together -------------------------------------------------------------------------------------

    def group(self, v, e, xs, guards=None, node=None):
        S = self.S
        one, two = [], []
        for x in xs:
            if not hasattr(x, 'op'):
                continue
            a = S.axes(x)
            if not a:
                continue
            if len(a) == 1 and self.spectral(a[0]) and S.elems(x) is None:
                one.append((x, a[0]))
            elif len(a) == 2:
                for k, t in enumerate(a):
                    if t is not None and self.spectral(t) and not (a[1 - k] is not None and self.spectral(a[1 - k])):
                        two.append((x, t))
        if not one or not two:
            return
        g = self.scope(v, e, guards)
        G = lambda t: S.given(t, g)
        for x, t in one:
            rs = [self.match(G(t), G(u)) for y, u in two]
            if 'same' in rs:
                self.ck.ok('values and vectors handed on in the same order', getattr(getattr(e, 'fn', None), 'qual', self.fn.qual))
            elif 'diff' in rs:
                y, u = two[rs.index('diff')]
                msg = 'values in the order %s are handed on together with vectors in the order %s' % (S.show(G(t)), S.show(G(u)))
                if e is None:
                    self.ck.bad('values and vectors in different orders', self.fn.qual, where(self.fn, node or self.fn.node), msg)
                else:
                    self.wrong('values and vectors in different orders', e, v, msg)

    def collected(self):
        """values and vectors appended to lists side by side"""
        by = {}
        for e in self.I.trace:
            if e.kind == 'method' and e.x == 'append' and len(e.args) > 1:
                k = (tuple(l.id for l in e.loops), tuple((c.key, bool(p)) for c, p in e.guards))
                by.setdefault(k, []).append(e)
        for es in by.values():
            self.group(es[0].args[1], es[0], [e.args[1] for e in es])

    def zipped(self, L, it):
        S = self.S
        ax = [S.axes(x) for x in it.args]
        ones = [a[0] for a in ax if a and len(a) == 1 and self.spectral(a[0])]
        for a in ax:
            if not a or len(a) != 2:
                continue
            for t in ones:
                if self.spectral(a[0]):
                    r = self.match(t, a[0])
                elif a[1] is not None and self.spectral(a[1]) and self.bases(t) & self.bases(a[1]):
                    r = 'row'
                else:
                    continue
                if r in ('diff', 'row'):
                    self.ck.bad('values and vectors in different orders', self.fn.qual, where(L.fn, L.node),
                                'eigenvalues are iterated together with the rows of the matrix of eigenvectors' if r == 'row' else 'values in the order %s are iterated together with vectors in the order %s' % (S.show(t), S.show(a[0])))
                elif r == 'same':
                    self.ck.ok('values and vectors iterated in the same order', self.fn.qual)

    def together(self):
        """values and vectors read at the same position"""
        S = self.S
        by = {}
        for p, t, n, v, e in self.reads:
            p = bare(p)
            if p.op == 'const' and not isinstance(p.x, int):
                continue
            by.setdefault(p.key, []).append((p, t, n, v, e))
        self.positions()
        for rs in by.values():
            one = [r for r in rs if r[2] == 1]
            two = [r for r in rs if r[2] == 2]
            if not one or not two:
                continue
            for p, u, n, v, e in two:
                for h, y in self.alts(u):
                    ms = []
                    for q, t, m, w, f in one:
                        if y == ('unknown',) or not self.bases(t) & self.bases(y) or self.apart(self.scope(v, e), self.scope(w, f)):
                            continue
                        for g, x in self.alts(t):
                            if not any(dict(h).get(k, c) != c for k, c in g) and self.match1(x, y) != 'other':
                                ms.append((self.match1(x, y), x, y))
                    kinds = [m[0] for m in ms]
                    if 'same' in kinds:
                        self.ck.ok('values and vectors read at one position in the same order', getattr(e.fn, 'qual', ''))
                    elif 'diff' in kinds and None not in kinds:
                        m = ms[kinds.index('diff')]
                        self.wrong('values and vectors in different orders', e, v, 'position %s is read from values in the order %s and from vectors in the order %s' % (show(p, 2), S.show(m[1]), S.show(m[2])))

    def positions(self):
        """fixed positions of values and of vectors that are used side by side"""
        S = self.S
        by = {}
        for p, t, n, v, e in self.reads:
            p = bare(p)
            for g, x in self.alts(t):
                if x != ('unknown',) and n in (1, 2):
                    o = self.order(x)
                    by.setdefault(o, ({}, {}))[n - 1].setdefault(p.x if p.op == 'const' and isinstance(p.x, int) else None, []).append((p, v, e))
        for o, (one, two) in by.items():
            if one and two and None not in one and None not in two and not set(one) & set(two):
                p, v, e = next(iter(two.values()))[0]
                self.wrong('values and vectors at different positions', e, v, 'vector %s is used with value %s' % (sorted(two), sorted(one)))

    def apart(self, g, h):
        d = {c.key: p for c, p in g}
        return any(c.key in d and bool(d[c.key]) != bool(p) for c, p in h)
