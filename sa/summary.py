"""Closed forms of loops over the letters of a string.

The letters fall into finitely many classes (their name, membership of their label in a set, ...).  For each class the body of a loop is reduced to one affine map of
every loop-carried quantity; if these maps commute, the quantity after the loop is a function of how many letters of each class there are, and formulas on it are decided on the
finite set of residues of those numbers."""
import itertools

from .values import V

WRAP = {'builtins.list', 'builtins.tuple', 'builtins.iter', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.asanyarray', 'numpy.ravel'}
ID = {'builtins.int', 'builtins.float', 'numpy.real_if_close', 'builtins.bool', 'numpy.float64', 'numpy.int64', 'numpy.bool_'}
ABS = {'builtins.abs', 'numpy.abs', 'numpy.absolute'}


class Unknown(Exception):
    pass


NONE = object()


def bare(v):
    while v.op == 'narrow' or v.op == 'call' and v.x[0] in WRAP and v.args and not (v.x[0] in ('builtins.list', 'builtins.tuple') and len(v.args) != 1):
        v = v.args[0]
    return v


def evaluate(v, leaf, depth=0):
    """value of v when `leaf` gives the values of its leaves; Unknown when it is not determined"""
    if depth > 60:
        raise Unknown('depth')
    r = leaf(v)
    if r is not NONE:
        return r

    def e(x):
        return evaluate(x, leaf, depth + 1)
    op = v.op
    if op == 'const':
        return v.x
    if op in ('narrow', 'unlisted'):
        if op == 'narrow':
            return e(v.args[0])
        raise Unknown('unlisted')
    if op in ('bin', 'aug') and len(v.args) == 2 or op == 'aug':
        a, b = e(v.args[0]), e(v.args[1])
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Pow': lambda: a ** b,
                    'BitXor': lambda: a ^ b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b}[v.x]()
        except (KeyError, TypeError, ZeroDivisionError, ValueError, OverflowError):
            raise Unknown(v.x)
    if op == 'un':
        a = e(v.args[0])
        try:
            return not a if v.x == 'not' else -a if v.x == 'USub' else +a if v.x == 'UAdd' else ~a
        except TypeError:
            raise Unknown('un')
    if op == 'cmp':
        a, b = e(v.args[0]), e(v.args[1])
        try:
            if v.x == 'Eq':
                return a == b
            if v.x == 'Is':
                return a is b or a == b and not isinstance(a, (list, tuple))
            if v.x == 'In':
                return a in b
            if v.x == 'Lt':
                return a < b
            if v.x == 'LtE':
                return a <= b
        except TypeError:
            pass
        raise Unknown('cmp')
    if op == 'bool':
        unk = None
        for a in v.args:
            try:
                t = e(a)
            except Unknown as u:
                unk = u
                continue
            if bool(t) != (v.x == 'and'):
                return t
        if unk:
            raise unk
        return t
    if op == 'join':
        return e(choose(v, leaf, depth))
    if op == 'tuple':
        return tuple(e(a) for a in v.args)
    if op == 'item':
        a = e(v.args[0])
        b = e(v.args[1])
        try:
            return a[b]
        except (TypeError, IndexError, KeyError):
            raise Unknown('item')
    if op == 'attr' and v.x in ('real', 'imag'):
        a = e(v.args[0])
        if isinstance(a, (int, float, complex)):
            return complex(a).real if v.x == 'real' else complex(a).imag
    if op == 'mcall' and v.x[0] == 'get' and len(v.args) in (2, 3):
        a, b = e(v.args[0]), e(v.args[1])
        if isinstance(a, dict):
            return a[b] if b in a else e(v.args[2]) if len(v.args) == 3 else None
    if op == 'mcall' and v.x[0] in ('conj', 'conjugate'):
        a = e(v.args[0])
        if isinstance(a, (int, float, complex)):
            return complex(a).conjugate()
    if op == 'call':
        f = v.x[0]
        if f in ID and len(v.args) == 1:
            return e(v.args[0])
        if f == 'builtins.complex' and len(v.args) == 1:
            return complex(e(v.args[0]))
        if f in ABS:
            return abs(e(v.args[0]))
        if f in ('numpy.conj', 'numpy.conjugate'):
            return complex(e(v.args[0])).conjugate()
        if f in ('numpy.real', 'numpy.imag'):
            a = complex(e(v.args[0]))
            return a.real if f == 'numpy.real' else a.imag
        if f in ('builtins.pow', 'numpy.power') and len(v.args) == 2:
            try:
                return e(v.args[0]) ** e(v.args[1])
            except (TypeError, ZeroDivisionError):
                raise Unknown('pow')
        if f in ('numpy.mod', 'numpy.remainder') and len(v.args) == 2:
            return e(v.args[0]) % e(v.args[1])
        if f in ('builtins.round', 'numpy.sign', 'numpy.rint', 'numpy.round') and len(v.args) == 1:
            a = e(v.args[0])
            return (a > 0) - (a < 0) if f == 'numpy.sign' else round(a)
        if f in ('numpy.logical_and', 'numpy.logical_or') and len(v.args) == 2:
            a, b = e(v.args[0]), e(v.args[1])
            return a and b if f.endswith('and') else a or b
        if f == 'numpy.logical_not':
            return not e(v.args[0])
        if f in ('numpy.isclose', 'numpy.allclose', 'math.isclose') and len(v.args) >= 2:
            return abs(e(v.args[0]) - e(v.args[1])) < 1e-9
    raise Unknown(op + ' ' + str(v.x)[:40])


def holds(guards, leaf, depth=0):
    """True/False for a conjunction; Unknown when not determined and nothing is false"""
    unk = None
    for c, p in guards:
        try:
            if bool(evaluate(c, leaf, depth + 1)) != p:
                return False
        except Unknown as u:
            unk = u
    if unk:
        raise unk
    return True


def choose(v, leaf, depth=0):
    """the alternative of a join"""
    left, unk = [], None
    for a, g in zip(v.args, v.x):
        if not g:
            left.append(a)
            continue
        try:
            if holds(g, leaf, depth):
                return a
        except Unknown as u:
            unk = u
            left.append(a)
    if len(left) == 1 and (unk is None or len(v.args) > 1):
        return left[0]
    if len({a.key for a in left}) == 1:
        return left[0]
    raise unk or Unknown('join')


class Letters:
    """loops over the letters of strings.  `seq(v)` names the sequence that v is (or None): all named sequences of one string run in parallel;
    `classes`: list of dicts name -> value of the current letter of that sequence; `fact(v, cls)`: value of other per-letter quantities (NONE if it has none)"""

    def __init__(self, I, seq, classes, fact=None, base=None, member=None):
        self.member = member      # member(name of a sequence, class): does the sequence contain the letters of this class?
        self.I, self.seq, self.classes, self.fact, self.base = I, seq, classes, fact, base
        self.maps = {}
        self.partial = None

    def walks(self, L):
        """does loop L run over all letters?  True / False (part of them) / None"""
        v = L.iter
        if v is None:
            return None
        return self.covers(v)

    def inloop(self, L, cls):
        if self.member is None:
            return True
        names = {self.seq(x) for x in self.below(L.iter)} - {None}
        return all(self.member(x, cls) for x in names) if names else True

    def below(self, v):
        st, seen = [v], set()
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            yield x
            if not self.seq(x):
                st.extend(x.args)

    def covers(self, v):
        v = bare(v)
        if self.seq(v):
            return True
        if v.op == 'item' and v.args[1].op == 'slice' and self.covers(v.args[0]) is not None:
            lo, hi, step = v.args[1].args
            if lo.op == 'const' and lo.x in (None, 0) and hi.op == 'const' and hi.x is None and step.op == 'const' and step.x in (None, 1, -1):
                return self.covers(v.args[0])
            if lo.op == 'const' and lo.x not in (None, 0) or hi.op == 'const' and hi.x is not None or step.op == 'const' and step.x not in (None, 1, -1):
                return False
            return None
        if v.op == 'call' and v.x[0] in ('builtins.zip', 'builtins.enumerate', 'builtins.reversed', 'builtins.sorted'):
            rs = [self.covers(a) for a in v.args[:1] if v.x[0] == 'builtins.enumerate'] or [self.covers(a) for a in v.args]
            return False if False in rs else True if True in rs else None
        if v.op == 'call' and v.x[0] in ('builtins.range', 'numpy.arange'):
            a = list(v.args)
            start = V('const', (), 0)
            step = 1
            if len(a) == 3:
                if a[2].op != 'const' or a[2].x not in (1, -1):
                    return False if a[2].op == 'const' else None
                step = a[2].x
            if len(a) >= 2:
                start, stop = a[0], a[1]
            else:
                stop = a[0]
            if step == -1:
                return None
            n = self.lenof(stop)
            if n is None:
                return None
            if start.op != 'const':
                return None
            return n == 0 and start.x == 0
        return None

    def lenof(self, v):
        """v = number of letters + d: d"""
        if v.op == 'call' and v.x[0] == 'builtins.len' and self.seq(bare(v.args[0])):
            return 0
        if v.op == 'item' and v.args[0].op == 'attr' and v.args[0].x == 'shape' and self.seq(bare(v.args[0].args[0])):
            return 0
        if v.op == 'attr' and v.x == 'size' and self.seq(bare(v.args[0])):
            return 0
        if v.op == 'bin' and v.x in ('Add', 'Sub') and v.args[1].op == 'const':
            n = self.lenof(v.args[0])
            return None if n is None else n + (v.args[1].x if v.x == 'Add' else -v.args[1].x)
        return None

    def current(self, v, cls):
        """value of a per-letter quantity"""
        w = v
        while w.op == 'narrow' or w.op == 'call' and w.x[0] in ('builtins.str', 'builtins.int', 'numpy.str_') and len(w.args) == 1:
            w = w.args[0]
        s = None
        if w.op == 'elem':
            s = self.seq(bare(w.args[0]))
        elif w.op == 'item' and w.args[1].op == 'idx':
            s = self.seq(bare(w.args[0]))
        elif w.op == 'item' and w.args[1].op == 'const' and w.args[0].op == 'elem':
            z = bare(w.args[0].args[0])
            if z.op == 'call' and z.x[0] == 'builtins.zip' and w.args[1].x < len(z.args):
                s = self.seq(bare(z.args[w.args[1].x]))
        if s and s in cls:
            return cls[s]
        if self.fact is not None:
            r = self.fact(v, cls)
            if r is not NONE:
                return r
        return NONE

    def affine(self, m):
        """per class (a, b) with m -> a*m + b, or None when it is not of this form"""
        if m.uid in self.maps:
            return self.maps[m.uid]
        self.maps[m.uid] = None
        L = self.I.loops.get(m.x[0])
        if L is None or L.kind not in ('for', 'comp') or not L.ends:
            return None
        w = self.walks(L)
        if w is not True:
            if w is False:
                self.partial = L
            return None
        out = []
        n = len(L.guards)
        for cls in self.classes:
            if not self.inloop(L, cls):
                out.append((1, 0))
                continue
            ys = []
            for x in (0, 1, 2, 5):
                def leaf(v):
                    if v.uid == m.uid:
                        return x
                    return self.leaf(v, cls)
                try:
                    ends = [s for s in L.ends if self.feasible(s.guards[n:], leaf)]
                    vals = {evaluate(s.env.get(m.x[1], m), leaf) for s in ends}
                    for b in L.brk or ():
                        if self.feasible(getattr(b, 'guards', ())[n:], leaf):
                            return None
                except Unknown:
                    return None
                if len(vals) > 1:
                    return None
                if not vals:
                    ys = None        # this class never gets to the end of the body
                    break
                ys.append(vals.pop())
            if ys is None:
                out.append(None)
                continue
            b = ys[0]
            a = ys[1] - b
            if abs(ys[2] - (2 * a + b)) > 1e-9 or abs(ys[3] - (5 * a + b)) > 1e-9:
                return None
            out.append((a, b))
        maps = [q for q in out if q is not None]
        for (a, b), (c, d) in itertools.combinations(maps, 2):
            if abs(a * d + b - c * b - d) > 1e-9:
                return None
        self.maps[m.uid] = out
        return out

    def feasible(self, guards, leaf):
        """may the guards hold? Unknown conditions that are none of the class's business count as possible only if nothing else decides"""
        return holds(guards, leaf)

    def leaf(self, v, cls):
        if cls is not None:
            r = self.current(v, cls)
            if r is not NONE:
                return r
        if self.base is not None:
            r = self.base(v)
            if r is not NONE:
                return r
        if v.op == 'join' and cls is not None:
            return NONE
        return NONE

    # ---- after the loops, for given numbers of letters of each class -----------------------------------------------------

    def total(self, v, counts, leaf=None):
        return evaluate(v, lambda w: self.outer(w, counts))

    def outer(self, v, counts):
        if self.base is not None:
            r = self.base(v)
            if r is not NONE:
                return r
        if v.op == 'mu':
            maps = self.affine(v)
            if maps is None:
                raise Unknown('loop ' + str(v.x[1]))
            x = evaluate(v.args[0], lambda w: self.outer(w, counts))
            for q, n in zip(maps, counts):
                if n and q is None:
                    raise Unknown('path')
                for _ in range(n):
                    x = q[0] * x + q[1]
            return x
        if self.lenof(v) is not None:
            return sum(counts) + self.lenof(v)
        if v.op == 'call' and v.args:
            f = v.x[0]
            if f == 'builtins.len':
                return self.fold(bare(v.args[0]), counts, 'len')
            if f in ('builtins.sum', 'numpy.sum', 'numpy.count_nonzero'):
                return self.fold(bare(v.args[0]), counts, 'sum')
            if f in ('numpy.prod', 'math.prod'):
                return self.fold(bare(v.args[0]), counts, 'prod')
        if v.op == 'mcall' and v.x[0] == 'count' and len(v.args) == 2:
            s = self.seq(bare(v.args[0]))
            if s and v.args[1].op == 'const':
                return sum(n for n, c in zip(counts, self.classes) if c.get(s) == v.args[1].x)
            w = bare(v.args[0])
            if w.op == 'new' and v.args[1].op == 'const':
                return self.fold(w, counts, ('count', v.args[1].x))
        if v.op == 'mcall' and v.x[0] == 'sum' and len(v.args) == 1:
            return self.fold(bare(v.args[0]), counts, 'sum')
        return NONE

    def fold(self, w, counts, how):
        """length, sum or product over a list built by one loop over the letters, or of an elementwise expression of the letters"""
        if w.op == 'new' and w.x in ('list', 'set') or w.op == 'new':
            if self.I.objinit.get(w.uid):
                raise Unknown('list')
            evs = [e for e in self.I.byobj.get(w.uid, ())]
            if not evs or any(e.kind != 'method' or e.x not in ('append',) for e in evs):
                raise Unknown('list')
            add, mul = 0, 1
            for cls, n in zip(self.classes, counts):
                def leaf(v):
                    return self.leaf(v, cls)
                for e in evs:
                    if len(e.loops) != 1:
                        raise Unknown('nested')
                    L = e.loops[-1]
                    c = self.walks(L)
                    if c is not True:
                        if c is False:
                            self.partial = L
                        raise Unknown('walk')
                    if n and self.inloop(L, cls) and holds(e.guards[len(L.guards):], leaf):
                        if how == 'len':
                            add += n
                        else:
                            x = evaluate(e.args[1], leaf)
                            if isinstance(how, tuple):
                                add += n * (x == how[1])
                            else:
                                add += n * x
                                mul *= x ** n
            return mul if how == 'prod' else add
        if self.mentions(w):
            add, mul = 0, 1
            for cls, n in zip(self.classes, counts):
                def leaf(v):
                    s = self.seq(bare(v))
                    if s and s in cls:
                        return cls[s]
                    return self.leaf(v, cls)
                x = evaluate(w, leaf)
                add += n * x
                mul *= x ** n
            return mul if how == 'prod' else add
        raise Unknown('fold')

    def mentions(self, w):
        st, seen = [w], set()
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if self.seq(x):
                return True
            st.extend(x.args)
        return False


def residues(n, pair=5, single=8):
    """numbers of letters per class: each class alone, and all pairs (triples when there are few classes)"""
    if n <= 3:
        yield from itertools.product(range(pair), repeat=n)
        return
    z = [0] * n
    yield tuple(z)
    for i in range(n):
        for a in range(1, single):
            y = list(z)
            y[i] = a
            yield tuple(y)
        for j in range(i):
            for a, b in itertools.product(range(1, pair), repeat=2):
                y = list(z)
                y[i], y[j] = a, b
                yield tuple(y)
