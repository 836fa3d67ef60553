"""C28: every string, pair, letter, orbital and column is processed."""
import ast

from ..common import *
from ..entries import variants
from ..interp import AnalysisError
from ..paths import flat, norm
from ..values import V, is_const, show

RULE = ('Every for loop and comprehension of the library covers the collection it runs over: its range starts at 0, ends at the length and has step 1 (or the members it leaves out '
        'are reached through a shifted index or used separately); it does not run over a slice with fixed bounds; it is not left by break or return because of a condition on one member while '
        'it accumulates a result; what it accumulates does not depend on the position of the member; the collection does not shrink while it is walked; a loop over half of the index pairs '
        'fills both halves of the matrix. Generated bases combine every allowed number of labels, every choice of labels and every choice of letters.')
ASSUME = ['a collection sorted by size may be cut off: loops over sorted index lists are exempt from the rules on slices and break']

WRAP = {'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.reversed', 'builtins.enumerate', 'builtins.set', 'numpy.array', 'numpy.copy', 'numpy.asarray', 'builtins.sorted', 'copy.copy', 'copy.deepcopy'}
SORT = {'numpy.argsort', 'tools.argsort', 'numpy.lexsort'}
EIG = {'numpy.linalg.eigh', 'scipy.sparse.linalg.eigsh', 'scipy.linalg.eigh', 'numpy.linalg.eig', 'numpy.linalg.svd', 'scipy.linalg.svd', 'numpy.linalg.eigvalsh'}
DOMAIN = {'op_strings', 'coeffs', 'orbital_operators', 'orbital_labels', '_orbitals', 'atom_positions', 'atom_orbitals', 'lattice_vectors', '_labels_ab_operators', '_boundary_vectors'}
NODES = {}
ACC_METHOD = {'append', 'add', 'extend', 'update'}


def where(fn, node):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(node, 'lineno', 0), fn.qual)


def bare(v):
    while v.op in ('narrow', 'star') and v.args:
        v = v.args[0]
    return v


def closure(v, limit=4000):
    seen, out, st = set(), [], [v]
    while st and len(out) < limit:
        w = st.pop()
        if id(w) in seen:
            continue
        seen.add(id(w))
        out.append(w)
        st.extend(a for a in w.args if isinstance(a, V))
    return out


def name(v):
    return v.x[0] if v.op == 'call' else None


def num(v):
    v = bare(v)
    if v.op == 'const' and isinstance(v.x, (int, float)) and not isinstance(v.x, bool):
        return v.x
    if v.op == 'un' and v.x in ('neg', 'USub') and v.args:
        n = num(v.args[0])
        return None if n is None else -n
    return None


def linear(v):
    """(base or None, constant)"""
    v = bare(v)
    n = num(v)
    if n is not None:
        return None, n
    if v.op == 'call' and v.x[0] in ('builtins.int', 'numpy.int64', 'builtins.abs') and v.args:
        return linear(v.args[0])
    if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
        (a, x), (b, y) = linear(v.args[0]), linear(v.args[1])
        if b is None:
            return a, x + (y if v.x == 'Add' else -y)
        if a is None and v.x == 'Add':
            return b, x + y
        return v, 0
    return v, 0


class Run:
    def __init__(self, ck, r):
        self.ck, self.I, self.fn = ck, r.I, r.fn
        self.uses = {}       # loop id -> list of (offset or None, indexed value or None)
        self.consts = {}     # key of collection -> set of constant indices / slices used
        self.transposed = set()
        self.scan()

    # ---- what is indexed by what
    def scan(self):
        seen = set()
        st = []
        for e in self.I.trace:
            st += [a for a in e.args if isinstance(a, V)]
            if e.val is not None and isinstance(e.val, V):
                st.append(e.val)
            st += [c for c, p in e.guards]
        for v, g, n, s in self.I.returns:
            st.append(v)
        for L in self.I.loops.values():
            st += [x for x in (L.iter, L.test) if x is not None]
        for e in self.I.trace:
            # the index of a store
            if e.kind in ('store_item', 'aug_item') and len(e.args) > 1:
                self.index(e.args[0], e.args[1])
        while st:
            v = st.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            ch = [a for a in v.args if isinstance(a, V)]
            if v.op == 'item' and len(v.args) > 1:
                self.index(v.args[0], v.args[1])
            elif v.op == 'attr' and v.x in ('T', 'H') or v.op == 'mcall' and v.x[0] in ('transpose', 'conj', 'getH') if v.op in ('attr', 'mcall') else False:
                self.transposed.add(bare(v.args[0]).uid)
            elif v.op == 'idx':
                pass
            else:
                for a in ch:
                    self.value(a)
            if v.op == 'mu':
                st += list(v.back)
            st += ch

    def value(self, a):
        """a value that is used as it is"""
        b, d = linear(a)
        if b is not None and b.op == 'idx':
            self.uses.setdefault(b.x[0], []).append((d, None))

    def index(self, X, i):
        i = bare(i)
        for pos, j in enumerate(i.args if i.op == 'tuple' else [i]):
            j = bare(j)
            b, d = linear(j)
            if b is None:
                self.consts.setdefault(bare(X).key, set()).add((pos, d))
            elif b.op == 'idx':
                self.uses.setdefault(b.x[0], []).append((d, bare(X)))
            elif b.op == 'mu':
                self.uses.setdefault(b.uid, []).append((d, bare(X)))
            elif j.op == 'slice':
                self.consts.setdefault(bare(X).key, set()).add((pos, tuple(num(x) if isinstance(x, V) and num(x) is not None else (None if isinstance(x, V) and is_const(x, None) or not isinstance(x, V) else '?') for x in j.args)))

    # ---- dependence
    def depends(self, v, L, memo=None):
        memo = {} if memo is None else memo
        st, seen = [v], set()
        while st:
            w = st.pop()
            if id(w) in seen:
                continue
            seen.add(id(w))
            if w.op == 'elem' and w.x == L.id or w.op == 'idx' and w.x[0] == L.id:
                return True
            if w.op == 'mu' and w.x[0] != L.id:
                # computed by a loop inside this one
                M = self.I.loops.get(w.x[0])
                if M is not None and self.inside(M, L) and M.iter is not None:
                    st.append(M.iter)
            st.extend(a for a in w.args if isinstance(a, V))
        return False

    def inside(self, M, L):
        for k in range(20):
            M = getattr(M, 'parent', None)
            if M is None:
                return False
            if M is L or M.id == L.id:
                return True
        return False

    def sorted(self, v):
        v = bare(v)
        if v.op == 'call' and v.x[0].startswith('itertools.'):
            return False
        top, w = set(), v
        for k in range(12):
            top.add(w.key)
            if w.op == 'call' and w.x[0] in WRAP and w.args or w.op == 'item':
                w = bare(w.args[0])
                if w.op == 'call' and w.x[0].startswith('itertools.'):
                    return False
            else:
                break
        return any(w.op == 'call' and (w.x[0] in SORT or w.x[0] in EIG) or w.op == 'rcall' and w.x in ('tools.argsort',) or w.op == 'mcall' and w.x[0] in ('sort', 'argsort') for w in closure(v, 400)) or \
            any(e.kind == 'method' and e.x == 'sort' and e.args and bare(e.args[0]).key in top for e in self.I.trace)

    def bad(self, rule, at, msg):
        if isinstance(at, V):
            fn, w = self.fn, where(self.fn, at.node)
        elif hasattr(at, 'where'):
            fn, w = at.fn, at.where
        else:
            fn, w = at.fn, where(at.fn, at.node)
        owner = self.ck.ctx.prog.owner(at) if hasattr(at, 'stack') else fn
        self.ck.bad(rule, fn.qual, w, msg)

    # ---- loops
    def check(self):
        for L in self.I.loops.values():
            if L.kind in ('for', 'comp') and L.iter is not None:
                self.loop(L)
            elif L.kind == 'while' and L.test is not None:
                self.loopwhile(L)

    def good(self, L):
        k = id(L.node)
        if k not in self.ck.loops_done:
            self.ck.loops_done.add(k)
            self.ck.ok('loops over collections', '%s:%s' % (L.fn.qual, getattr(L.node, 'lineno', None) or getattr(L.iter.node, 'lineno', 0)))

    def loopwhile(self, L):
        """an index counted up to a length"""
        for c, p in flat(((L.test, True),)):
            c = bare(c)
            if not (c.op == 'cmp' and c.x in ('Lt', 'LtE', 'NotEq') and len(c.args) == 2 and p):
                continue
            i, (hb, h) = bare(c.args[0]), linear(c.args[1])
            if i.op != 'mu' or i.x[0] != L.id or hb is None or not self.quantity(hb):
                continue
            h += 1 if c.x == 'LtE' else 0
            uses = self.uses.get(i.uid, ())
            idx = [(d, X) for d, X in uses if X is not None]
            if not idx:
                continue
            offs = {d for d, X in idx}
            steps = {linear(b)[1] if linear(b)[0] is not None and linear(b)[0].uid == i.uid else None for v in i.back for b in self.alts(v)}
            if h < 0 and not any(d >= -h for d in offs):
                self.bad('members left out', L, '%s: the loop ends %d before the end of %s' % (L.fn.qual, -h, show(idx[0][1], 3)))
            elif steps and None not in steps and min(steps) > 1 and offs == {0}:
                self.bad('members left out', L, '%s: the index moves on by %s, so members of %s are left out' % (L.fn.qual, min(steps), show(idx[0][1], 3)))
            else:
                self.good(L)

    def alts(self, v, d=0):
        v = bare(v)
        if v.op == 'join' and d < 6:
            return [y for a in v.args for y in self.alts(a, d + 1)]
        return [v]

    def loop(self, L):
        ck = self.ck
        n0 = len(ck.findings)
        self.cover(L, L.iter)
        self.pairs(L)
        acc = self.accumulates(L)
        self.left(L, acc)
        self.position(L, acc)
        self.shrinks(L)
        if len(ck.findings) == n0:
            self.good(L)

    def cover(self, L, it, d=0, zipped=False):
        it = bare(it)
        if d > 8:
            return
        if it.op == 'join':
            for a in it.args:
                self.cover(L, a, d + 1, zipped)
            return
        if it.op == 'call' and it.x[0] == 'builtins.zip':
            bases = [bare(bare(a).args[0]).key for a in it.args if bare(a).op == 'item']
            for a in it.args:
                if bare(a).op == 'item' and bases.count(bare(bare(a).args[0]).key) > 1:
                    continue
                if bare(a).op == 'item' and any(bare(a2).key == bare(bare(a).args[0]).key for a2 in it.args):
                    continue
                self.cover(L, a, d + 1, True)
            return
        if it.op == 'call' and it.x[0] in WRAP and it.args:
            self.cover(L, it.args[0], d + 1, zipped)
            return
        if it.op == 'call' and it.x[0] in ('builtins.range', 'numpy.arange'):
            self.range(L, it)
            return
        if it.op == 'attr' and it.x == 'T':
            self.cover(L, it.args[0], d + 1)
            return
        if it.op == 'call' and it.x[0] == 'itertools.islice':
            self.slice(L, it, it.args[0], [None] + list(it.args[1:2]) if len(it.args) == 2 else list(it.args[1:]))
            return
        if it.op == 'item':
            for pos, s in enumerate(bare(it.args[1]).args if bare(it.args[1]).op == 'tuple' else [bare(it.args[1])]):
                s = bare(s)
                if s.op == 'slice':
                    self.slice(L, it, bare(it.args[0]), list(s.args), pos)

    def bounds(self, s):
        out = []
        for x in s:
            if x is None or not isinstance(x, V) or is_const(x, None):
                out.append((None, None))
                continue
            b, d = linear(x)
            out.append((b, d))
        return (out + [(None, None)] * 3)[:3]

    def slice(self, L, it, X, s, pos=0):
        if X.op == 'const' or X.op in ('tuple',) or X.op == 'new' and X.args and all(bare(a).op == 'const' for a in X.args) or X.op == 'mcall' and X.x[0] in ('split', 'splitlines', 'strip'):
            return
        if self.sorted(X):
            self.ck.unsure('part of a sorted list', '%s:%d' % (L.fn.qual, getattr(it.node, 'lineno', 0)))
            return
        (lb, lo), (hb, hi), (sb, st) = self.bounds(s)
        used = self.consts.get(X.key, set())
        have = {c for p, c in used if p == pos and not isinstance(c, tuple)}
        cut = {c for p, c in used if p == pos and isinstance(c, tuple)}
        miss = None
        if lb is None and lo and lo > 0:
            if not all(k in have for k in range(int(lo))) and not any(c[1] == lo and c[0] in (None, 0) for c in cut):
                miss = 'the first %s' % ('member' if lo == 1 else '%d members' % lo)
        if lb is None and lo and lo < -1:
            miss = 'all but the last %d members' % -lo
        short = None
        if hb is None and hi is not None and (hi < 0 or hi > 0):
            short = -hi if hi < 0 else None
            if hi > 0 and not any(c[0] == hi for c in cut) or hi < 0 and not (-1 in have and hi == -1) and not any(c[0] == hi for c in cut):
                miss = 'all but the first %d members' % hi if hi > 0 else 'the last %s' % ('member' if hi == -1 else '%d members' % -hi)
        elif hb is not None and hb.op == 'call' and hb.x[0] == 'builtins.len' and hi < 0 and -1 not in have:
            miss = 'the last %s' % ('member' if hi == -1 else '%d members' % -hi)
        if sb is None and st is not None and st not in (1, -1) and not cut - {(None if lo is None else lo, hi, st)}:
            miss = 'all but every %s member' % st
        if miss:
            self.bad('members left out', L, '%s: the loop over %s leaves out %s' % (L.fn.qual, show(X, 3), miss))

    def offsets(self, L):
        return [d for d, X in self.uses.get(L.id, ())]

    def range(self, L, it):
        a = list(it.args)
        if any(bare(x).op == 'star' for x in a):
            return
        lo, hi, st = (None, a[0], None) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else None)
        s = 1 if st is None else num(st)
        if s is None:
            return
        (lb, l), (hb, h) = linear(lo) if lo is not None else (None, 0), linear(hi)
        if s < 0:
            lb, l, hb, h = hb, h + 1, lb, l + 1
        uses = self.uses.get(L.id, ())
        idx = [(d, X) for d, X in uses if X is not None]
        if not uses:
            return
        offs = {d for d, X in uses}
        if abs(s) != 1:
            if idx and {d for d, X in idx} == {0} and hb is not None:
                self.bad('members left out', L, '%s: the loop takes only every %s member of %s' % (L.fn.qual, abs(s), show(idx[0][1], 3)))
            return
        firsts = lambda c: any(c in {k for p, k in self.consts.get(X.key, ())} for d, X in idx) if idx else False
        cuts = lambda: any(isinstance(k, tuple) for d, X in idx for p, k in self.consts.get(X.key, ()))
        # the end
        if hb is not None and hb.op not in ('idx',):
            b, short = hb, -h
            if b.op in ('bin',) and b.x in ('FloorDiv',) and num(b.args[1]) not in (None, 1) and idx and offs == {0} and self.count(b.args[0], idx):
                self.bad('members left out', L, '%s: the loop ends after a part of %s' % (L.fn.qual, show(idx[0][1], 3)))
            elif name(b) in ('builtins.min', 'numpy.minimum') and len(b.args) == 2 and any(num(x) is not None for x in b.args) and idx and any(self.count(x, idx) for x in b.args):
                self.bad('members left out', L, '%s: the loop stops after a fixed number of members of %s' % (L.fn.qual, show(idx[0][1], 3)))
            elif short > 0 and self.quantity(b) and not L.brk and not any(d >= short for d in offs) and not any(firsts(-k) for k in range(1, short + 1)) and not cuts():
                self.bad('members left out', L, '%s: the loop ends %d before %s, and the last members are not reached otherwise' % (L.fn.qual, short, show(b, 3)))
        elif hb is None and h > 0 and idx and (lb is None) and offs == {0}:
            # a fixed number of members of a collection of any length
            X = [X for d, X in idx if X.op == 'attr' and X.x in DOMAIN]
            if X:
                self.bad('members left out', L, '%s: the loop takes a fixed number of members of %s' % (L.fn.qual, show(X[0], 3)))
        # the start
        if lb is None and l > 0 and hb is not None and idx and not any(d <= -l for d in offs) and 0 in {d for d, X in idx}:
            if not any(firsts(k) for k in range(int(l))) and not cuts():
                self.bad('members left out', L, '%s: the loop starts at %d, and the first members of %s are not reached otherwise' % (L.fn.qual, l, show(idx[0][1], 3)))

    def count(self, v, idx):
        """v is the length of something that is indexed"""
        v = bare(v)
        keys = {X.key for d, X in idx}
        if v.op == 'call' and v.x[0] == 'builtins.len' and v.args:
            return bare(v.args[0]).key in keys or True
        return v.op == 'item' and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x == 'shape' or v.op == 'attr' and v.x == 'size'

    def quantity(self, b):
        """a number of members"""
        b = bare(b)
        if b.op == 'call' and b.x[0] == 'builtins.len':
            return True
        if b.op == 'item' and bare(b.args[0]).op == 'attr' and bare(b.args[0]).x == 'shape':
            return True
        if b.op == 'attr' and (b.x in ('size', 'dim') or b.x.startswith('num')):
            return True
        if b.op == 'param':
            return b.x[1].startswith('num_') or b.x[1] in ('n', 'dim', 'd', 'N')
        if b.op in ('rcall', 'mcall', 'dyn'):
            return False
        if b.op == 'bin' and b.x == 'Pow' and num(b.args[0]) == 2:
            return self.quantity(b.args[1])
        if b.op == 'join':
            return all(self.quantity(a) for a in b.args)
        return False

    def spread(self, v, d=0):
        """the alternatives of v, sums with constants taken apart"""
        v = bare(v)
        if v.op == 'join' and d < 5:
            return [y for a in v.args for y in self.spread(a, d + 1)]
        b, k = linear(v)
        if b is not None and bare(b).op == 'join' and d < 5:
            return [V('bin', (y, V('const', x=k)), 'Add') for a in bare(b).args for y in self.spread(a, d + 1)]
        return [v]

    # ---- half of the pairs
    def pairs(self, L):
        it = bare(L.iter)
        if not (it.op == 'call' and it.x[0] in ('builtins.range', 'numpy.arange')):
            return
        a = list(it.args)
        if len(a) > 2:
            return
        lo, hi = (None, a[0]) if len(a) == 1 else a
        other = None
        if lo is not None:
            b, c = linear(lo)
            if b is not None and b.op == 'idx':
                other = b.x[0]
                if c >= 2 and not any(d < 0 for d in self.offsets(L)):
                    self.bad('pairs left out', L, '%s: the inner loop starts %d after the outer one, so pairs of neighbours are left out' % (L.fn.qual, c))
                    return
        ends = [linear(x) for x in self.spread(hi)]
        ends = [(b, c) for b, c in ends if b is not None and b.op == 'idx'] or ends
        b, c = ends[0]
        if b is not None and b.op == 'idx':
            if other is not None:
                return
            other = b.x[0]
            if c < 0 and not any(d > 0 for d in self.offsets(L)):
                self.bad('pairs left out', L, '%s: the inner loop ends %d before the outer one, so pairs of neighbours are left out' % (L.fn.qual, -c))
                return
        if other is None:
            return
        O = self.I.loops.get(other)
        if O is None:
            return
        stores = {}
        for e in self.I.trace:
            if e.kind in ('store_item', 'aug_item') and L in e.loops and len(e.args) > 1 and bare(e.args[1]).op == 'tuple' and len(bare(e.args[1]).args) == 2:
                ij = [linear(x) for x in bare(e.args[1]).args]
                if all(b is not None and b.op == 'idx' and d == 0 for b, d in ij):
                    ids = tuple(b.x[0] for b, d in ij)
                    if set(ids) == {L.id, other}:
                        stores.setdefault(bare(e.args[0]).uid, {}).setdefault(ids, e)
        for uid, d in stores.items():
            if len(d) == 1:
                e = next(iter(d.values()))
                if uid in self.transposed:
                    continue
                self.bad('half of the pairs', e, '%s: the loops run over half of the index pairs, and only that half of the matrix is filled' % e.fn.qual)
            else:
                self.ck.ok('both halves filled', e_where(next(iter(d.values()))))

    # ---- leaving early
    def accumulates(self, L):
        out = []
        for e in self.I.trace:
            if L not in e.loops:
                continue
            if e.kind in ('aug_item', 'store_item') and e.args:
                o = bare(e.args[0])
                if self.outside(o, L):
                    out.append(e)
            elif e.kind == 'method' and e.x in ACC_METHOD and e.args and self.outside(bare(e.args[0]), L):
                out.append(e)
            elif e.kind in ('icall', 'rcall') and e.args and (e.x[0] if e.kind == 'icall' else e.x).endswith(('.__iadd__', '.__isub__', '.add_atom')) and self.outside(bare(e.args[0]), L):
                out.append(e)
            elif e.kind == 'aug_name' and e.args:
                if any(w.op == 'mu' and w.x[0] == L.id for w in closure(e.args[0], 50)):
                    out.append(e)
        return out

    def outside(self, o, L):
        """created before the loop"""
        if o.op in ('param', 'attr'):
            return True
        if o.op == 'mu':
            return True
        if o.op in ('new', 'inst', 'call', 'join'):
            e0 = self.I.objinit.get(o.uid) if hasattr(self.I.objinit, 'get') else None
            return not self.createdin(o, L)
        return False

    def createdin(self, o, L):
        n = getattr(o, 'node', None)
        if n is None or getattr(L.node, 'lineno', None) is None:
            return True
        m = L.node
        body = getattr(m, 'body', None)
        if not isinstance(body, list):
            return False
        return L.fn is not None and body[0].lineno <= n.lineno <= (body[-1].end_lineno or n.lineno)

    def elementwise(self, gs, L):
        own = self.nodes(L.fn)
        return [(c, p) for c, p in flat(gs[len(L.guards):]) if id(c.node) in own and self.depends(c, L)]

    def nodes(self, fn):
        k = id(fn.node)
        if k not in NODES:
            NODES[k] = (fn.node, {id(n) for n in ast.walk(fn.node)})
        return NODES[k][1]

    def left(self, L, acc):
        if not acc:
            return
        it = bare(L.iter)
        if self.sorted(L.iter) or it.op == 'call' and it.x[0] in ('builtins.range', 'numpy.arange') and not self.collection(it):
            return
        for b in L.brk:
            dep = self.elementwise(b.guards, L)
            if dep and self.search(dep, acc, L):
                continue
            if not dep:
                if [1 for c, p in flat(b.guards[len(L.guards):]) if id(c.node) in self.nodes(L.fn)] or not isinstance(getattr(L.node, 'body', None), list):
                    continue
                self.bad('loop left early', L, '%s: the loop over %s is left in its first pass' % (L.fn.qual, show(L.iter, 3)))
                return
            keys = {(c.key, p) for c, p in dep}
            free = [e for e in acc if e.fn is L.fn and keys - {(c.key, p) for c, p in flat(e.guards)}]
            if free:
                self.bad('loop left early', L, '%s: the loop over %s is left when %s%s for one member, so the members after it are not processed' % (L.fn.qual, show(L.iter, 3), '' if dep[0][1] else 'not ', show(dep[0][0], 3)))
                return
        for e in self.I.trace:
            if e.kind == 'return' and L in e.loops and e.fn is L.fn and e.args and bare(e.args[0]).op != 'const':
                dep = self.elementwise(e.guards, L)
                keys = {(c.key, p) for c, p in dep}
                vals = {w.key for w in closure(e.args[0], 300)}
                mine = [a for a in acc if a.fn is L.fn and (bare(a.args[0]).key in vals or a.kind == 'aug_name')]
                if mine and dep and [1 for a in mine if keys - {(c.key, p) for c, p in flat(a.guards)}] or mine and not [1 for c, p in flat(e.guards[len(L.guards):]) if id(c.node) in self.nodes(L.fn)]:
                    self.bad('loop left early', e, '%s: what was accumulated is returned from inside the loop over %s, before all members were processed' % (L.fn.qual, show(L.iter, 3)))
                    return

    def search(self, dep, acc, L):
        """running counters compared with what is looked for"""
        return all(e.kind == 'aug_name' for e in acc if e.fn is L.fn) and any(w.op == 'mu' and w.x[0] == L.id for c, p in dep for w in closure(c, 200))

    # ---- position
    def position(self, L, acc):
        if L.kind == 'comp':
            acc = [e for e in self.I.trace if L in e.loops and e.kind == 'method' and e.x == 'append'] or acc
        acc = [e for e in acc if e.fn is L.fn]
        if not acc:
            return
        common = None
        for e in acc:
            s = {}
            for c, p in flat(e.guards[len(L.guards):]):
                if self.positional(c, L) or self.bysize(c, L):
                    s[(c.key, p)] = (c, p)
            common = s if common is None else {k: v for k, v in common.items() if k in s}
            if not common:
                return
        c, p = next(iter(common.values()))
        # does the other side leave the loop with an error
        self.bad('members left out', L, '%s: the loop over %s only counts members for which %s%s, so the others are left out' % (L.fn.qual, show(L.iter, 3), '' if p else 'not ', show(c, 3)))

    def positional(self, c, L):
        c = bare(c)
        if c.op == 'un' and c.x == 'not':
            return self.positional(c.args[0], L)
        if c.op != 'cmp' or len(c.args) != 2:
            if c.op == 'bin' and c.x == 'Mod':
                b, d = linear(c.args[0])
                return b is not None and b.op == 'idx' and b.x[0] == L.id and num(c.args[1]) is not None
            return False
        for a, o in (c.args, c.args[::-1]):
            a, o = bare(a), bare(o)
            b, d = linear(a)
            if b is not None and b.op == 'bin' and b.x == 'Mod':
                b = linear(b.args[0])[0]
            if b is not None and b.op == 'idx' and b.x[0] == L.id:
                ob, od = linear(o)
                if ob is None and (c.x in ('Eq', 'NotEq') or od != 0) or ob is not None and ob.op == 'call' and ob.x[0] == 'builtins.len':
                    # idx < len(...) is no restriction
                    if c.x in ('Lt', 'LtE') and a is bare(c.args[0]) and ob is not None and od + (1 if c.x == 'LtE' else 0) >= 0 and d <= 0:
                        return False
                    it = bare(L.iter)
                    return self.collection(it)
        return False

    def bysize(self, c, L):
        """the number of letters of a string compared with a constant"""
        c = bare(c)
        if c.op == 'un' and c.x == 'not':
            return self.bysize(c.args[0], L)
        if c.op == 'cmp' and len(c.args) == 2:
            for a, o in (c.args, c.args[::-1]):
                a = bare(a)
                if num(o) is not None and self.size(a, L):
                    return True
        return False

    def size(self, a, L):
        if a.op == 'call' and a.x[0] in ('builtins.len', 'numpy.size') and a.args:
            x = bare(a.args[0])
        elif a.op == 'attr' and a.x == 'size':
            x = bare(a.args[0])
        else:
            return False
        while x.op == 'call' and x.x[0] in WRAP and x.args:
            x = bare(x.args[0])
        if x.op == 'attr' and x.x in ('orbital_operators', 'orbital_labels', '_indices_orbital_labels'):
            o = bare(x.args[0])
            return self.depends(o, L) and not any(w.op in ('rcall', 'new', 'dyn', 'mu') for w in closure(o, 30))
        return False

    def collection(self, it):
        if it.op == 'call' and it.x[0] == 'builtins.enumerate':
            return True
        if it.op == 'call' and it.x[0] in ('builtins.range', 'numpy.arange'):
            b, d = linear(it.args[0] if len(it.args) == 1 else it.args[1])
            return b is not None and b.op == 'call' and b.x[0] == 'builtins.len' or b is not None and self.quantity(b) and not (b.op == 'param' and 'step' in b.x[1])
        return False

    # ---- shrinking
    def shrinks(self, L):
        it = bare(L.iter)
        if it.op == 'call' and it.x[0] == 'builtins.enumerate':
            it = bare(it.args[0])
        if it.op not in ('new', 'param', 'attr', 'mu', 'join'):
            return
        for e in self.I.trace:
            if L in e.loops and e.kind == 'method' and e.x in ('remove', 'pop', 'insert', 'clear', 'discard', 'popitem') and e.args and bare(e.args[0]).key == it.key:
                if any(e.guards == b.guards[:len(e.guards)] for b in L.brk):
                    continue
                self.bad('collection changes while it is walked', e, '%s: %s is changed by %s() while the loop runs over it, so members are skipped' % (e.fn.qual, show(it, 3), e.x))
                return


LETTERS = (frozenset('XYZ'), frozenset('ABD'))


class Generated(Run):
    """the strings that cluster_basis lists"""

    def peel(self, v):
        v = bare(v)
        while v.op == 'call' and v.x[0] in WRAP and v.args:
            v = bare(v.args[0])
        return v

    def member(self, v):
        """(collection, loop id) if v is a member of a collection"""
        v = self.peel(v)
        if v.op == 'item' and bare(v.args[1]).op == 'slice':
            return self.member(v.args[0])
        if v.op == 'elem':
            return self.peel(v.args[0]), v.x
        if v.op == 'item' and bare(v.args[1]).op == 'idx':
            return self.peel(v.args[0]), bare(v.args[1]).x[0]
        return None

    def check(self):
        ck, I = self.ck, self.I
        pre, paired, known = set(), 0, True
        seen = 0
        for e in I.trace:
            if not (e.kind == 'instantiate' and e.x[0] == 'operatorstring.OperatorString'):
                continue
            d = dict(e.x[1])
            labels, ops = self.peel(d['orbital_labels']), self.peel(d['orbital_operators'])
            if labels.op in ('new', 'tuple') and not labels.args and not I.byobj.get(labels.uid):
                continue
            if labels.op == 'call' and labels.x[0] == 'numpy.concatenate' or labels.op in ('bin', 'aug') and labels.x == 'Add':
                parts = labels.args if labels.op != 'call' else (list(bare(labels.args[0]).args) if bare(labels.args[0]).op in ('tuple', 'new') else [])
            else:
                parts = [labels]
            ms = [self.member(x) for x in parts]
            if not ms or not all(ms):
                ck.unsure('labels of generated strings', show(labels, 3))
                known = False
                continue
            combos = [m for m in ms if m[0].op == 'call' and m[0].x[0].startswith('itertools.') and m[0].args]
            if len(combos) != len(ms):
                ck.unsure('labels of generated strings', show(labels, 3))
                known = False
                continue
            seen += 1
            ck.count('generated strings')
            ns = []
            ok = True
            for c, l in combos:
                f = c.x[0]
                if f not in ('itertools.combinations', 'itertools.permutations'):
                    if f == 'itertools.combinations_with_replacement' or f == 'itertools.product':
                        ck.unsure('labels of generated strings', f)
                    ok = False
                    continue
                if len(c.args) < 2:
                    ok = False
                    continue
                C = self.peel(c.args[0])
                if C.op == 'item' and bare(C.args[1]).op == 'slice':
                    self.bad('labels left out', e, '%s: the labels of the strings are chosen from a part of the cluster only' % self.fn.qual)
                    ok = False
                ns.append(bare(c.args[1]))
            if not ok or len(ns) != len(combos):
                known = False
                continue
            self.numbers(ns[0], e)
            if len(ns) == 1:
                m = self.member(ops)
                if m is None or not (m[0].op == 'call' and m[0].x[0] == 'itertools.product'):
                    ck.unsure('letters of generated strings', show(ops, 3))
                else:
                    self.letters(m[0], ns[0], e)
            else:
                pf = d.get('prefactor')
                if combos[0] == combos[1] or combos[0][0].key == combos[1][0].key and combos[0][1] == combos[1][1]:
                    paired += 1
                else:
                    self.backward(ns[0], ns[1], e)
                    if pf is not None:
                        c = self.prefactors(pf)
                        if c is None:
                            known = False
                        else:
                            pre |= c
                    else:
                        pre.add(1.0)
            lm = self.member(ops)
            self.guards(e, combos + ([lm] if lm and lm[0].op == 'call' and lm[0].x[0] == 'itertools.product' else []))
        if known and (pre or paired):
            if not paired:
                self.bad('strings left out', self.at(), '%s: the strings that create and annihilate the same orbitals are not listed' % self.fn.qual)
            elif not pre:
                self.bad('strings left out', self.at(), '%s: the strings that create and annihilate different orbitals are not listed' % self.fn.qual)
            elif {complex(x) for x in pre} != {1 + 0j, 1j}:
                self.bad('strings left out', self.at(), '%s: strings between different orbitals are needed with the prefactors 1 and i; the prefactors used are %s' % (self.fn.qual, sorted(map(str, pre))))
            else:
                ck.ok('kinds of fermion strings', self.fn.qual)

    def at(self):
        fn = self.fn

        class At:
            pass
        a = At()
        a.fn, a.node = fn, fn.node
        return a

    def prefactors(self, v):
        v = bare(v)
        if v.op == 'const' and isinstance(v.x, (int, float, complex)):
            return {v.x}
        if v.op == 'join':
            out = set()
            for a in v.args:
                x = self.prefactors(a)
                if x is None:
                    return None
                out |= x
            return out
        if v.op == 'elem':
            c = self.peel(v.args[0])
            if c.op in ('new', 'tuple') and c.args and all(bare(a).op == 'const' for a in c.args) and not self.I.byobj.get(c.uid):
                return {bare(a).x for a in c.args}
        return None

    def letters(self, c, n, e):
        ck = self.ck
        if len(c.args) >= 2:
            r = bare(c.args[1])
            if r.key != n.key:
                b, d = linear(r)
                nb, nd = linear(n)
                if b is not None and nb is not None and b.key == nb.key and d != nd or b is None:
                    self.bad('letters of the wrong number', e, '%s: strings on %s labels get %s letters' % (self.fn.qual, show(n, 2), show(r, 2)))
                else:
                    ck.unsure('number of letters', show(r, 2))
                return
        for a in self.choices(c.args[0]):
            if a is None:
                ck.unsure('letters of generated strings', show(c.args[0], 2))
            elif not any(a == L for L in LETTERS):
                self.bad('letters left out', e, '%s: the strings are made of the letters %s, which are not all letters of one type' % (self.fn.qual, ' '.join(sorted(map(str, a)))))
            else:
                ck.ok('all letters used', self.fn.qual)

    def choices(self, v, d=0):
        v = self.peel(v)
        if v.op == 'join' and d < 5:
            return [y for a in v.args for y in self.choices(a, d + 1)]
        if v.op == 'item' and bare(v.args[1]).op == 'slice':
            s = bare(v.args[1])
            out = []
            for a in self.choices(v.args[0], d + 1):
                out.append(a)
            lo, hi = (num(x) if isinstance(x, V) else None for x in list(s.args)[:2])
            return [frozenset(sorted(a)[lo if lo is None else int(lo):hi if hi is None else int(hi)]) if a is not None else None for a in out]
        if v.op in ('tuple', 'new') and v.args and all(bare(a).op == 'const' for a in v.args):
            return [frozenset(bare(a).x for a in v.args)]
        if v.op == 'const' and isinstance(v.x, (str, tuple)):
            return [frozenset(v.x)]
        return [None]

    def numbers(self, n, e):
        """the numbers of labels: from one up to the largest allowed, if allowed"""
        ck = self.ck
        b, off = linear(n)
        if b is None:
            return
        if b.op != 'idx' or b.x[1] != 'range':
            ck.unsure('numbers of labels', show(n, 2))
            return
        if len(b.args) == 3:
            if num(b.args[2]) not in (1, -1):
                self.bad('numbers of labels left out', e, '%s: only every %s number of labels is used' % (self.fn.qual, show(b.args[2], 2)))
                return
            if num(b.args[2]) == -1:
                ck.unsure('numbers of labels', show(n, 2))
                return
        lo, hi = (None, b.args[0]) if len(b.args) == 1 else b.args[:2]
        lb, l = linear(lo) if lo is not None else (None, 0)
        hb, h = linear(hi)
        member = any(c.op == 'cmp' and c.x == 'In' and p and linear(c.args[0])[0] is not None and linear(c.args[0])[0].key == b.key for c, p in flat(e.guards))
        positive = any(c.op == 'cmp' and any(linear(a)[0] is not None and linear(a)[0].key == b.key for a in c.args) and any(num(a) is not None for a in c.args) for c, p in flat(e.guards))
        if lb is None and l + off > 1:
            self.bad('numbers of labels left out', e, '%s: the strings have at least %s labels, so those with fewer are left out' % (self.fn.qual, l + off))
        elif lb is None and l + off < 1 and not positive:
            self.bad('identity listed', e, '%s: the identity is listed as a string without labels, whether it is asked for or not' % self.fn.qual)
        elif hb is not None and h + off < 1 and self.largest(hb):
            self.bad('numbers of labels left out', e, '%s: the strings with the largest allowed number of labels are left out' % self.fn.qual)
        elif not member and any(w.op == 'call' and w.x[0] in ('numpy.max', 'builtins.max') or w.op == 'mcall' and w.x[0] == 'max' for w in closure(hb, 60)) and any(w.op == 'param' and w.x[1] == 'k' and 'list' in str(w.x[2]) for w in closure(hb, 60)):
            self.bad('sizes not asked for', e, '%s: strings of all sizes up to the largest are listed, though only certain sizes are asked for' % self.fn.qual)
        else:
            ck.ok('all allowed sizes', self.fn.qual)

    def largest(self, v):
        return any(w.op == 'call' and w.x[0] in ('numpy.max', 'builtins.max', 'builtins.len', 'numpy.minimum', 'builtins.min') or w.op == 'mcall' and w.x[0] == 'max' for w in closure(v, 60))

    def backward(self, nf, nb, e):
        ck = self.ck
        if bare(nb).key == bare(nf).key:
            self.bad('strings left out', e, '%s: strings that annihilate fewer orbitals than they create are left out' % self.fn.qual)
            return
        b, off = linear(nb)
        if b is None or b.op != 'idx' or b.x[1] != 'range' or len(b.args) > 2:
            ck.unsure('numbers of annihilated orbitals', show(nb, 2))
            return
        lo, hi = (None, b.args[0]) if len(b.args) == 1 else b.args
        lb, l = linear(lo) if lo is not None else (None, 0)
        f, fo = linear(nf)
        ends = [linear(x) for x in self.spread(hi)]
        if lb is None and l + off > 0:
            self.bad('strings left out', e, '%s: strings that annihilate fewer than %s orbitals are left out' % (self.fn.qual, l + off))
        elif f is not None and not any(hb is None or hb.key != f.key for hb, h in ends) and max(h for hb, h in ends) + off < 1 + fo:
            self.bad('strings left out', e, '%s: strings that annihilate as many orbitals as they create are left out' % self.fn.qual)
        else:
            ck.ok('all numbers of annihilated orbitals', self.fn.qual)

    def guards(self, e, combos):
        """which of the strings are kept"""
        own = self.nodes(self.fn)
        loops = {l for c, l in combos}
        for a in self.I.trace:
            if a.kind == 'method' and a.x in ('append', 'add') and len(a.args) > 1 and bare(a.args[1]).op == 'inst' and bare(a.args[1]).node is e.node and a.x == 'append':
                for c, p in flat(a.guards):
                    if c.op == 'cmp' and c.x in ('In', 'NotIn') and bare(c.args[0]).op == 'inst':
                        continue
                    dep = [w for w in closure(c, 300) if w.op == 'elem' and w.x in loops or w.op == 'item' and bare(w.args[1]).op == 'idx' and bare(w.args[1]).x[0] in loops]
                    if dep and id(c.node) in own and not any(w.op in ('inst', 'rcall') for w in closure(c, 300)):
                        self.bad('strings left out', a, '%s: a string is listed only if %s%s' % (self.fn.qual, '' if p else 'not ', show(c, 3)))
                        return


class Near(Run):
    """the clusters of distance_basis"""

    def check(self):
        ck, I = self.ck, self.I
        self.seen = set()
        for e in I.trace:
            for c, p in flat(e.guards):
                self.compare(e, c, p)
        for e in I.trace:
            if e.kind == 'rcall' and e.x == 'basis.cluster_basis' and len(e.args) > 1:
                ck.count('clusters')

    def compare(self, e, c, p):
        ck = self.ck
        if c.op != 'cmp' or c.x not in ('Lt', 'LtE') or id(c) in self.seen:
            return
        self.seen.add(id(c))
        d = None
        for i in (0, 1):
            if self.distance(c.args[i]):
                d = i
        if d is None:
            return
        o = bare(c.args[1 - d])
        terms = self.terms(o)
        R = [(k, t) for k, t in terms if t.op == 'param' and t.x[1] == 'R']
        if not R:
            if any(w.op == 'param' and w.x[1] == 'R' for w in closure(o)):
                if o.op == 'bin' and o.x in ('Mult', 'Div') and any(num(x) not in (None, 1) for x in o.args):
                    self.bad('wrong radius', e, '%s: the distance is compared with %s instead of the radius itself' % (self.fn.qual, show(o, 3)))
                else:
                    ck.unsure('radius', show(o, 3))
            return
        tol = [(k, t) for k, t in terms if t.op == 'param' and t.x[1] == 'tol' or num(t) is not None]
        near = (d == 0) == p
        strict = (c.x == 'Lt') == p
        if not near:
            self.bad('wrong side of the radius', e, '%s: orbitals further apart than the radius are taken as neighbours' % self.fn.qual)
        elif any(k < 0 for k, t in tol):
            self.bad('wrong radius', e, '%s: the tolerance is taken off the radius, so orbitals exactly at the radius are left out' % self.fn.qual)
        elif strict and not tol:
            self.bad('wrong radius', e, '%s: orbitals exactly at the radius are left out' % self.fn.qual)
        else:
            ck.ok('neighbours within the radius', self.fn.qual)

    def terms(self, v, k=1):
        v = bare(v)
        if v.op == 'bin' and v.x in ('Add', 'Sub'):
            return self.terms(v.args[0], k) + self.terms(v.args[1], k if v.x == 'Add' else -k)
        return [(k, v)]

    def distance(self, v):
        v = bare(v)
        if v.op == 'rcall':
            return v.x == 'lattice.Lattice.distance'
        if v.op == 'item':
            b = bare(v.args[0])
            while b.op == 'item' or b.op == 'bin' and b.x == 'Add':
                b = bare(b.args[0])
            return any(e.kind in ('store_item', 'aug_item') and bare(e.args[0]).uid == b.uid and bare(e.args[2]).op == 'rcall' and bare(e.args[2]).x == 'lattice.Lattice.distance' for e in self.I.trace if e.args and len(e.args) > 2) or \
                b.op == 'new' and any(w.op == 'rcall' and w.x == 'lattice.Lattice.distance' for w in closure(b, 100))
        return False


def e_where(e):
    return e.where


def run(ck):
    ctx = ck.ctx
    ck.loops_done = set()
    for r in ctx.entries():
        if not hasattr(r, 'I'):
            continue
        Run(ck, r).check()
    for qual, cls in (('basis.cluster_basis', Generated), ('basis.distance_basis', Near)):
        fn = ctx.prog.find(qual)
        if fn is None:
            ck.need(None, qual)
            continue
        base = {f.qual for f in ctx.prog.functions() if not ctx.prog.helper(f) and f.qual != qual}
        for i, tys in enumerate(variants(fn)):
            try:
                cls(ck, ctx.run_one(fn, tys, i, opaque=base)).check()
            except (AnalysisError, RecursionError) as e:
                ctx.failures.append('%s: %s' % (qual, e))
    ck.floor('generated strings', 1)
    ck.floor('loops over collections', 100)
