"""C27: symmetrised operators and lattices are made from the whole group, each element once."""
from ..entries import variants
from ..interp import AnalysisError
from ..paths import flat, norm
from ..summary import bare
from ..values import V, is_const, show
from .c18 import where

RULE = ('The collection of group elements that is summed over must be the closure of the generators, hold every element once (every entry is guarded by a membership test or passed through the removal of duplicates) and be used as a whole; '
        'every image counts with the same weight; every string of the basis is symmetrised unless an orbit that was already symmetrised contains that very string; what is returned is normalised. For lattices: every atom is mapped by every '
        'element, a cell that grows along several directions keeps the atoms of all of them, positions move by what the lattice vector grows, and atoms are merged only when positions (moved into the cell) and orbitals agree.')
ASSUME = ['remove_duplicates and membership tests identify equal group elements', 'the generators generate a finite group']

COPY = {'builtins.list', 'builtins.tuple', 'copy.copy', 'copy.deepcopy', 'builtins.iter', 'builtins.enumerate'}
DEDUP = {'tools.remove_duplicates', 'builtins.set', 'builtins.frozenset', 'numpy.unique', 'builtins.dict.fromkeys'}
OPS = ('basis.Operator.__iadd__', 'basis.Operator.__add__')


def strip(v):
    while True:
        w = bare(v)
        if w.op in ('call', 'mcall') and w.args and (w.op == 'call' and w.x[0] in COPY or w.op == 'mcall' and w.x[0] == 'copy'):
            w = w.args[0]
        if w is v:
            return v
        v = w


def closure(v, limit=4000):
    """values that v is made of"""
    seen, st = {}, [v]
    while st and len(seen) < limit:
        w = st.pop()
        if w.uid in seen:
            continue
        seen[w.uid] = w
        st += list(w.args) + list(w.back)
    return seen.values()


class Sym:
    def __init__(self, ck, r):
        self.ck, self.r, self.I, self.fn = ck, r, r.I, r.fn

    def bad(self, rule, e, msg):
        fn = getattr(e, 'fn', None) or self.fn
        self.ck.bad(rule, self.fn.qual, where(fn, getattr(e, 'node', e)), msg)

    def contents(self, v):
        """(initial members, [(event, member)], [concatenated collections]) of a list object"""
        init = [x for x in self.I.objinit.get(v.uid) or []]
        adds, cats = [], []
        for e in self.I.byobj.get(v.uid, ()):
            if e.kind == 'method' and e.x in ('append', 'add') and len(e.args) > 1:
                adds.append((e, e.args[1]))
            elif e.kind == 'method' and e.x == 'insert' and len(e.args) > 2:
                adds.append((e, e.args[2]))
            elif e.kind == 'method' and e.x in ('extend', 'update') and len(e.args) > 1 or e.kind == 'aug_name' and len(e.args) > 1:
                cats.append((e, e.args[1]))
        return init, adds, cats

    # ---- every element once
    def member_guard(self, e, m):
        """is the entry made only if it is not there yet?"""
        for c, p in flat(e.guards):
            for a, q in self.atoms(c, p):
                if a.op == 'cmp' and a.x in ('In',) and not q:
                    s = strip(a.args[1])
                    if self.same(a.args[0], m) and self.collects(s, e, m):
                        return True
                if a.op == 'call' and a.x[0] == 'builtins.any' and not q:
                    return True
                if a.op == 'rcall' or a.op == 'call' and a.x[0] in ('builtins.all', 'numpy.any', 'numpy.all'):
                    return None
        return False

    def atoms(self, c, p):
        c, p = norm(c, p)
        if c.op == 'bool' and (c.x in ('and', 'And') and p or c.x in ('or', 'Or') and not p):
            for a in c.args:
                yield from self.atoms(a, p)
        else:
            yield c, p

    def same(self, key, m):
        """does the tested key belong to the member m?"""
        ks = {w.key for w in closure(m)} | {m.key}
        w = strip(key)
        if w.key in ks:
            return True
        ms = {strip(m).key}
        b = bare(m)
        if b.op in ('new', 'inst'):
            for e in self.I.trace:
                if e.kind in ('instantiate',) and isinstance(e.val, V) and e.val.uid == b.uid or e.kind == 'store_attr' and e.args and bare(e.args[0]).uid == b.uid:
                    ms |= {x.key for a in e.args for x in closure(a)}
        return any(x.key in ms for x in closure(w) if x.op not in ('const', 'ext', 'param', 'mod'))

    def collects(self, s, e, m):
        """is the tested collection extended together with the entry (or is it the collection itself)?"""
        obj = bare(e.args[0]) if e.args else None
        if obj is not None and s.uid == obj.uid:
            return True
        for e2 in self.I.trace:
            if e2.kind == 'method' and e2.x in ('add', 'append') and strip(e2.args[0]).key == s.key and [l.id for l in e2.loops] == [l.id for l in e.loops]:
                return True
            if e2.kind == 'store_item' and strip(e2.args[0]).key == s.key and [l.id for l in e2.loops] == [l.id for l in e.loops]:
                return True
        return False

    def distinct(self, v, seen=None, d=0):
        """True / (event, text) / None"""
        seen = seen if seen is not None else set()
        v = strip(v)
        if v.uid in seen or d > 20:
            return True
        seen.add(v.uid)
        if v.op == 'rcall' and v.x in DEDUP or v.op == 'call' and v.x[0] in DEDUP:
            return True
        if v.op in ('join', 'mu'):
            rs = [self.distinct(a, seen, d + 1) for a in list(v.args) + list(v.back)]
            bad = [r for r in rs if isinstance(r, tuple)]
            return bad[0] if bad else None if None in rs else True
        if v.op in ('bin', 'aug') and v.x == 'Add':
            for a in v.args:
                w = strip(a)
                if w.op == 'param':
                    return (v, 'the generators %r are joined to the group without looking for repetitions: a generator that occurs twice, or is the identity, counts twice' % w.x[1])
                if w.op == 'new' and any(e.loops and e.kind == 'method' for e in self.I.byobj.get(w.uid, ())):
                    r = self.distinct(w, seen, d + 1)
                    if isinstance(r, tuple):
                        return r
            rs = [self.distinct(a, seen, d + 1) for a in v.args]
            bad = [r for r in rs if isinstance(r, tuple)]
            return bad[0] if bad else None
        if v.op == 'new':
            init, adds, cats = self.contents(v)
            out = True if len(init) <= 1 else None
            for e, x in cats:
                w = strip(x)
                if w.op == 'param':
                    return (e, 'the generators %r are joined to the group without looking for repetitions: a generator that occurs twice, or is the identity, counts twice' % w.x[1])
                if self.distinct(w, seen, d + 1) is not True:
                    out = None
                out = None
            for e, m in adds:
                if not e.loops:
                    out = None
                    continue
                g = self.member_guard(e, m)
                if g is False and any(l.kind in ('for', 'while', 'comp') for l in e.loops):
                    w = bare(m)
                    return (e, 'group elements are added without looking whether they are there already, so an element may count more than once')
                if g is None:
                    out = None
            return out
        if v.op == 'param':
            return (v, 'the sum runs over the generators %r that were given, not over the group they generate' % v.x[1])
        return None

    def sliced(self, v, d=0):
        v = bare(v)
        if d > 10:
            return False
        if v.op == 'item' and bare(v.args[1]).op == 'slice' or v.op == 'slice':
            return True
        if v.op == 'call' and v.x[0] in COPY and v.args:
            return self.sliced(v.args[0], d + 1)
        return False

    def whole(self, L, what):
        """a loop that must see every member of a collection"""
        if L.iter is not None and self.part(L.iter):
            self.bad('part of the collection', L, '%s: the loop over %s leaves out some of them' % (self.fn.qual, what))
            return False
        if L.brk:
            self.bad('part of the collection', L, '%s: the loop over %s ends early' % (self.fn.qual, what))
            return False
        return True

    def part(self, v, d=0):
        """on some path only a slice of the collection"""
        v = bare(v)
        if v.op == 'join' and d < 6:
            return any(self.part(a, d + 1) for a in v.args)
        return self.sliced(v) and not self.reverse(v)

    def reverse(self, v):
        v = bare(v)
        while v.op == 'call' and v.args:
            v = bare(v.args[0])
        s = bare(v.args[1]) if v.op == 'item' else None
        if s is None or s.op != 'slice':
            return False
        a = list(s.args)
        return all(x is None or is_const(x, None) for x in a[:2])

    # ---- closing loops
    def closing(self):
        n = 0
        for L in self.I.loops.values():
            if L.kind != 'while' or L.test is None or L.fn is not self.fn and not self.ck.ctx.prog.helper(L.fn):
                continue
            c, p = norm(L.test, True)
            if not (c.op == 'cmp' and all(bare(a).op == 'call' and bare(a).x[0] == 'builtins.len' for a in c.args)):
                continue
            inner = [l for l in self.I.loops.values() if l is not L and self.within(l, L)]
            if not inner:
                continue
            n += 1
            ok = True
            for l in inner:
                ok &= self.whole(l, 'the group elements or generators')
            if ok:
                self.ck.ok('groups closed', self.fn.qual)
        for L in self.I.loops.values():
            if L.kind == 'for' and (L.fn is self.fn or self.ck.ctx.prog.helper(L.fn)):
                self.counted(L)
        return n

    def counted(self, L):
        """a group is closed by a number of passes that does not depend on what is found"""
        it = bare(L.iter) if L.iter is not None else None
        if it is None or it.op != 'call' or it.x[0] != 'builtins.range' or L.brk or len(it.args) > 2 or it.x[1]:
            return
        n = bare(it.args[-1])
        while n.op in ('bin', 'aug') and n.x in ('Add', 'Sub', 'Mult', 'FloorDiv') and any(bare(a).op == 'const' for a in n.args):
            n = bare([a for a in n.args if bare(a).op != 'const'][0]) if any(bare(a).op != 'const' for a in n.args) else bare(n.args[0])
        if not (n.op == 'const' or n.op == 'call' and n.x[0] in ('builtins.len', 'numpy.size') or n.op == 'attr' and n.x in ('size', 'dim', 'ndim', 'info') or n.op == 'item' and bare(n.args[0]).op == 'attr' and bare(n.args[0]).x == 'shape'):
            return
        grow = [e for e in self.I.trace if e.kind == 'method' and e.x in ('append', 'add') and len(e.args) == 2 and L in e.loops and e.loops[-1] is not L]
        for e in grow:
            if any(w.op == 'idx' and w.x[0] == L.id for a in list(e.args) + [c for c, p in e.guards] for w in closure(a)):
                continue
            src = [l for l in e.loops if l is not L and self.within(l, L) and l.iter is not None]
            if len(src) > 1 and any(w.op == 'mu' or w.uid == bare(e.args[0]).uid for l in src for w in closure(l.iter)):
                return self.bad('group not closed', e, '%s: the products of the group elements are formed in a number of passes fixed beforehand (%s), although groups that need more passes exist' % (self.fn.qual, show(it, 3)))

    def within(self, l, L):
        p = l.parent
        while p is not None:
            if p is L:
                return True
            p = p.parent
        return False


class Strings(Sym):
    """symmetrised operators"""

    def image(self, v, d=0):
        """the group collection if v is the image of something under a group element"""
        v = bare(v)
        if d > 6:
            return None
        g = None
        if v.op == 'dyn' and v.args:
            f = bare(v.args[0])
            if f.op == 'attr' and f.x == 'rule':
                g = bare(f.args[0])
        elif v.op == 'rcall' and v.x == 'transformation.Transformation.apply':
            g = bare(v.args[0])
        elif v.op == 'join':
            gs = [self.image(a, d + 1) for a in v.args]
            return gs[0] if gs and all(gs) else None
        if g is None:
            return None
        L = None
        if g.op == 'elem':
            L = self.I.loops.get(g.x)
            return (strip(g.args[0]), L, v)
        if g.op == 'item':
            i = bare(g.args[1])
            if i.op == 'idx':
                return (strip(g.args[0]), self.I.loops.get(i.x[0]), v)
        return None

    def weight(self, v):
        v = bare(v)
        if v.op == 'bin' and v.x == 'Mult' or v.op == 'rcall' and v.x in ('basis.Operator.__mul__', 'basis.Operator.__rmul__'):
            for a, b in (v.args[:2], v.args[:2][::-1]):
                im = self.image(a)
                if im:
                    return im, b
        if v.op == 'bin' and v.x == 'Div' and self.image(v.args[0]):
            return self.image(v.args[0]), v.args[1]
        return self.image(v), None

    def check(self):
        I, ck = self.I, self.ck
        sums = []
        for e in I.trace:
            if e.kind == 'rcall' and e.x in OPS or e.kind == 'aug_name' and e.x == 'Add':
                for a, b in (e.args[:2], e.args[:2][::-1]):
                    im, w = self.weight(b)
                    if im:
                        sums.append((e, im, w, a))
                        break
        done = set()
        for e, (X, L, v), w, acc in sums:
            if id(e) in done:
                continue
            done.add(id(e))
            if L is None or L not in e.loops:
                continue
            ck.count('sums over a group')
            r = self.distinct(X)
            if isinstance(r, tuple):
                self.bad('group elements repeated', e if not hasattr(r[0], 'guards') else r[0], '%s: %s' % (self.fn.qual, r[1]))
            elif r is None:
                ck.unsure('elements of the group', self.fn.qual)
            else:
                ck.ok('every group element once', self.fn.qual)
            if self.whole(L, 'the group elements'):
                extra = [(c, p) for c, p in flat(e.guards) if not any(c is c2 or c.key == c2.key for c2, p2 in flat(L.guards))]
                dep = [(c, p) for c, p in extra if self.depends(c, L)]
                if dep:
                    self.bad('images left out', e, '%s: the image under a group element is added only if %s%s, so the sum is not over the whole group' % (self.fn.qual, '' if dep[0][1] else 'not ', show(dep[0][0], 3)))
                else:
                    ck.ok('whole group summed', self.fn.qual)
            if w is not None and self.depends(w, L):
                self.bad('images weighted', e, '%s: the images under the group elements are weighted with %s, which depends on the element' % (self.fn.qual, show(w, 3)))
            # what is mapped stays the same string for all elements
            arg = [a for a in bare(v).args[1:2]]
            if bare(v).op == 'dyn' and arg:
                if self.depends(arg[0], L):
                    self.bad('image of an image', e, '%s: the group element is applied to %s, which changes from element to element, instead of to the string itself' % (self.fn.qual, show(arg[0], 3)))
                else:
                    ck.ok('images of the string itself', self.fn.qual)
        self.sums = sums
        n = self.closing()
        ck.count('closing loops', n)
        self.coverage()

    def depends(self, v, L):
        return any(w.op == 'elem' and w.x == L.id or w.op == 'idx' and w.x[0] == L.id or w.op == 'mu' and w.x[0] == L.id for w in closure(v))

    # ---- which strings are symmetrised, and what is returned
    def coverage(self):
        I, ck = self.I, self.ck
        ret = [bare(v) for v, g, n, s in I.returns]
        outs = {w.uid for v in ret for w in ([v] if v.op == 'new' else [bare(a) for a in v.args] if v.op == 'join' else [])}
        for e in I.trace:
            if not (e.kind == 'method' and e.x == 'append' and bare(e.args[0]).uid in outs):
                continue
            loops = [l for l in e.loops if l.iter is not None and self.basis(l.iter)]
            if not loops:
                continue
            L = loops[-1]
            self.whole(L, 'the strings of the basis')
            self.normalised(e)
            for c, p in flat(e.guards):
                for a, q in self.atoms(c, p):
                    if a.op == 'cmp' and a.x == 'In' and self.depends(a.args[0], L):
                        self.visited(e, L, a, q)
                    elif a.op == 'cmp' and a.x == 'In' and q is False:
                        pass
        return

    def basis(self, v):
        v = strip(v)
        if self.sliced(v) and v.args:
            return self.basis(v.args[0])
        return v.op == 'param' and v.x[1] == 'basis' or v.op == 'attr' and v.x == 'op_strings' and self.basis(v.args[0]) or v.op == 'call' and v.x[0] == 'builtins.range' and any(w.op == 'param' and w.x[1] == 'basis' for w in closure(v))

    def current(self, v, L):
        v = bare(v)
        return v.op == 'elem' and v.x == L.id or v.op == 'item' and bare(v.args[1]).op == 'idx' and bare(v.args[1]).x[0] == L.id

    def visited(self, e, L, a, q):
        I, ck = self.I, self.ck
        if q:
            return
        key, S = strip(a.args[0]), strip(a.args[1])
        if not self.current(key, L):
            if key.op == 'attr' and self.current(key.args[0], L) or key.op in ('call', 'mcall', 'rcall') and any(self.current(x, L) for x in closure(key)):
                self.bad('orbits told apart by less than the string', e, '%s: a string is skipped when %s was seen before, which other strings may share' % (self.fn.qual, show(key, 3)))
            return
        members = []
        for e2 in I.trace:
            if e2.kind == 'method' and e2.x in ('add', 'append', 'update', 'extend') and strip(e2.args[0]).key == S.key or e2.kind == 'store_item' and strip(e2.args[0]).key == S.key:
                members.append((e2, e2.args[1]))
        if not members:
            return
        orbit = own = unknown = other = False
        for e2, m in members:
            w = strip(m)
            if self.current(w, L):
                own = True
            elif e2.x in ('update', 'extend') or w.op in ('item', 'elem') and self.oforbit(w):
                orbit = True
            elif w.op == 'attr' and w.x in ('name', 'orbital_labels', 'orbital_operators', 'prefactor', 'op_type'):
                other = True
            else:
                unknown = True
        if other and not (orbit or unknown):
            self.bad('orbits told apart by less than the string', e, '%s: strings are looked up among what was collected from other attributes, so no string is ever recognised' % self.fn.qual)
        elif own and not (orbit or unknown):
            self.bad('orbits repeated', e, '%s: only the string itself is marked as done, not the strings of its orbit, so the same symmetrised operator is returned once for every string of the orbit' % self.fn.qual)
        elif orbit:
            ck.ok('orbits visited once', self.fn.qual)
        else:
            ck.unsure('visited strings', self.fn.qual)

    def oforbit(self, w):
        """a string of the sum over the group"""
        return any(x.op == 'rcall' and x.x in OPS or x.op == 'mu' for x in closure(w)) or any(self.image(x) for x in closure(w))

    def normalised(self, e):
        """what is returned was divided by its norm"""
        v = bare(e.args[1])
        parts = [bare(a) for a in v.args] if v.op == 'join' else [v]
        for p in parts:
            if any(e2.kind == 'rcall' and e2.x == 'basis.Operator.normalize' and bare(e2.args[0]).key == p.key for e2 in self.I.trace):
                continue
            if v.op != 'join' and any(e2.kind == 'rcall' and e2.x == 'basis.Operator.normalize' and bare(e2.args[0]).key == v.key for e2 in self.I.trace):
                continue
            if p.op == 'bin' and p.x in ('Div', 'Mult') or p.op == 'rcall' and p.x in ('basis.Operator.__mul__', 'basis.Operator.__rmul__'):
                continue
            if p.op == 'rcall' and p.x in OPS + ('basis.Operator.remove_zeros',) or p.op == 'inst' or p.op == 'mu':
                self.bad('not normalised', e, '%s: the symmetrised operator is returned without being normalised' % self.fn.qual)
                return
            self.ck.unsure('normalised operators', self.fn.qual)
            return
        self.ck.ok('normalised operators', self.fn.qual)


class Atoms(Sym):
    """symmetrised lattices"""

    def check(self):
        self.images()
        n = self.closing()
        self.ck.count('closing loops', n)
        self.expansion()
        self.rebuilt()

    def rebuilt(self):
        """lattices made on the way keep the boundary conditions of the lattice given"""
        for e in self.I.trace:
            if e.kind != 'instantiate' or e.x[0] != 'lattice.Lattice':
                continue
            v = dict(e.x[1]).get('periodic_boundaries')
            if v is None or any(s.kind == 'store_attr' and s.x[0] == 'periodic_boundaries' for s in self.I.trace):
                continue
            ws = list(closure(v))
            if any(w.op == 'attr' and w.x == 'periodic_boundaries' for w in ws):
                self.ck.ok('boundary conditions kept', '%s: %s' % (self.fn.qual, e.fn.qual))
            elif all(w.op in ('const', 'tuple', 'bin') for w in ws):
                self.bad('boundary conditions lost', e, '%s: a lattice is rebuilt with boundary conditions %s in place of those of the lattice given' % (e.fn.qual, show(v, 3)))
            else:
                self.ck.unsure('boundary conditions', e.fn.qual)

    def directions(self, L):
        """the loop that grows the cell runs over all lattice vectors"""
        it = bare(L.iter) if L.iter is not None else None
        if it is not None and it.op == 'call' and it.x[0] == 'builtins.enumerate' and it.args:
            it = bare(it.args[0])
        if it is None or not self.whole(L, 'the lattice vectors') or it.op != 'call' or it.x[0] != 'builtins.range':
            return
        if len(it.args) > 1 and bare(it.args[0]).op == 'const' and bare(it.args[0]).x not in (0, -1, None) and len(it.args) == 2:
            return self.bad('directions left out', L, '%s: the loop over the lattice vectors starts after the first of them' % self.fn.qual)
        n = bare(it.args[-1] if len(it.args) < 3 else it.args[1])
        if n.op == 'bin' and n.x == 'Sub' and bare(n.args[1]).op == 'const' and len(it.args) < 3:
            return self.bad('directions left out', L, '%s: the loop over the lattice vectors ends before the last of them' % self.fn.qual)
        if n.op == 'rcall' and n.x == 'lattice.Lattice.__len__':
            return self.bad('directions left out', L, '%s: the loop that grows the cell runs over the number of orbitals of a lattice, which is not its number of lattice vectors' % self.fn.qual)
        if n.op == 'call' and n.x[0] == 'builtins.len' and n.args:
            x = bare(n.args[0])
            while x.op == 'call' and x.x[0] in COPY and x.args:
                x = bare(x.args[0])
            if x.op == 'param' and x.x[1] == 'lattice' or x.op == 'attr' and x.x in ('atom_positions', 'atom_orbitals', 'orbital_names') or x.op == 'param' and 'generators' in x.x[1]:
                return self.bad('directions left out', L, '%s: the loop that grows the cell runs over range(len(%s)), which is not the number of lattice vectors' % (self.fn.qual, show(x, 3)))
        self.ck.ok('every direction', self.fn.qual)

    def matrix(self, v):
        """(group collection, loop, position) if v is a group element times a position"""
        v = bare(v)
        if v.op == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul') and len(v.args) == 2 or v.op == 'bin' and v.x == 'MatMult' or v.op == 'mcall' and v.x[0] in ('dot', 'matmul') and len(v.args) == 2:
            for g, p in (v.args[:2], v.args[:2][::-1]):
                g, p = bare(g), bare(p)
                while g.op == 'attr' and g.x == 'T':
                    g = bare(g.args[0])
                if g.op == 'elem' and self.group(g.args[0]) and self.position(p):
                    return strip(g.args[0]), self.I.loops.get(g.x), p
        return None

    def group(self, v):
        return any(w.op == 'param' and 'generators' in w.x[1] for w in closure(v))

    def position(self, v):
        return not any(w.op == 'param' and 'generators' in w.x[1] for w in closure(v)) and any(w.op == 'attr' and w.x == 'atom_positions' or w.op == 'param' and w.x[1] == 'lattice' for w in closure(v))

    def loopset(self, v):
        return {w.x if w.op == 'elem' else w.x[0] for w in closure(v) if w.op in ('elem', 'idx')}

    def images(self):
        for e in self.I.trace:
            if not (e.kind == 'method' and e.x in ('append', 'add') and len(e.args) > 1):
                continue
            x = bare(e.args[1])
            ms = [self.matrix(y) for y in (x.args if x.op == 'tuple' else [x])]
            ms = [m for m in ms if m]
            if not ms:
                continue
            X, L, p = ms[0]
            if L is None or L not in e.loops:
                continue
            self.ck.count('images of atoms')
            r = self.distinct(X)
            if isinstance(r, tuple):
                self.bad('group elements repeated', r[0] if hasattr(r[0], 'guards') else e, '%s: %s, and the closure, which compares numbers of elements, may end before it is complete' % (self.fn.qual, r[1]))
            elif r is None:
                self.ck.unsure('elements of the group', self.fn.qual)
            else:
                self.ck.ok('every group element once', self.fn.qual)
            ok = self.whole(L, 'the group elements')
            for l in e.loops:
                if l is not L and l.kind in ('for', 'comp') and l.iter is not None and any(w.op == 'attr' and w.x in ('atom_positions', 'atom_orbitals') for w in closure(l.iter)) and any(w.op == 'elem' and w.x == l.id for w in closure(p)):
                    ok &= self.whole(l, 'the atoms')
            if ok:
                self.ck.ok('every atom mapped by every element', self.fn.qual)
            if x.op == 'tuple':
                # the orbitals are those of the same atom
                a = self.loopset(p)
                for y in x.args:
                    if self.matrix(y):
                        continue
                    b = self.loopset(y)
                    if a and (b and not b & a or not b and any(w.op == 'attr' and w.x == 'atom_orbitals' for w in closure(y))):
                        self.bad('orbitals of another atom', e, '%s: the image of an atom is recorded with the orbitals of another' % self.fn.qual)
                    elif b:
                        self.ck.ok('orbitals go with their atom', self.fn.qual)

    # ---- growing the cell
    def expansion(self):
        I = self.I
        for e in I.trace:
            if e.kind == 'aug_item' and e.x == 'Add' and len(e.args) > 2:
                q = bare(e.args[0])
                if not (q.op == 'attr' and q.x == 'lattice_vectors'):
                    continue
                delta = bare(e.args[2])
                self.grown(e, q, delta)

    def grown(self, e, q, delta):
        I, ck = self.I, self.ck
        ds = [l for l in e.loops if any(w.op in ('idx', 'elem') and (w.x[0] if w.op == 'idx' else w.x) == l.id for w in closure(e.args[1]))]
        if not ds:
            return
        L = ds[-1]
        self.directions(L)
        # cells built in the same pass
        for b in I.trace:
            if not (b.kind == 'instantiate' and b.x[0] == 'lattice.UnitCell' and L in b.loops):
                continue
            d = dict(b.x[1])
            pos = d.get('atom_positions')
            if pos is None:
                continue
            ps = self.pieces(pos)
            if ps is None:
                ck.unsure('atoms of the grown cell', self.fn.qual)
                continue
            known = {l.id for l in e.loops}
            # a shift that itself runs over values stands for several copies at once
            if any(p[2] is not None and (self.loopset(p[2]) - known or any(w.op in ('elem', 'join', 'idx', 'unknown', 'mu') and not any(w.key == u.key for u in closure(delta)) for w in closure(p[2]))) for p in ps):
                ck.unsure('copies of atoms', self.fn.qual)
                continue
            ck.count('cells grown')
            keep = [p for p in ps if p[0] == 'same']
            moved = [p for p in ps if p[0] == 'moved']
            if not keep or not moved:
                self.bad('atoms lost', b, '%s: a cell that grows must list the atoms of the old cell and their copies moved by the growth; here %s are missing' % (self.fn.qual, 'the old atoms' if not keep else 'the copies'))
                continue
            for p in moved:
                if p[2].key != delta.key:
                    if {w.op for w in closure(p[2])} & {'unknown'}:
                        continue
                    if self.scaled(p[2], delta):
                        self.bad('moved by something else', b, '%s: the copies of the atoms are moved by %s, but the lattice vector grows by %s' % (self.fn.qual, show(p[2], 3), show(delta, 3)))
                    else:
                        ck.unsure('copies of atoms', self.fn.qual)
                else:
                    ck.ok('atoms move by the growth', self.fn.qual)
            # the atoms come from what the previous direction produced
            src = [p[1] for p in keep + moved]
            if all(any(w.op == 'mu' and w.x[0] == L.id for w in closure(s)) for s in src):
                ck.ok('atoms of all directions kept', self.fn.qual)
            elif not any(any(w.op == 'mu' and w.x[0] == L.id for w in closure(s)) for s in src) and all(any(w.op in ('param', 'mu') for w in closure(s)) for s in src):
                self.bad('atoms lost', b, '%s: the cell grows along one direction after the other, but each time from the atoms of the original cell, so the copies made for earlier directions are dropped' % self.fn.qual)
            orb = d.get('atom_orbitals')
            if orb is not None:
                self.orbitals(b, orb, ps)

    def scaled(self, v, delta):
        """v is a different multiple of the growth"""
        v = bare(v)
        k = multiple(v, delta)
        if k is not None:
            return k != 1
        return delta.op == 'bin' and any(bare(a).key == v.key for a in delta.args) or \
            v.op == 'item' and delta.op == 'item' and bare(v.args[0]).key == bare(delta.args[0]).key

    def pieces(self, v, d=0):
        """[(kind, source, shift)] of a list of positions"""
        v = strip(v)
        if d > 8:
            return None
        if v.op in ('bin', 'aug') and v.x == 'Add':
            a, b = self.pieces(v.args[0], d + 1), self.pieces(v.args[1], d + 1)
            return a + b if a is not None and b is not None else None
        if v.op == 'attr' and v.x == 'atom_positions':
            return [('same', v, None)]
        if v.op == 'new':
            init, adds, cats = self.contents(v)
            out = []
            if init and not all(strip(x).op == 'star' for x in init if isinstance(x, V)):
                return None
            for x in init:
                out += self.pieces(strip(x).args[0], d + 1) or [None]
            for e, m in adds:
                m = bare(m)
                src, sh = self.moved(m)
                if src is None:
                    return None
                out.append(('same' if sh is None else 'moved', src, sh))
            for e, x in cats:
                y = self.pieces(x, d + 1)
                if y is None:
                    return None
                out += y
            return out if None not in out else None
        return None

    def moved(self, m):
        m = bare(m)
        if m.op == 'call' and m.x[0] in ('numpy.copy', 'numpy.array') and m.args:
            return self.moved(m.args[0])
        if m.op == 'elem':
            s = strip(m.args[0])
            return (s, None) if s.op == 'attr' and s.x == 'atom_positions' else (None, None)
        if m.op == 'bin' and m.x in ('Add', 'Sub'):
            for i in (0, 1):
                s, sh = self.moved(m.args[i])
                if s is not None and sh is None and (m.x == 'Add' or i == 0):
                    o = bare(m.args[1 - i])
                    if zero(o):
                        return s, None
                    return s, (o if m.x == 'Add' else V('un', [o], 'neg', m.node))
        return None, None

    def orbs(self, v):
        """0: the list of orbitals, 1: the list in another order or a part of it"""
        v = strip(v)
        if v.op == 'attr' and v.x == 'atom_orbitals':
            return 0
        w = v
        if w.op == 'item' and bare(w.args[1]).op == 'slice' and self.orbs(w.args[0]) is not None:
            return 0 if all(is_const(x, None) for x in bare(w.args[1]).args if isinstance(x, V)) else 1
        if w.op == 'call' and w.x[0] in ('builtins.reversed', 'builtins.sorted') and w.args and self.orbs(w.args[0]) is not None:
            return 1
        return None

    def orbitals(self, b, v, ps):
        """as many lists of orbitals as positions"""
        v = strip(v)
        n = None
        if v.op in ('bin', 'aug') and v.x == 'Mult':
            for a, c in (v.args, v.args[::-1]):
                if strip(a).op == 'attr' and strip(a).x == 'atom_orbitals' and bare(c).op == 'const':
                    n = bare(c).x
        elif v.op in ('bin', 'aug') and v.x == 'Add' and all(strip(a).op == 'attr' and strip(a).x == 'atom_orbitals' for a in v.args):
            n = 2
        elif v.op in ('bin', 'aug') and v.x == 'Add' and all(self.orbs(a) is not None for a in v.args):
            self.bad('orbitals and atoms out of step', b, '%s: the orbitals of the atoms of the grown cell are listed in another order, or for a part of the atoms only' % self.fn.qual)
            return
        elif v.op == 'attr' and v.x == 'atom_orbitals':
            n = 1
        if n is None:
            self.ck.unsure('orbitals of the grown cell', self.fn.qual)
        elif n != len(ps):
            self.bad('orbitals and atoms out of step', b, '%s: the grown cell lists its atoms %d times but their orbitals %s times' % (self.fn.qual, len(ps), n))
        else:
            self.ck.ok('orbitals and atoms in step', self.fn.qual)


class Merge(Sym):
    """which atoms count as the same (interpreted with remove_duplicates inlined)"""

    def check(self):
        ck = self.ck
        for e in self.I.trace:
            if e.kind == 'rcall' and e.x == 'lattice.Lattice.distance' and len(e.args) > 2 and any('remove' in f.qual or 'equiv' in f.qual or 'duplicate' in f.qual for f in [e.fn] + [x[0] for x in e.stack if hasattr(x[0], 'qual')]):
                raw = [a for a in e.args[1:3] if self.record(a)]
                ck.count('atoms compared')
                if len(raw) == 2:
                    self.bad('atoms compared outside the cell', e, '%s: the images of atoms are compared by a distance that needs one of the positions inside the cell, but neither was moved there; copies further apart than one cell are not recognised' % self.fn.qual)
                else:
                    ck.ok('atoms compared inside the cell', self.fn.qual)
        for e in self.I.trace:
            if e.kind == 'return' and e.args and any(w.op == 'rcall' and w.x == 'lattice.Lattice.distance' for w in closure(e.args[0])) and 'equiv' in e.fn.qual:
                v = bare(e.args[0])
                at = list(self.atoms(v, True)) + [x for c, p in flat(e.guards) for x in self.atoms(c, p)]
                if any(a.op == 'join' or a.op == 'bool' for a, p in at):
                    ck.unsure('atoms merged', self.fn.qual)
                    continue
                orb = [1 for a, p in at if a.op == 'cmp' and a.x == 'Eq' and p and not all(bare(x).op == 'call' and bare(x).x[0] == 'builtins.len' or bare(x).op == 'const' for x in a.args)]
                if not orb:
                    self.bad('atoms with other orbitals merged', e, '%s: atoms at the same place are merged without looking at their orbitals' % self.fn.qual)
                else:
                    ck.ok('atoms merged when orbitals agree', self.fn.qual)

    def record(self, v):
        v = bare(v)
        while v.op == 'item' and bare(v.args[1]).op == 'const' or v.op == 'join' and v.args:
            v = bare(v.args[0])
        return v.op in ('elem', 'tuple') or v.op in ('mu',)


def compose(ck):
    """the composition of two permutations is one of them looked up at the other"""
    fn = ck.ctx.prog.find('tools.compose_permutations')
    if fn is None:
        return
    r = ck.ctx.run_one(fn, variants(fn)[0], 0)
    ps = fn.params()
    for v, g, n, s in r.I.returns:
        v = core(v)
        src = None
        if v.op == 'item':
            src = core(v.args[0]), core(v.args[1])
        elif v.op == 'new':
            ad = [e.args[1] for e in r.I.byobj.get(v.uid, ()) if e.kind == 'method' and e.x == 'append']
            if len(ad) == 1 and bare(ad[0]).op == 'item' and core(bare(ad[0]).args[1]).op == 'elem':
                src = core(bare(ad[0]).args[0]), core(core(bare(ad[0]).args[1]).args[0])
        elif v.op == 'call' and v.x[0] == 'numpy.take' and len(v.args) == 2 or v.op == 'mcall' and v.x[0] == 'take' and len(v.args) == 2:
            src = core(v.args[0]), core(v.args[1])
        if src and all(a.op == 'param' for a in src):
            if src[0].key == src[1].key:
                ck.bad('not a composition', fn.qual, where(fn, n), '%s looks a permutation up at itself' % fn.qual)
            else:
                ck.ok('compositions', fn.qual)
        else:
            ck.unsure('composition', show(v, 3))


def is_number(v):
    v = bare(v)
    return v.op == 'const' and isinstance(v.x, int) or v.op == 'un' and v.x in ('neg', 'USub') and is_number(v.args[0])


def duplicates(ck):
    """a list freed of duplicates: every object is compared with all that were kept"""
    ctx = ck.ctx
    fn = ctx.prog.find('tools.remove_duplicates')
    if fn is None:
        return ck.unsure('no remove_duplicates')
    r = ctx.run_one(fn, variants(fn)[0], 0)
    kept = {bare(v).uid for v, g, n, s in r.I.returns if bare(v).op == 'new'}

    def inside(v):
        seen, st = {}, [v]
        while st and len(seen) < 2000:
            w = bare(st.pop())
            if w.uid in seen:
                continue
            seen[w.uid] = w
            if w.uid in kept:
                continue
            st += list(w.args) + list(w.back)
            if w.op == 'new':
                for e in r.I.byobj.get(w.uid, ()):
                    st += list(e.args[1:])
        return seen.values()
    for e in r.I.trace:
        if not (e.kind == 'method' and e.x == 'append' and len(e.args) == 2 and bare(e.args[0]).uid in kept and e.loops):
            continue
        gs = [(c, p, list(inside(c))) for c, p in flat(e.guards)]
        near = [(c, p, ws) for c, p, ws in gs if any(w.uid in kept for w in ws)]
        if not near or any(w.op == 'mu' for c, p, ws in near for w in ws):
            ck.unsure('duplicates', show(e.args[1], 3))
            continue
        every = [w for c, p, ws in near for w in ws if w.op == 'elem' and w.args and bare(w.args[0]).uid in kept or w.op == 'cmp' and w.x in ('In', 'NotIn') and bare(w.args[1]).uid in kept or
                 w.op in ('call', 'mcall', 'dyn', 'rcall') and not (w.op == 'call' and w.x[0] == 'builtins.len') and any(bare(a).uid in kept for a in w.args) or w.op == 'idx']
        if not every and any(w.op == 'item' and bare(w.args[0]).uid in kept and is_number(w.args[1]) for c, p, ws in near for w in ws):
            ck.bad('not compared with all', fn.qual, where(fn, e.node), '%s compares an object only with one of those kept already, so that equal objects further apart are both kept' % fn.qual)
            continue
        for c, p, ws in near:
            b = bare(c)
            if p and b.op == 'bool' and b.x == 'or':
                nots = [bare(bare(a).args[0]) for a in b.args if bare(a).op == 'un' and bare(a).x == 'not']
                b, p = ([a for a in nots if a.op == 'call' and a.x[0] == 'builtins.all'] or [b])[0], False
            if not p and b.op == 'call' and b.x[0] == 'builtins.all' and bare(b.args[0]).op == 'new' and any(w.op == 'elem' and bare(w.args[0]).uid in kept for w in ws) and not any(w.op == 'un' and w.x == 'not' or w.op == 'cmp' for w in inside(b.args[0])):
                ck.bad('not compared with all', fn.qual, where(fn, e.node), '%s leaves an object out only if it equals all of those kept already' % fn.qual)
                break
        else:
            ck.ok('compared with all', fn.qual)


def multiple(v, unit):
    """the constant c of c * unit"""
    v = bare(v)
    if v.key == unit.key:
        return 1
    if v.op == 'un' and v.x == 'neg':
        k = multiple(v.args[0], unit)
        return -k if k is not None else None
    if v.op == 'bin' and v.x in ('Mult', 'Div') and len(v.args) == 2:
        for i in (0, 1) if v.x == 'Mult' else (0,):
            c, k = bare(v.args[1 - i]), multiple(v.args[i], unit)
            if k is not None and c.op == 'const' and isinstance(c.x, (int, float)) and c.x:
                return k * c.x if v.x == 'Mult' else k / c.x
    if v.op == 'bin' and v.x in ('Add', 'Sub'):
        a, b = multiple(v.args[0], unit), multiple(v.args[1], unit)
        if a is not None and b is not None:
            return a + b if v.x == 'Add' else a - b
    return None


def zero(v):
    v = bare(v)
    return v.op == 'const' and v.x == 0 or v.op == 'bin' and (v.x == 'Mult' and any(zero(a) for a in v.args) or v.x == 'Sub' and bare(v.args[0]).key == bare(v.args[1]).key) or \
        v.op == 'call' and v.x[0] in ('numpy.zeros', 'numpy.zeros_like')


def core(v):
    v = bare(v)
    while v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple', 'builtins.int') and v.args or v.op == 'mcall' and v.x[0] in ('tolist', 'astype', 'copy'):
        v = bare(v.args[0])
    return v


def run(ck):
    ctx = ck.ctx
    base = {f.qual for f in ctx.prog.functions() if not ctx.prog.helper(f) and f.module.name in ('basis', 'tools', 'lattice') and f.name != 'compose_permutations'}
    for qual, cls in (('symmetrization.symmetrize_basis', Strings), ('symmetrization.symmetrize_lattice', Atoms)):
        fn = ctx.prog.find(qual)
        if fn is None:
            ck.need(None, qual)
            continue
        for i, tys in enumerate(variants(fn)):
            try:
                cls(ck, ctx.run_one(fn, tys, i, opaque=base)).check()
                if cls is Atoms:
                    Merge(ck, ctx.run_one(fn, tys, i, opaque=base - {'tools.remove_duplicates'})).check()
            except (AnalysisError, RecursionError) as e:
                ctx.failures.append('%s: %s' % (qual, e))
    compose(ck)
    duplicates(ck)
    ck.floor('sums over a group', 1)
    ck.floor('images of atoms', 1)
    ck.floor('closing loops', 1)
