"""C26: the positions, indices, images and distances of a lattice belong together."""
from ..entries import variants
from ..interp import AnalysisError
from ..summary import bare
from ..values import V, is_const, show
from .c18 import where

RULE = ('Positions and translations are reduced to linear forms. Quantities given per lattice direction (numbers of cells, lattice vectors, boundary conditions, cell coordinates) must be combined at the same direction; the position of an '
        'orbital is the translation of its cell plus the position of its atom; the key under which an orbital is stored has the same normal form as the key that is looked up, and its index is the place where it is listed; the images of '
        'a lattice are, for exactly the periodic directions, all earlier images together with their translations by plus and minus the whole length of the lattice; a distance is the minimum over all images; the built-in unit cells have '
        'the geometry of their lattice.')
ASSUME = ['numpy.array2string with a precision identifies positions that agree to that precision', 'the reference position lies inside the lattice']

PASS = {'numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.atleast_1d'}
DIRS = ('num_cells', 'lattice_vectors', 'periodic_boundaries')
FLAT = {'flatten', 'ravel', 'copy'}


class Unk(Exception):
    pass


def strip(v):
    while True:
        w = bare(v)
        if w.op == 'call' and w.x[0] in PASS and w.args:
            w = w.args[0]
        if w is v:
            return v
        v = w


class Geometry:
    def __init__(self, ck, r):
        self.ck, self.r, self.I = ck, r, r.I
        self.vals = {}
        self.layout = None

    def bad(self, rule, e, msg, fn=None):
        fn = fn or getattr(e, 'fn', None) or self.r.fn
        self.ck.bad(rule, fn.qual, where(fn, getattr(e, 'node', e)), msg)

    def collect(self):
        seen, st = set(), []
        for e in self.I.trace:
            st += [a for a in e.args if isinstance(a, V)]
            if isinstance(e.val, V):
                st.append(e.val)
            st += [c for c, p in e.guards]
        st += [v for v, g, n, s in self.I.returns]
        while st:
            v = st.pop()
            if v.uid in seen:
                continue
            seen.add(v.uid)
            self.vals.setdefault(v.key, v)
            st += list(v.args) + list(v.back)
            if v.op == 'join':
                for g in v.x:
                    st += [c for c, p in g]
            if v.op == 'new':
                for x in self.I.objinit.get(v.uid) or []:
                    st += list(x) if isinstance(x, tuple) else [x]

    # ---- quantities per direction
    def quantity(self, v):
        """name of the per-direction sequence v is, or None"""
        v = strip(v)
        if v.op == 'join':
            qs = {self.quantity(a) for a in v.args} - {None}
            return qs.pop() if len(qs) == 1 else None
        if v.op == 'param' and v.x[1] in DIRS:
            return v.x[1]
        if v.op == 'attr' and v.x in DIRS:
            return v.x
        if v.op == 'elem':
            w = strip(v.args[0])
            if w.op == 'call' and w.x[0] == 'itertools.product' and self.overcells(w):
                return 'coordinates'
        return None

    def overcells(self, w):
        seen, st = set(), list(w.args)
        while st:
            v = st.pop()
            if v.uid in seen:
                continue
            seen.add(v.uid)
            if self.quantity(v) == 'num_cells':
                return True
            st += list(v.args)
            if v.op == 'new':
                for x in self.I.objinit.get(v.uid) or []:
                    st += list(x) if isinstance(x, tuple) else [x]
                for e in self.I.byobj.get(v.uid, ()):
                    st += list(e.args[1:])
        return False

    def component(self, v):
        """(quantity, direction) of an element of a per-direction sequence"""
        v = bare(v)
        while v.op == 'call' and v.x[0] in ('builtins.float', 'builtins.int', 'builtins.bool', 'numpy.array') and v.args:
            v = bare(v.args[0])
        if v.op == 'item':
            q = self.quantity(v.args[0])
            if q:
                i = bare(v.args[1])
                return q, ('loop', i.x[0]) if i.op == 'idx' else ('v', i.key)
        if v.op == 'elem':
            q = self.quantity(v.args[0])
            if q and q != 'coordinates':
                return q, ('loop', v.x)
            w = strip(v.args[0])
            if q is None and w.op == 'elem':
                pass
            if self.quantity(w) == 'coordinates':
                return 'coordinates', ('loop', v.x)
        return None

    def directions(self):
        done = set()
        for v in list(self.vals.values()):
            if v.op in ('bin', 'aug') and v.x in ('Mult', 'Div', 'FloorDiv', 'Mod') and len(v.args) == 2:
                a, b = self.component(v.args[0]), self.component(v.args[1])
                if a and b and a[0] != b[0]:
                    f = self.r.fn
                    if a[1] != b[1]:
                        self.bad('directions mixed', v, '%s combines %s of one direction with %s of another' % (f.qual, a[0], b[0]), f)
                    else:
                        self.ck.ok('quantities of one direction')
        for e in self.I.trace:
            for c, p in e.guards:
                q = self.component(c)
                if q and q[0] == 'periodic_boundaries' and e.kind in ('store_attr', 'method', 'aug_name', 'aug_item', 'store_item'):
                    used = {}
                    for a in e.args:
                        self.components(a, used, e)
                    for w, d in used.items():
                        if d != q[1] and (w, e.node) not in done:
                            done.add((w, e.node))
                            self.bad('directions mixed', e, '%s uses %s of a direction whose boundary condition was not tested' % (e.fn.qual, w))
                        elif d == q[1]:
                            self.ck.ok('boundary condition of the same direction')

    def components(self, v, out, e, depth=0, seen=None):
        seen = set() if seen is None else seen
        if not isinstance(v, V) or v.uid in seen or depth > 12:
            return
        seen.add(v.uid)
        q = self.component(v)
        if q:
            out[q[0]] = q[1]
            return
        for a in v.args:
            self.components(a, out, e, depth + 1, seen)
        if v.op == 'new':
            for x in self.I.objinit.get(v.uid) or []:
                for y in (x if isinstance(x, tuple) else (x,)):
                    self.components(y, out, e, depth + 1, seen)

    # ---- linear forms of vectors
    def linear(self, v, depth=0):
        v = strip(v)
        if depth > 30:
            raise Unk('depth')
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            a, b = self.linear(v.args[0], depth + 1), self.linear(v.args[1], depth + 1)
            out = dict(a)
            for k, c in b.items():
                out[k] = out.get(k, 0) + (c if v.x == 'Add' else -c)
                if out[k] == 0:
                    del out[k]
            return out
        if v.op == 'call' and v.x[0] in ('numpy.add', 'numpy.subtract') and len(v.args) == 2:
            return self.linear(V('bin', v.args, 'Add' if v.x[0].endswith('add') else 'Sub', v.node), depth + 1)
        if v.op == 'un' and v.x == 'neg':
            return {k: -c for k, c in self.linear(v.args[0], depth + 1).items()}
        if v.op in ('bin', 'aug') and v.x == 'Mult':
            a, b = self.component(v.args[0]), self.component(v.args[1])
            if a and b and {a[0], b[0]} == {'num_cells', 'lattice_vectors'}:
                return {('whole', a[1], b[1]): 1}
            if a and b and {a[0], b[0]} == {'coordinates', 'lattice_vectors'}:
                return {('cell', a[1], b[1]): 1}
            for x, y in (v.args, v.args[::-1]):
                q = self.component(y)
                if q and q[0] == 'lattice_vectors':
                    sc = self.scalar(x)
                    if sc is not None:
                        return sc if q[1] is None else {(k[0], k[1], q[1]) if k[0] in ('whole', 'cell') else ('comp', 'lattice_vectors', q[1]): c for k, c in sc.items()}
            for x, y in (v.args, v.args[::-1]):
                x = bare(x)
                if x.op == 'const' and isinstance(x.x, (int, float)):
                    return {k: c * x.x for k, c in self.linear(y, depth + 1).items() if c * x.x}
                if x.op == 'un' and x.x == 'neg' and bare(x.args[0]).op == 'const':
                    return {k: -c * bare(x.args[0]).x for k, c in self.linear(y, depth + 1).items()}
        if v.op in ('bin', 'aug') and v.x == 'Div' and bare(v.args[1]).op == 'const':
            return {k: c / bare(v.args[1]).x for k, c in self.linear(v.args[0], depth + 1).items()}
        if v.op == 'call' and v.x[0] in ('numpy.zeros', 'numpy.zeros_like'):
            return {}
        if v.op == 'const' and v.x == 0:
            return {}
        if v.op == 'mu':
            init = self.linear(v.args[0], depth + 1)
            if len(v.back) != 1:
                raise Unk('loop')
            b = bare(v.back[0])
            if b.op in ('bin', 'aug') and b.x in ('Add', 'Sub') and bare(b.args[0]).key == v.key:
                t = self.linear(b.args[1], depth + 1)
                out = dict(init)
                for k, c in t.items():
                    k = ('sum', v.x[0], k)
                    out[k] = out.get(k, 0) + (c if b.x == 'Add' else -c)
                return out
            if b.op in ('bin', 'aug') and not self.mentions(b, v):
                return {('last', v.x[0], k): c for k, c in self.linear(b, depth + 1).items()}
            raise Unk('loop')
        if v.op in ('call', 'bin') and (v.op == 'bin' and v.x == 'MatMult' or v.op == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul')) and len(v.args) == 2:
            a, b = self.quantity(v.args[0]), self.quantity(v.args[1])
            if a == 'coordinates' and b == 'lattice_vectors':
                return {('translation',): 1}
            raise Unk('product')
        c = self.component(v)
        if c:
            return {('comp',) + c: 1}
        return {('v', v.key): 1}

    def mentions(self, v, w):
        seen, st = set(), [v]
        while st:
            x = st.pop()
            if x.key == w.key:
                return True
            if x.uid in seen:
                continue
            seen.add(x.uid)
            st += list(x.args)
            if x.op == 'new':
                for e in self.I.byobj.get(x.uid, ()):
                    st += list(e.args[1:])
                for y in self.I.objinit.get(x.uid) or []:
                    st += list(y) if isinstance(y, tuple) else [y]
        return False

    def scalar(self, v):
        """a number as a combination of a number of cells, a cell coordinate and one, or None"""
        v = bare(v)
        if v.op == 'const' and isinstance(v.x, (int, float)):
            return {('one', None): v.x}
        q = self.component(v)
        if q and q[0] in ('num_cells', 'coordinates'):
            return {('whole' if q[0] == 'num_cells' else 'cell', q[1]): 1}
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            a, b = self.scalar(v.args[0]), self.scalar(v.args[1])
            if a is None or b is None:
                return None
            out = dict(a)
            for k, c in b.items():
                out[k] = out.get(k, 0) + (c if v.x == 'Add' else -c)
            return {k: c for k, c in out.items() if c}
        if v.op == 'un' and v.x == 'neg':
            a = self.scalar(v.args[0])
            return None if a is None else {k: -c for k, c in a.items()}
        return None

    def rounded(self, v):
        """(value, was it rounded to exact zeros?)"""
        v = strip(v)
        if v.op == 'new' and v.x == 'list':
            evs = self.I.byobj.get(v.uid, ())
            if len(evs) == 1 and evs[0].kind == 'method' and evs[0].x == 'append' and evs[0].loops and not self.I.objinit.get(v.uid):
                el = bare(evs[0].args[1])
                L = evs[0].loops[-1]
                if el.op == 'join' and len(el.args) == 2:
                    xs = [bare(a) for a in el.args]
                    if any(is_const(x, 0) or is_const(x, 0.0) for x in xs) and any(x.op == 'elem' and x.x == L.id for x in xs):
                        e = [x for x in xs if x.op == 'elem'][0]
                        return strip(e.args[0]), True
                if el.op == 'elem' and el.x == L.id:
                    return strip(el.args[0]), False
        if v.op == 'call' and v.x[0] == 'numpy.where' and len(v.args) == 3:
            if is_const(bare(v.args[2]), 0.0) or is_const(bare(v.args[2]), 0):
                return strip(v.args[1]), True
            if is_const(bare(v.args[1]), 0.0) or is_const(bare(v.args[1]), 0):
                return strip(v.args[2]), True
        return v, False

    def form(self, v):
        """normal form of the name of a position: (formatter, options, zeros) and the position"""
        v = bare(v)
        if v.op == 'call' and v.x[0] in ('numpy.array2string', 'builtins.str', 'numpy.array_str', 'builtins.tuple', 'builtins.repr') and v.args:
            opts = []
            for a, k in zip(v.args[1:], self.kw(v)):
                opts.append((k, self.option(a)))
            p = v.args[0]
            while True:
                w = bare(p)
                if w.op == 'mcall' and w.x[0] in FLAT:
                    p = w.args[0]
                elif w.op == 'call' and w.x[0] in ('numpy.ravel', 'numpy.array', 'numpy.asarray') and w.args:
                    p = w.args[0]
                else:
                    break
            pos, z = self.rounded(p)
            return (v.x[0], tuple(sorted(opts)), z), pos
        raise Unk('name of a position')

    def kw(self, v):
        n = len(v.args) - 1
        ks = list(v.x[1]) if len(v.x) > 1 and v.x[1] else []
        return [str(i) for i in range(n - len(ks))] + ks

    def option(self, a):
        a = bare(a)
        if a.op == 'param':
            return a.x[1]
        if a.op == 'attr':
            return a.x
        if a.op == 'const':
            return repr(a.x)
        return str(a.key)

    # ---- the list of orbitals and the dictionary of their indices
    def stored(self):
        out = {}
        for e in self.I.trace:
            if e.kind == 'store_attr' and isinstance(e.x, tuple):
                out.setdefault(e.x[0], []).append(e)
        lists, dicts = out.get('_orbitals'), out.get('_indices_orbitals')
        if not lists or not dicts:
            return None
        L, D = bare(lists[-1].args[1]), bare(dicts[-1].args[1])
        apps = [e for e in self.I.byobj.get(L.uid, ()) if e.kind == 'method' and e.x == 'append']
        puts = [e for e in self.I.byobj.get(D.uid, ()) if e.kind == 'store_item']
        form = None
        if len(apps) == 1 and len(puts) == 1 and len(self.I.byobj.get(L.uid, ())) == 1:
            a, p = apps[0], puts[0]
            if [l.id for l in a.loops] != [l.id for l in p.loops] or {(c.key, t) for c, t in a.guards} != {(c.key, t) for c, t in p.guards}:
                self.bad('listed and indexed together', p, '%s lists and indexes orbitals under different conditions' % p.fn.qual)
            idx = bare(p.args[2])
            k = self.offset(idx, L, a)
            if k is None:
                k = self.offset(idx, D, p)
                if k == 0:
                    k = None
            if k is not None and k != 0:
                self.bad('index of an orbital', p, '%s stores %s as the index of the orbital, %+d from the place where it is listed' % (p.fn.qual, show(idx, 3), k))
            elif k == 0:
                self.ck.ok('index of an orbital', p.fn.qual)
            else:
                self.ck.unsure('index of an orbital', show(idx, 3))
            form = self.record(a, p)
        else:
            self.ck.unsure('list of orbitals', '%d lists, %d entries' % (len(apps), len(puts)))
        return form

    def offset(self, idx, L, app):
        if idx.op in ('bin', 'aug') and idx.x in ('Add', 'Sub') and bare(idx.args[1]).op == 'const':
            k = self.offset(bare(idx.args[0]), L, app)
            return None if k is None else k + bare(idx.args[1]).x * (1 if idx.x == 'Add' else -1)
        if idx.op == 'call' and idx.x[0] == 'builtins.len' and idx.args and bare(idx.args[0]).uid == L.uid:
            ev = [e for e in self.I.trace if e.kind == 'call' and e.val is not None and e.val.uid == idx.uid]
            if len(ev) == 1 and [l.id for l in ev[0].loops] == [l.id for l in app.loops]:
                return 0 if ev[0].seq < app.seq else 1
        if idx.op == 'mu' and is_const(idx.args[0], 0) and len(idx.back) == 1:
            return None
        return None

    def record(self, a, p):
        t = bare(a.args[1])
        key = bare(p.args[1])
        if t.op != 'tuple' or key.op != 'tuple' or len(t.args) != 3 or len(key.args) != 2:
            return None
        if bare(t.args[1]).key != bare(key.args[1]).key:
            self.bad('listed and indexed together', p, '%s indexes the orbital under another name than it lists' % p.fn.qual)
        pos, z = self.rounded(t.args[0])
        try:
            form, kp = self.form(key.args[0])
        except Unk as u:
            self.ck.unsure('key of an orbital', str(u))
            form, kp = None, None
        if kp is not None and kp.key != pos.key:
            self.bad('listed and indexed together', p, '%s indexes the orbital under another position than it lists' % p.fn.qual)
        try:
            lf = self.linear(pos)
        except Unk as u:
            self.ck.unsure('position of an orbital', str(u))
            lf = None
        if lf is not None:
            cells, atoms, other = [], [], []
            for k, c in lf.items():
                if k[0] == 'sum' and k[2][0] == 'cell':
                    cells.append((k, c))
                elif k == ('translation',):
                    cells.append((k, c))
                elif k[0] == 'last' and k[2][0] == 'cell':
                    self.bad('position of an orbital', a, '%s keeps only the last term of the translation of a cell' % a.fn.qual)
                    cells.append((k, c))
                elif k[0] == 'v' and self.atompos(self.vals.get(k[1])):
                    atoms.append((k, c))
                else:
                    other.append(k)
            if other:
                self.ck.unsure('position of an orbital', str([o[0] for o in other]))
            elif [c for k, c in cells] != [1] or [c for k, c in atoms] != [1]:
                self.bad('position of an orbital', a, '%s places an orbital at %s instead of the translation of its cell plus the position of its atom' % (
                    a.fn.qual, ' + '.join(['%g*translation' % c for k, c in cells] + ['%g*atom' % c for k, c in atoms]) or 'zero'))
            else:
                self.ck.ok('position of an orbital', a.fn.qual)
        # the orbitals of the same atom
        name = bare(t.args[1])
        if name.op == 'elem' and lf is not None and atoms and not other:
            w = bare(name.args[0])
            av = self.vals[atoms[0][0][1]]
            same = None
            if w.op == 'elem' and av.op == 'elem':
                same = w.x == av.x
            if same is False:
                self.bad('orbitals of another atom', a, '%s lists the orbitals of one atom at the position of another' % a.fn.qual)
        # the coordinates of the same cell
        co = strip(t.args[2])
        used = [k[1] for k, c in cells if k[0] == 'sum'] if lf is not None else []
        src = self.cellsource(co)
        if src == 'one cell':
            self.bad('coordinates of another cell', a, '%s lists every orbital with the coordinates of one and the same cell' % a.fn.qual)
        self.layout = {}
        for i, x in enumerate(t.args):
            if self.rounded(x)[0].key == pos.key:
                self.layout['position'] = i
            elif bare(x).key == name.key:
                self.layout['name'] = i
            else:
                self.layout['cell'] = i
        return form

    def cellsource(self, v):
        if v.op == 'elem':
            return 'each cell' if self.quantity(v) == 'coordinates' else None
        if v.op == 'item' and bare(v.args[1]).op == 'const':
            w = strip(v.args[0])
            if w.op == 'call' and w.x[0] == 'itertools.product' and self.overcells(w):
                return 'one cell'
        return None

    def atompos(self, v):
        if v is None:
            return False
        w = strip(v)
        if w.op in ('elem', 'item'):
            s = strip(w.args[0])
            return s.op == 'attr' and s.x == 'atom_positions' or s.op == 'param' and s.x[1] == 'atom_positions'
        return False

    # ---- images
    def images(self):
        evs = [e for e in self.I.trace if e.kind == 'store_attr' and isinstance(e.x, tuple) and e.x[0] == '_boundary_vectors']
        if not evs:
            return
        loops = [e for e in evs if e.loops]
        if not loops:
            self.growing(evs[-1])
            return
        e = loops[-1]
        L = e.loops[-1]
        v = bare(e.args[1])
        xs = self.I.objinit.get(v.uid) if v.op == 'new' else None
        if xs is None:
            self.ck.unsure('images', show(v, 3))
            return
        self.imageset(e, L, list(xs), [x.args[1] for x in self.I.byobj.get(v.uid, ()) if x.kind == 'method' and x.x == 'append'], [bare(s.args[1]) for s in evs if not s.loops])

    def growing(self, e):
        self.ck.unsure('images', 'not built in a loop over the directions')

    def imageset(self, e, L, xs, more, first):
        prev = set()
        for f in first:
            for x in self.I.objinit.get(f.uid) or []:
                prev.add(bare(x).key)
        forms = []
        for x in xs + more:
            x = bare(x)
            if x.key in prev:
                forms.append((1, 0, None))
                continue
            try:
                lf = self.keyed(x, prev)
            except Unk as u:
                self.ck.unsure('images', str(u))
                return
            p = sum(c for k, c in lf.items() if k == 'prev')
            w = [(k, c) for k, c in lf.items() if k != 'prev']
            if len(w) > 1 or w and w[0][0][0] != 'whole':
                if w and all(k[0] == 'whole' or k[0] == 'comp' and k[1] == 'lattice_vectors' for k, c in w):
                    self.bad('images of the lattice', e, '%s translates by %s instead of the whole length of the lattice' % (e.fn.qual, ' '.join('%+g*%s' % (c, 'length' if k[0] == 'whole' else 'lattice vector') for k, c in w)))
                    return
                self.ck.unsure('images', str(w)[:80])
                return
            forms.append((p, w[0][1] if w else 0, w[0][0] if w else None))
        got = sorted((c, p) for p, c, k in forms)
        q = [self.component(c) for c, p in e.guards if p] + [self.component(c) for c, p in L.guards if p]
        neg = [self.component(c) for c, p in e.guards if not p and self.component(c) and self.component(c)[0] == 'periodic_boundaries']
        if not any(c and c[0] == 'periodic_boundaries' for c in q):
            if neg:
                self.bad('images of the lattice', e, '%s adds images in the directions that are not periodic' % e.fn.qual)
                return
            if not any(self.named(c, 'periodic_boundaries') for c, p in tuple(e.guards) + tuple(L.guards)):
                self.bad('images of the lattice', e, '%s adds images whether or not the direction is periodic' % e.fn.qual)
                return
            self.ck.unsure('images', 'condition')
            return
        cs = [c for c, p in got]
        if sorted(cs) != [-1, 0, 1]:
            missing = [c for c in (-1, 0, 1) if c not in cs]
            self.bad('images of the lattice', e, '%s keeps images translated by %s lengths of the lattice%s' % (e.fn.qual, ', '.join('%g' % c for c in cs), '; %s missing' % ', '.join(str(m) for m in missing) if missing else ''))
            return
        if any(p != 1 for c, p in got):
            self.bad('images of the lattice', e, '%s does not combine the translations of one direction with the images of the other directions' % e.fn.qual)
            return
        self.ck.ok('images of the lattice', e.fn.qual)

    def named(self, v, q):
        seen, st = set(), [v]
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op in ('unknown', 'undef', 'dyn', 'global', 'star', 'rcall', 'icall'):
                return True
            if self.quantity(x) == q:
                return True
            st += list(x.args) + list(x.back)
            if x.op == 'new':
                for e in self.I.byobj.get(x.uid, ()):
                    st += list(e.args[1:])
                for y in self.I.objinit.get(x.uid) or []:
                    st += list(y) if isinstance(y, tuple) else [y]
        return False

    # ---- all directions
    def dimension(self, v):
        """k when v is the number of directions plus k, or None"""
        v = bare(v)
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub') and bare(v.args[1]).op == 'const':
            k = self.dimension(v.args[0])
            return None if k is None else k + bare(v.args[1]).x * (1 if v.x == 'Add' else -1)
        if v.op == 'attr' and v.x == 'dim':
            return 0
        if v.op == 'call' and v.x[0] == 'builtins.len' and v.args and self.quantity(v.args[0]) in DIRS:
            return 0
        return None

    def ranges(self):
        for L in self.I.loops.values():
            if L.iter is None or L.fn.module.name != 'lattice':
                continue
            w = bare(L.iter)
            if w.op == 'call' and w.x[0] in ('builtins.range', 'numpy.arange') and w.args:
                lo = bare(w.args[0]) if len(w.args) > 1 else None
                k = self.dimension(w.args[1] if len(w.args) > 1 else w.args[0])
                if k is None:
                    continue
                if k != 0 or lo is not None and lo.op == 'const' and lo.x != 0 and len(w.args) < 3:
                    self.ck.bad('directions left out', L.fn.qual, where(L.fn, L.node), '%s does not go through all directions of the lattice' % L.fn.qual)
                else:
                    self.ck.ok('all directions', L.fn.qual)

    def keyed(self, v, prev, depth=0):
        v = bare(v)
        if v.key in prev:
            return {'prev': 1}
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
            a, b = self.keyed(v.args[0], prev, depth + 1), self.keyed(v.args[1], prev, depth + 1)
            out = dict(a)
            for k, c in b.items():
                out[k] = out.get(k, 0) + (c if v.x == 'Add' else -c)
            return {k: c for k, c in out.items() if c}
        if v.op == 'un' and v.x == 'neg':
            return {k: -c for k, c in self.keyed(v.args[0], prev, depth + 1).items()}
        if v.op == 'bin' and v.x == 'Mult':
            for x, y in (v.args, v.args[::-1]):
                x = bare(x)
                if x.op == 'const' and isinstance(x.x, (int, float)):
                    return {k: c * x.x for k, c in self.keyed(y, prev, depth + 1).items() if c * x.x}
                if x.op == 'un' and x.x == 'neg' and bare(x.args[0]).op == 'const':
                    return {k: -c * bare(x.args[0]).x for k, c in self.keyed(y, prev, depth + 1).items()}
        return self.linear(v)

    def backwards(self):
        """the coordinates of a cell are in the order of the directions"""
        fn = self.r.fn
        rev = []
        for L in self.I.loops.values():
            if L.iter is None or L.fn.module.name != 'lattice' or L.kind != 'comp':
                continue
            w = bare(L.iter)
            x = None
            if w.op == 'item' and bare(w.args[1]).op == 'slice' and len(bare(w.args[1]).args) == 3:
                t = bare(bare(w.args[1]).args[2])
                if t.op == 'const' and t.x == -1 or t.op == 'un' and bare(t.args[0]).op == 'const' and bare(t.args[0]).x == 1:
                    x = w.args[0]
            if w.op == 'call' and w.x[0] in ('builtins.reversed', 'numpy.flip') and w.args:
                x = w.args[0]
            if x is not None and self.quantity(x) == 'num_cells':
                rev.append(L)
        if not rev:
            return
        # turned round once more somewhere?
        for v in self.vals.values():
            if v.op == 'slice' and len(v.args) == 3 and (bare(v.args[2]).op == 'const' and bare(v.args[2]).x == -1 or bare(v.args[2]).op == 'un') and not any(bare(L.iter).op == 'item' and bare(bare(L.iter).args[1]).uid == v.uid for L in rev):
                return
            if v.op == 'call' and v.x[0] in ('builtins.reversed', 'numpy.flip') and not any(bare(L.iter).uid == v.uid for L in rev):
                return
        self.ck.bad('coordinates of another direction', fn.qual, where(fn, rev[0].node), '%s lists the numbers of cells from the last direction to the first, so the coordinates of a cell are in the opposite order of the lattice vectors' % fn.qual)

    # ---- lookups
    def lookup(self, form):
        for e in self.I.trace:
            for c, p in e.guards if e.kind == 'return' and e.args and bare(e.args[0]).op in ('item', 'mcall') else ():
                c = bare(c)
                while c.op == 'un' and c.x == 'not' or c.op == 'call' and c.x[0] == 'builtins.bool' and len(c.args) == 1:
                    c, p = bare(c.args[0]), not p if c.op == 'un' else p
                if p and c.op == 'mcall' and c.x[0] == 'get' and len(c.args) == 2 and bare(c.args[0]).op == 'attr' and bare(c.args[0]).x == '_indices_orbitals':
                    self.bad('position outside the lattice', e, '%s takes the index 0 for no index, so the first orbital of the lattice is not found' % self.r.fn.qual)
        for v in list(self.vals.values()):
            if v.op == 'item' and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x == '_indices_orbitals' or v.op == 'mcall' and v.x[0] == 'get' and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x == '_indices_orbitals':
                key = bare(v.args[1])
                if key.op != 'tuple' or len(key.args) != 2:
                    continue
                if bare(key.args[1]).op == 'const' and len(self.r.fn.params()) > 2:
                    self.bad('keys that differ', v, '%s looks up %s whatever the name of the orbital is' % (self.r.fn.qual, show(key.args[1], 2)), self.r.fn)
                try:
                    f, pos = self.form(key.args[0])
                except Unk as u:
                    self.ck.unsure('key of an orbital', str(u))
                    continue
                if form is not None:
                    if f != form:
                        self.bad('keys that differ', v, '%s looks orbitals up under %s, but they are stored under %s' % (self.r.fn.qual, self.say(f), self.say(form)), self.r.fn)
                    else:
                        self.ck.ok('keys that agree', self.r.fn.qual)
                try:
                    lf = self.linear(pos)
                except Unk:
                    continue
                bs = {k: c for k, c in lf.items() if k[0] == 'v' and self.image(self.vals.get(k[1]))}
                ps = {k: c for k, c in lf.items() if k[0] == 'v' and self.vals.get(k[1]) is not None and bare(self.vals[k[1]]).op == 'param'}
                if len(bs) + len(ps) != len(lf):
                    continue
                if not bs:
                    self.bad('images of the lattice', v, '%s does not look at the images of the position' % self.r.fn.qual, self.r.fn)
                elif list(ps.values()) != [1] or [abs(c) for c in bs.values()] != [1]:
                    self.bad('images of the lattice', v, '%s looks up %s' % (self.r.fn.qual, lf), self.r.fn)
                else:
                    im = [self.vals[k[1]] for k in bs]
                    if self.partial(im[0]):
                        self.bad('images of the lattice', v, '%s looks at some of the images only' % self.r.fn.qual, self.r.fn)
                    else:
                        self.ck.ok('images looked up', self.r.fn.qual)
                    self.notfound(im[0])

    def partial(self, im):
        w = strip(bare(im).args[0])
        if w.op == 'slice' or w.op == 'item':
            return True
        return False

    def notfound(self, im):
        """the answer for a position outside the lattice is no index, and is given after all images"""
        fn = self.r.fn
        L = bare(im).x
        loop = self.I.loops.get(L)
        for st in loop.brk if loop is not None else ():
            for c, p in st.guards[len(loop.guards):]:
                c = bare(c)
                while c.op == 'un' and c.x == 'not':
                    c, p = bare(c.args[0]), not p
                if c.op == 'cmp' and c.x == 'In' and not p and strip(c.args[1]).op == 'attr' and strip(c.args[1]).x == '_indices_orbitals':
                    self.ck.bad('images of the lattice', fn.qual, where(fn, loop.node), '%s stops looking although the position was not found and images are left' % fn.qual)
                    return
        for e in self.I.trace:
            if e.kind != 'return' or not e.args:
                continue
            v = bare(e.args[0])
            n = v.args[0] if v.op == 'un' and v.x == 'neg' else v
            if n.op != 'const' or isinstance(n.x, bool) or not isinstance(n.x, int):
                continue
            x = -n.x if n is not v else n.x
            if x >= 0:
                self.bad('position outside the lattice', e, '%s answers %d, which is the index of an orbital, for a position outside the lattice' % (fn.qual, x))
            elif any(l.id == L for l in e.loops):
                self.bad('position outside the lattice', e, '%s gives up before it has looked at all images' % fn.qual)
            else:
                self.ck.ok('position outside the lattice', fn.qual)

    def say(self, f):
        return '%s(%s%s)' % (f[0].split('.')[-1], 'position with exact zeros' if f[2] else 'position', ''.join(', %s=%s' % o for o in f[1]))

    def image(self, v):
        if v is None:
            return False
        v = bare(v)
        if v.op != 'elem':
            return False
        w = strip(v.args[0])
        while w.op in ('slice', 'item') and w.args:
            w = strip(w.args[0])
        return w.op == 'attr' and w.x == '_boundary_vectors'

    def distances(self):
        """minimum over all images of |p1 + image - p2|"""
        for v, g, node, s in self.I.returns:
            w = bare(v)
            if w.op == 'item' and bare(w.args[1]).op == 'const' and any(self.isimaged(n) for n, L in self.norms(w.args[0])):
                self.bad('distance', node, '%s returns the distance to one of the images instead of the smallest' % self.r.fn.qual, self.r.fn)
                continue
            if not (w.op == 'call' and w.args):
                continue
            norms = self.norms(w.args[0])
            if not norms:
                continue
            for n, L in norms:
                self.distance(w, n, L, node)

    def norms(self, v):
        v = bare(v)
        out = []
        if v.op == 'new':
            for e in self.I.byobj.get(v.uid, ()):
                if e.kind == 'method' and e.x == 'append':
                    n = bare(e.args[1])
                    if n.op == 'call' and n.x[0] in ('numpy.linalg.norm', 'scipy.linalg.norm') and n.args:
                        out.append((n, e.loops[-1] if e.loops else None))
        return out

    def isimaged(self, n):
        try:
            return any(k[0] == 'v' and self.image(self.vals.get(k[1])) for k in self.linear(n.args[0]))
        except Unk:
            return False

    def place(self, v):
        """('position', parameter) of the vector v"""
        v = strip(v)
        if v.op == 'param':
            return v.x[1]
        if v.op == 'item' and bare(v.args[1]).op == 'const':
            o = strip(v.args[0])
            if o.op == 'item' and strip(o.args[0]).op == 'attr' and strip(o.args[0]).x == '_orbitals' and strip(o.args[1]).op == 'param':
                k = (self.layout or {}).get('position')
                if k is not None and bare(v.args[1]).x != k:
                    self.bad('component of an orbital', v, '%s takes component %s of an orbital for its position, which is component %d' % (self.r.fn.qual, bare(v.args[1]).x, k), self.r.fn)
                return strip(o.args[1]).x[1]
        return None

    def record_component(self, v):
        """constant k when v is component k of an orbital of a lattice"""
        v = strip(v)
        if v.op != 'item' or bare(v.args[1]).op != 'const':
            return None
        o = strip(v.args[0])
        if o.op in ('elem', 'item') and strip(o.args[0]).op == 'attr' and strip(o.args[0]).x == '_orbitals':
            return bare(v.args[1]).x
        return None

    def consumers(self):
        """orbitals are looked up by the components that hold their positions and their names"""
        if not self.layout or set(self.layout) != {'position', 'name', 'cell'}:
            return
        for e in self.I.trace:
            if e.kind not in ('icall', 'rcall') or not isinstance(e.x, tuple) or e.x[0] != 'lattice.Lattice.index':
                continue
            args = dict(zip(('self', 'position', 'orbital_name'), e.args))
            for what, role in (('position', 'position'), ('orbital_name', 'name')):
                v = args.get(what)
                if not isinstance(v, V):
                    continue
                seen, st = set(), [v]
                while st:
                    x = st.pop()
                    if x.uid in seen:
                        continue
                    seen.add(x.uid)
                    k = self.record_component(x)
                    if k is not None:
                        if k != self.layout[role]:
                            self.bad('component of an orbital', e, '%s uses component %s of an orbital as its %s, which is component %d' % (e.fn.qual, k, role, self.layout[role]))
                        else:
                            self.ck.ok('components of orbitals', e.fn.qual)
                        continue
                    if x.op not in ('elem', 'new'):
                        st += list(x.args)

    def component_of_record(self):
        """Lattice.position hands out the component that holds the position"""
        for v, g, node, s in self.I.returns:
            w = bare(v)
            if w.op == 'item':
                self.place(w)

    def vector(self, v, env, d=0):
        """value of a vector expression for given positions and image"""
        v = bare(v)
        if d > 20:
            raise Unk('depth')
        if self.image(v):
            return env['image']
        p = self.place(v)
        if p is not None:
            if p not in env:
                raise Unk(p)
            return env[p]
        if v.op == 'const' and type(v.x) in (int, float):
            return (v.x,) * 2
        if v.op == 'un' and v.x in ('neg', 'USub'):
            return tuple(-x for x in self.vector(v.args[0], env, d + 1))
        if v.op == 'bin' and v.x in ('Add', 'Sub', 'Mult'):
            a, b = (self.vector(x, env, d + 1) for x in v.args)
            return tuple(x + y if v.x == 'Add' else x - y if v.x == 'Sub' else x * y for x, y in zip(a, b))
        if v.op == 'call' and v.x[0] in ('numpy.add', 'numpy.subtract') and len(v.args) == 2:
            a, b = (self.vector(x, env, d + 1) for x in v.args)
            return tuple(x + y if v.x[0] == 'numpy.add' else x - y for x, y in zip(a, b))
        if v.op == 'call' and v.x[0] in ('numpy.abs', 'numpy.absolute', 'builtins.abs') and len(v.args) == 1:
            return tuple(abs(x) for x in self.vector(v.args[0], env, d + 1))
        if v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.asarray', 'numpy.copy') and v.args:
            return self.vector(v.args[0], env, d + 1)
        raise Unk(show(v, 2))

    def sampled(self, n, node):
        """the vector whose norm is taken is, up to sign, the difference plus the image or minus it"""
        fn = self.r.fn
        names = [p for p in fn.params() if p.startswith('position')]
        if len(names) != 2:
            return
        try:
            for a, b, c in (((0.5, 2.0), (3.0, 0.25), (4.0, 0.0)), ((3.0, 0.25), (0.5, 2.0), (4.0, 8.0)), ((-1.0, 2.0), (3.0, 5.0), (-4.0, 8.0))):
                x = self.vector(n.args[0], {names[0]: a, names[1]: b, 'image': c})
                r = sum(t * t for t in x)
                ok = [sum((p - q + s * t) ** 2 for p, q, t in zip(a, b, c)) for s in (1, -1)]
                if not any(abs(r - o) < 1e-9 for o in ok):
                    self.bad('distance', node, '%s takes the norm of %s, which is not the distance between one position and an image of the other' % (fn.qual, show(n.args[0], 4)), fn)
                    return
        except Unk:
            pass

    def reads(self):
        """an orbital given by its number is the one with that number"""
        fn = self.r.fn

        def num(v, p, n, d=0):
            v = bare(v)
            if v.op == 'param' and v.x[1].startswith('position'):
                return p
            if v.op == 'const' and type(v.x) is int:
                return v.x
            if v.op == 'un' and v.x in ('neg', 'USub'):
                return -num(v.args[0], p, n, d + 1)
            if v.op == 'call' and v.x[0] == 'builtins.int' and len(v.args) == 1:
                return num(v.args[0], p, n, d + 1)
            if v.op == 'call' and v.x[0] == 'builtins.len' and v.args and strip(v.args[0]).op == 'attr' and strip(v.args[0]).x == '_orbitals':
                return n
            if v.op == 'bin' and v.x in ('Add', 'Sub', 'Mult', 'Mod') and d < 10:
                a, b = num(v.args[0], p, n, d + 1), num(v.args[1], p, n, d + 1)
                return a + b if v.x == 'Add' else a - b if v.x == 'Sub' else a * b if v.x == 'Mult' else a % b
            raise Unk('index')
        for v in list(self.vals.values()):
            if v.op == 'item' and strip(v.args[0]).op == 'attr' and strip(v.args[0]).x == '_orbitals':
                try:
                    n = 7
                    if any(num(v.args[1], p, n) % n != p for p in range(n)):
                        self.bad('another orbital', v, '%s reads orbital %s where orbital number %s is meant' % (fn.qual, show(v.args[1], 3), 'position'), fn)
                except (Unk, ZeroDivisionError):
                    pass

    def distance(self, w, n, L, node):
        fn = self.r.fn
        try:
            lf = self.linear(n.args[0])
        except Unk as u:
            self.sampled(n, node)
            return
        ps, bs = {}, []
        for k, c in lf.items():
            x = self.vals.get(k[1]) if k[0] == 'v' else None
            if x is not None and self.image(x):
                bs.append(c)
                continue
            p = self.place(x) if x is not None else None
            if p is None:
                self.sampled(n, node)
                return
            ps[p] = ps.get(p, 0) + c
        names = [p for p in fn.params() if p.startswith('position')]
        if not names or self.I.params.get(names[0]) is None:
            return
        if w.x[0] not in ('numpy.min', 'builtins.min', 'numpy.amin', 'numpy.nanmin'):
            if w.x[0] in ('numpy.max', 'builtins.max', 'numpy.amax', 'numpy.mean', 'numpy.sum', 'builtins.sum', 'numpy.median'):
                self.bad('distance', node, '%s returns the %s of the distances to the images' % (fn.qual, w.x[0].split('.')[-1]), fn)
            return
        if len(n.args) > 1 and not (bare(n.args[1]).op == 'const' and bare(n.args[1]).x in (2, None)) and bare(n.args[1]).op in ('const', 'ext'):
            self.bad('distance', node, '%s uses the norm of order %s' % (fn.qual, show(n.args[1], 2)), fn)
            return
        if len(n.args) > 1:
            return
        if bs and any(self.partial(self.vals[k[1]]) for k in lf if k[0] == 'v' and self.image(self.vals.get(k[1]))):
            self.bad('distance', node, '%s looks at some of the images only' % fn.qual, fn)
            return
        if not bs:
            self.bad('distance', node, '%s ignores the images' % fn.qual, fn)
        elif [abs(c) for c in bs] != [1]:
            self.bad('distance', node, '%s translates by %s times an image' % (fn.qual, bs), fn)
        elif len(ps) != 2 or sorted(ps.values()) != [-1, 1]:
            self.bad('distance', node, '%s computes the norm of %s' % (fn.qual, ' '.join('%+g*%s' % (c, p) for p, c in ps.items()) or 'an image'), fn)
        else:
            self.ck.ok('distances', fn.qual)

    # ---- constant unit cells
    def const(self, v, depth=0):
        """numerical value of a constant vector"""
        import math
        v = strip(v)
        if depth > 20:
            raise Unk('depth')
        c = lambda x: self.const(x, depth + 1)
        if v.op == 'const' and isinstance(v.x, (int, float)):
            return float(v.x)
        if v.op == 'tuple':
            return [c(a) for a in v.args]
        if v.op == 'new' and v.x == 'list' and not self.I.byobj.get(v.uid):
            return [c(a) for a in self.I.objinit.get(v.uid) or []]
        if v.op == 'call' and v.x[0] == 'numpy.zeros' and bare(v.args[0]).op == 'const':
            return [0.0] * int(bare(v.args[0]).x)
        if v.op == 'call' and v.x[0] in ('numpy.sqrt', 'math.sqrt'):
            return math.sqrt(c(v.args[0]))
        if v.op == 'call' and v.x[0] in ('numpy.cos', 'numpy.sin', 'math.cos', 'math.sin'):
            return getattr(math, v.x[0].split('.')[-1])(c(v.args[0]))
        if v.op == 'ext' and v.x in ('numpy.pi', 'math.pi'):
            return math.pi
        if v.op == 'un' and v.x == 'neg':
            a = c(v.args[0])
            return [-x for x in a] if isinstance(a, list) else -a
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
            a, b = c(v.args[0]), c(v.args[1])
            f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Div': lambda x, y: x / y, 'Pow': lambda x, y: x ** y}[v.x]
            if isinstance(a, list) and isinstance(b, list):
                return [f(x, y) for x, y in zip(a, b)]
            if isinstance(a, list):
                return [f(x, b) for x in a]
            if isinstance(b, list):
                return [f(a, y) for y in b]
            return f(a, b)
        raise Unk(v.op)

    def kagome(self):
        """unit cell of three atoms half-way along the two lattice vectors, which are equally long and 60 degrees apart"""
        fn = self.r.fn
        cells = [e for e in self.I.trace if e.kind == 'instantiate' and e.x[0] == 'lattice.UnitCell']
        if len(cells) != 1:
            return
        e = cells[0]
        try:
            vecs = self.const(dict(e.x[1])['lattice_vectors'])
            atoms = []
            for a in self.I.trace:
                if a.kind == 'method' and a.x == 'append' and a.args[0].op in ('new', 'attr', 'narrow') and len(a.args) > 1:
                    try:
                        x = self.const(a.args[1])
                    except Unk:
                        continue
                    if isinstance(x, list) and len(x) == 2 and all(isinstance(y, float) for y in x):
                        atoms.append(x)
        except (Unk, KeyError) as u:
            self.ck.unsure('unit cell', '%s: %s' % (fn.qual, u))
            return
        if len(vecs) != 2 or any(len(v) != 2 for v in vecs):
            return
        dot = lambda a, b: sum(x * y for x, y in zip(a, b))
        a1, a2 = vecs
        n1, n2 = dot(a1, a1), dot(a2, a2)
        if abs(n1 - n2) > 1e-9 or abs(abs(dot(a1, a2)) - n1 / 2) > 1e-9:
            self.bad('unit cell', e, '%s: the lattice vectors %s do not span a triangular lattice' % (fn.qual, vecs))
            return
        if len(atoms) != 3:
            self.ck.unsure('unit cell', '%s: %d atoms' % (fn.qual, len(atoms)))
            return
        # corner sharing triangles: all three atoms at half a lattice vector from each other
        for i in range(3):
            d = [x - y for x, y in zip(atoms[i], atoms[(i + 1) % 3])]
            if abs(dot(d, d) - n1 / 4) > 1e-9:
                self.bad('unit cell', e, '%s: atoms %s do not form a triangle with sides half a lattice vector long' % (fn.qual, atoms))
                return
        for x in atoms[1:]:
            d = [p - q for p, q in zip(x, atoms[0])]
            if all(abs(2 * p - s * q) > 1e-9 or abs(2 * r - s * t) > 1e-9 for v in (a1, a2, [p - q for p, q in zip(a2, a1)]) for s in (1, -1) for (p, r), (q, t) in [((d[0], d[1]), (v[0], v[1]))]):
                self.bad('unit cell', e, '%s: atom %s is not half-way along a lattice vector' % (fn.qual, x))
                return
        self.ck.ok('unit cells', fn.qual)

    def cells(self):
        """the number of cells along each lattice vector is handed on in the order of the parameters"""
        fn = self.r.fn
        ps = [p for p in fn.params()]
        for e in self.I.trace:
            if e.kind != 'instantiate' or e.x[0] != 'lattice.Lattice':
                continue
            v = bare(dict(e.x[1]).get('num_cells', e.val))
            if v.op == 'tuple':
                names = [bare(a).x[1] for a in v.args if bare(a).op == 'param']
                if len(names) == len(v.args) and names != sorted(names, key=ps.index):
                    self.bad('directions mixed', e, '%s hands the numbers of cells on in the order %s' % (fn.qual, ', '.join(names)))
                elif len(names) == len(v.args) > 1:
                    self.ck.ok('numbers of cells in order', fn.qual)

    # ---- a cubic lattice: lattice vector k points along axis k
    def cubic(self):
        for e in self.I.trace:
            if e.kind == 'store_item' and e.loops and bare(e.args[0]).op == 'call' and bare(e.args[0]).x[0] == 'numpy.zeros':
                i = bare(e.args[1])
                if i.op == 'const' and e.loops[-1].kind in ('for', 'comp') and bare(e.args[2]).op == 'const':
                    self.bad('unit cell', e, '%s: all lattice vectors point in the same direction' % e.fn.qual)
                elif i.op in ('idx', 'mu', 'elem'):
                    self.ck.ok('unit cells', e.fn.qual)


def run(ck):
    prog = ck.ctx.prog
    runs = []
    for fn in list(prog.judged()):
        if fn.module.name not in ('lattice', 'symmetrization', 'visualization', 'transformation', 'basis'):
            continue
        for i, tys in enumerate(variants(fn)):
            try:
                r = ck.ctx.run_one(fn, tys, i)
            except AnalysisError as e:
                ck.ctx.failures.append('%s: %s' % (fn.qual, e))
                continue
            if r is not None:
                G = Geometry(ck, r)
                G.collect()
                runs.append(G)
    form = layout = None
    for G in runs:
        G.directions()
        G.ranges()
        if G.r.fn.name == '__init__' and G.r.fn.module.name == 'lattice':
            f = G.stored()
            form = form or f
            layout = layout or G.layout
            G.images()
            G.backwards()
    for G in runs:
        G.layout = layout
        G.consumers()
        if G.r.fn.cls is not None and G.r.fn.cls.name == 'Lattice':
            G.layout = layout
            G.lookup(form)
            G.distances()
            G.reads()
            if G.r.fn.name == 'position':
                G.component_of_record()
        if G.r.fn.module.name == 'lattice' and G.r.fn.cls is None:
            G.cells()
            if 'kagome' in G.r.fn.name:
                G.kagome()
            if 'cubic' in G.r.fn.name:
                G.cubic()
    ck.floor('quantities of one direction', 2)
    ck.floor('index of an orbital', 1)
    ck.floor('position of an orbital', 1)
    ck.floor('images of the lattice', 1)
    ck.floor('keys that agree', 1)
    ck.floor('distances', 1)
    ck.floor('unit cells', 2)
