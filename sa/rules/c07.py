"""C07: matrices are indexed and sized by the bases they are written in."""
from ..spaces import SPARSE, COPIES, EIGH, SVD, rq
from ..summary import bare
from ..values import is_const, show
from .c06 import Pairs, Site, appended, at, runs
from .c18 import where

RULE = ('Every axis of every array, every list of positions and every index is given the space (which basis in which version, which selection, which eigenvectors) it refers to. Row and column lists of sparse matrices must refer to '
        'the spaces of the declared shape, the result string gives the row, indices are only used on axes of their own space, products contract and sums align equal spaces, returned matrices have the documented axes.')
ASSUME = ['different parameters, fields and results of different calls may differ in content and order', 'Basis.index and iteration agree (C05)']

COORD = {f for f in SPARSE if f.split('.')[-1].split('_')[0] in ('csr', 'csc', 'coo', 'bsr')}
# documented axes of results (parameters of the function, or 'ext': the basis that is returned with the matrix)
RESULT = {
    'conversion.conversion_matrix': ('basis_to', 'basis_from'),
    'transformation.symmetry_matrix': ('basis', 'basis'),
    'transformation._symmetry_matrix_opstrings': ('basis', 'basis'),
    'transformation._symmetry_matrix_operators': ('operators', 'operators'),
    'algebra.commutant_matrix': ('basis', 'basis'),
    'algebra.liouvillian_matrix': ('ext', 'basis'),
    'algebra._liouvillian_matrix_opstrings': ('ext', 'basis'),
    'algebra._liouvillian_matrix_operators': ('ext', 'operators'),
    'algorithms._explore': ('ext', 'basis'),
    'core.commuting_operators': ('basis', 'any'),
    'core.invariant_operators': ('basis', 'any'),
    'basis.Operator.to_vector': ('basis', 'any'),
    'diagonalization.to_vector': ('basis', 'any'),
}
BASES = ('Basis', 'Operator', 'OperatorString')


def run(ck):
    live = alive(ck.ctx.prog)
    for fn, r, S in runs(ck):
        M = Matrices(ck, fn, r.I, S)
        M.live = live
        M.run(r)
    ck.floor('matrices assembled from coordinates', 3)


def alive(prog):
    """functions that are public or used by a function that is"""
    import ast
    fns = list(prog.functions())
    uses = {}
    for f in fns:
        uses[f.qual] = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
    name = lambda f: f.qual.split('.')[-1]
    out = {f.qual for f in fns if not name(f).startswith('_') or name(f).startswith('__')}
    while True:
        used = set().union(*[uses[q] for q in out]) if out else set()
        more = {f.qual for f in fns if name(f) in used} - out
        if not more:
            return out
        out |= more


class Matrices(Pairs):
    def run(self, r):
        self.parents = {}
        vs = self.values()
        for v, e in vs:
            for a in v.args:
                self.parents.setdefault(bare(a).uid, []).append(v)
        done = set()
        for v, e in vs:
            k = (v.key, tuple(g.key for g, p in self.I.vguards.get(v.uid, ())))
            if k in done:
                continue
            done.add(k)
            if v.op == 'call' and v.x[0] in COORD and v.args:
                self.sparse(v, e)
            elif v.op == 'mcall' and v.x[0] in ('dot', 'matmul') and len(v.args) == 2 or v.op == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul') and len(v.args) == 2 or v.op in ('bin', 'aug') and v.x == 'MatMult':
                self.product(v, e)
            elif v.op in ('bin', 'aug') and v.x in ('Add', 'Sub') or v.op == 'mcall' and v.x[0] == 'multiply' and len(v.args) == 2:
                self.sum(v, e)
            elif v.op == 'item':
                self.read(v, e)
            elif v.op == 'cmp' and v.x == 'In':
                self.member(v, e)
            elif v.op == 'rcall' and rq(v) == 'basis.Basis.__getitem__':
                self.lookup(v, e, v.args[0], v.args[1])
        for e in self.I.trace:
            if e.kind in ('store_item', 'aug_item') and e.args:
                self.written(e)
        self.results(r)

    def given(self, v, e, t):
        return self.S.given(t, self.I.vguards.get(v.uid, e.guards))

    def where(self, e, v):
        return Site(e, v, self.fn).where()

    def wrong(self, rule, e, v, msg):
        self.ck.bad(rule, getattr(e.fn, 'qual', self.fn.qual), self.where(e, v), msg)

    def place_of(self, p):
        S = self.S
        sp = S.elems(p) if S.isarray(p) else S.space(p)
        return sp if sp is not None and sp[0] not in ('const', 'expr', 'unknown') else None

    def axis(self, e, v, p, t, what):
        """position(s) p used on an axis of space t"""
        S = self.S
        if t is None or t[0] in ('const', 'expr') or p.op == 'slice':
            return
        sp = self.place_of(p)
        if sp is None:
            return
        sp, t = self.given(v, e, sp), self.given(v, e, t)
        if self.eigen(t) and (self.eigen(sp) or not self.strings(sp) or bare(p).op == 'idx'):
            return  # which eigenvectors: C14
        r = S.fits(sp, t)
        if r == 'diff':
            self.wrong('index of another basis', e, v, 'a position in %s is used on %s that is laid out in %s' % (S.show(sp), what, S.show(t)))
        elif r == 'same':
            self.ck.ok('indices used on an axis of their own basis', getattr(e.fn, 'qual', ''))

    def read(self, v, e):
        S = self.S
        b, i = bare(v.args[0]), v.args[1]
        if b.op == 'new' and b.x == 'dict':
            self.key(e, v, b, i)
            return
        if b.op == 'attr' and b.x in ('op_strings', '_op_strings') or S.cls(b) == 'Basis':
            if i.op not in ('slice', 'tuple'):
                self.lookup(v, e, b, i)
            return
        a = S.axes(b)
        if not a or S.elems(b) is not None and len(a) == 1:
            return
        parts = i.args if i.op == 'tuple' else (i,)
        for k, (p, t) in enumerate(zip(parts, a)):
            self.axis(e, v, p, t, 'axis %d of an array' % k)

    def lookup(self, v, e, b, i):
        S = self.S
        t = S.basis(b)
        sp = self.place_of(i)
        if t is None or sp is None:
            return
        r = S.fits(sp, t)
        if r == 'diff':
            self.wrong('index of another basis', e, v, 'a position in %s is looked up in %s' % (S.show(sp), S.show(t)))
        elif r == 'same':
            self.ck.ok('positions looked up in their own basis', getattr(e.fn, 'qual', ''))

    def keyspace(self, d):
        ts = []
        for e in self.S.stores.get(d.uid, ()):
            sp = self.place_of(e.args[1])
            if sp is None:
                return None
            ts.append(sp)
        return ts[0] if ts and all(t == ts[0] for t in ts) else None

    def key(self, e, v, d, i):
        S = self.S
        k, sp = self.keyspace(d), self.place_of(i)
        if k is None or sp is None:
            return
        r = S.compare(S.root(k), S.root(sp))
        if r == 'diff':
            self.wrong('index of another basis', e, v, 'a position in %s is looked up in a table of positions in %s' % (S.show(sp), S.show(k)))
        elif r == 'same':
            self.ck.ok('positions translated by the table of their own basis', getattr(e.fn, 'qual', ''))

    def member(self, v, e):
        d = bare(v.args[1])
        if d.op == 'new' and d.x == 'dict':
            self.key(e, v, d, v.args[0])

    def written(self, e):
        S = self.S
        b, i = bare(e.args[0]), e.args[1]
        if b.op == 'new' and b.x == 'dict':
            if e.kind == 'aug_item':
                self.key(e, e.val or b, b, i)
            return
        if S.slots(b):
            self.stored_slots(e, b)
            return
        a = S.axes(b)
        if not a:
            return
        parts = i.args if i.op == 'tuple' else (i,)
        out = []
        for k, (p, t) in enumerate(zip(parts, a)):
            self.axis(e, e.val if e.val is not None else i, p, t, 'axis %d of an array' % k)
            if p.op == 'slice' or S.isarray(p):
                out.append((p, t))
        out += [(None, t) for t in a[len(parts):]]
        # what is written must be laid out like the place it is written to
        x = S.axes(e.args[2])
        if x and len(x) == len(out) and e.kind == 'store_item':
            for (p, t), u in zip(out, x):
                if p is None or p.op == 'slice' and all(is_const(y, None) for y in p.args):
                    r = self.basislike(t, u) and S.compare(t, u)
                elif p.op != 'slice':
                    l = S.axes(p)
                    r = self.basislike(l[0], u) and S.compare(l[0], u) if l and len(l) == 1 else None
                else:
                    r = None
                if r == 'diff':
                    self.wrong('values of another basis', e, i, 'values laid out in %s are written to positions of %s' % (S.show(u), S.show(t)))
                elif r == 'same':
                    self.ck.ok('values written to positions in the same order', getattr(e.fn, 'qual', ''))

    def stored_slots(self, e, d):
        """component j of every entry refers to the same basis"""
        S = self.S
        x = bare(e.args[2])
        xs = x.args if x.op == 'tuple' else self.I.objinit.get(x.uid) if x.op == 'new' else None
        for j, y in enumerate(xs or ()):
            ts = {S.root(t) for t in S.parts_of(y, S.elems, d, j) if t is not None and t[0] not in ('const', 'expr')}
            for o in S.slots(d):
                z = bare(o.args[2])
                zs = z.args if z.op == 'tuple' else self.I.objinit.get(z.uid) if z.op == 'new' else None
                if zs and j < len(zs) and o is not e:
                    ts |= {S.root(t) for t in S.parts_of(zs[j], S.elems, d, j) if t is not None and t[0] not in ('const', 'expr')}
            ts = sorted(ts, key=repr)
            rs = {S.compare(a, b) for a in ts for b in ts if a != b}
            if 'diff' in rs:
                self.wrong('index of another basis', e, e.args[1], 'positions in %s are collected in one list' % ' and in '.join(S.show(t) for t in ts))
            elif len(ts) == 1:
                self.ck.ok('stored positions refer to one basis', getattr(e.fn, 'qual', ''))
                # the old part must come from the same component
            for old in self.olds(y, d):
                if old != j:
                    self.wrong('index of another basis', e, e.args[1], 'component %s of the stored positions is continued with component %s' % (j, old))

    def olds(self, v, d):
        v = bare(v)
        S = self.S
        if v.op in ('bin', 'aug') and v.x == 'Add' or v.op == 'join':
            return {k for a in v.args for k in self.olds(a, d)}
        if v.op == 'call' and v.x[0] in COPIES and len(v.args) == 1:
            return self.olds(v.args[0], d)
        if v.op == 'item' and v.args[1].op == 'const' and bare(v.args[0]).op == 'item' and S.holder(bare(v.args[0]).args[0]) == S.holder(d):
            return {v.args[1].x}
        return set()

    # ---- matrices from coordinates ---------------------------------------------------------------------------------------

    def sparse(self, v, e):
        S, ck = self.S, self.ck
        a = bare(v.args[0])
        if a.op != 'tuple' or len(a.args) != 2 or bare(a.args[1]).op != 'tuple' or len(bare(a.args[1]).args) != 2:
            return
        data = bare(a.args[0])
        rows, cols = (bare(x) for x in bare(a.args[1]).args)
        name = getattr(e.fn, 'qual', self.fn.qual)
        ck.count('matrices assembled from coordinates')
        kws = v.x[1] if len(v.x) > 1 else ()
        if 'shape' not in kws and len(v.args) - len(kws) < 2:
            if name in self.live:
                self.wrong('matrix without a shape', e, v, 'a matrix is assembled from coordinates without its shape, so its size depends on which entries are nonzero instead of on its bases')
            return
        sh = S.axes(v)
        if sh and len(sh) == 2:
            for l, t, n in ((rows, sh[0], 'rows'), (cols, sh[1], 'columns')):
                sp = S.elems(l)
                if t is not None and t[0] not in ('const', 'expr') and (sp is None or sp[0] == 'unknown'):
                    # positions collected at several places
                    es = appended(self.I, l) or ()
                    for x in es if len(es) > 1 else ():
                        s1 = S.space(bare(x.args[1]))
                        if s1 is not None and s1[0] not in ('const', 'expr', 'unknown') and S.fits(s1, t) == 'diff':
                            self.wrong('index of another basis', x, v, 'the %s are positions in %s, but there are as many %s as strings in %s' % (n, S.show(s1), n, S.show(t)))
                if sp is None or t is None or sp[0] in ('const', 'expr', 'unknown') or t[0] in ('const', 'expr'):
                    continue
                r = S.fits(sp, t)
                if r == 'diff':
                    self.wrong('index of another basis', e, v, 'the %s are positions in %s, but there are as many %s as strings in %s' % (n, S.show(sp), n, S.show(t)))
                elif r == 'same':
                    ck.ok('coordinates and size refer to the same basis', '%s %s' % (name, n))
        self.orientation(v, e, rows, cols)
        # the value belongs to the same pair of strings as its coordinates
        re, ce, de = (appended(self.I, x) for x in (rows, cols, data))
        if re and ce and de:
            for x, y, n in ((de, re, 'rows'), (de, ce, 'columns'), (re, ce, 'columns')):
                g = lambda es: sorted((tuple(l.id for l in q.loops), tuple(sorted({(c.key, bool(p)) for c, p in q.guards}, key=repr))) for q in es)
                if g(x) == g(y):
                    ck.ok('coordinates and values collected in step', name)
                elif len(x) == len(y) == 1 and x[0].loops == y[0].loops or len(x) != len(y) and all(p.loops == q.loops and p.guards == q.guards for p in x for q in y):
                    self.wrong('coordinates and values out of step', e, v, 'values, rows and columns of a matrix are not collected under the same conditions')
            ctx = lambda q: (tuple(l.id for l in q.loops), tuple((c.key, bool(p)) for c, p in q.guards))
            one = lambda es: {ctx(q): q.args[1] for q in es if sum(ctx(x) == ctx(q) for x in es) == 1}
            rs, cs = one(re), one(ce)
            for k, c in one(de).items():
                if k in rs and k in cs:
                    self.entry(v, e, c, (rs[k], cs[k]))

    def entry(self, v, e, c, place):
        """a coefficient must sit in the row (or column) of its own string"""
        os = self.owners(c)
        rs = []
        for i in place:
            i = bare(i)
            if not (i.op == 'rcall' and rq(i) == 'basis.Basis.index'):
                continue
            s = self.ident(i.args[1])
            a = [self.agree(o, s) for o in os]
            rs.append('same' if 'same' in a else 'diff' if a and all(r == 'diff' for r in a) else None)
        if 'same' in rs:
            self.ck.ok('coefficient entered at the position of its string', getattr(e.fn, 'qual', ''))
        elif rs and all(r == 'diff' for r in rs):
            self.wrong('coefficient at the position of another string', e, v, 'neither the row nor the column (%s, %s) of an entry belongs to the string of its coefficient %s' % (show(bare(place[0]), 3), show(bare(place[1]), 3), show(bare(c), 3)))

    def flipped(self, v):
        """is the matrix only used transposed?"""
        ps = self.parents.get(v.uid, ())
        return bool(ps) and any(p.op == 'attr' and p.x in ('T', 'H') or p.op == 'mcall' and p.x[0] in ('transpose', 'getH') or p.op == 'call' and p.x[0] == 'numpy.transpose' for p in ps)

    def orientation(self, v, e, rows, cols):
        """the string that was computed gives the row, the string it was computed from the column"""
        re, ce = appended(self.I, rows), appended(self.I, cols)
        if not re or not ce:
            return
        for x in re:
            for y in ce:
                if x.loops == y.loops and x.guards == y.guards:
                    r, c = bare(x.args[1]), bare(y.args[1])
                    a, b = self.computed(r, c), self.computed(c, r)
                    if a and not b:
                        self.ck.ok('result strings along the rows', getattr(e.fn, 'qual', ''))
                    elif b and not a and not self.flipped(v):
                        self.wrong('rows and columns exchanged', e, v, 'the column %s is computed from the row %s: result strings must be along the rows' % (show(c, 3), show(r, 3)))

    def computed(self, r, c):
        """is r the position of something that was computed from the string at position c?"""
        if c.op not in ('idx', 'elem', 'mu', 'rcall'):
            return False
        if r.op == 'rcall' and rq(r) == 'basis.Basis.index':
            st = [r.args[1]]
        elif r.op == 'item' and bare(r.args[0]).op == 'rcall' and rq(bare(r.args[0])) == 'diagonalization._apply_opstring':
            st = [r]
        else:
            return False
        if c.op == 'rcall':
            if rq(c) != 'basis.Basis.index':
                return False
            goal = {bare(c.args[1]).uid}
            loops = set()
        else:
            goal = {c.uid}
            loops = {c.x[0] if isinstance(c.x, tuple) else c.x}
        seen = set()
        while st:
            x = bare(st.pop())
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.uid in goal and x is not r:
                return not (r.op == 'rcall' and bare(r.args[1]).uid == x.uid)
            if x.op in ('idx', 'elem') and (x.x[0] if isinstance(x.x, tuple) else x.x) in loops:
                return True
            if x.op != 'mu':
                st.extend(x.args)
        return False

    # ---- products and sums -----------------------------------------------------------------------------------------------

    def basislike(self, a, b):
        """axes that are certainly laid out in strings or eigenvectors"""
        return all(t is not None and t[0] not in ('const', 'expr', 'unknown') and self.known(t) for t in (a, b))

    def strings(self, t):
        """positions in a basis (not in a list of operators)"""
        if t is None or not self.known(t):
            return False
        if t[0] == 'phi':
            return all(self.strings(x) for g, x in t[1] if x != ('unknown',))
        u = self.S.under(t)
        while u is not None and u[0] == 'grow':
            u = u[1]
        if u[0] == 'atom':
            v = self.S.vof.get(u)
            return self.S.cls(v) == 'Basis' or v.op == 'attr' and v.x in ('_basis', 'op_strings', '_op_strings')
        return u[0] in ('ext', 'mu')

    def eigen(self, t):
        ls = self.S.leaves(t)
        return 'eig' in ls and ls <= {'eig', 'unknown', None, 'expr'}

    def known(self, t):
        S = self.S
        if t is None or t in (('unknown',),):
            return False
        if t[0] == 'phi':
            return all(x == ('unknown',) or self.known(x) for g, x in t[1])
        u = S.under(t)
        while u is not None and u[0] == 'grow':
            u = u[1]
        if u is None:
            return False
        if u[0] in ('eig', 'ext', 'mu'):
            return True
        if u[0] == 'phi':
            return self.known(u)
        if u[0] != 'atom':
            return False
        v = S.vof.get(u)
        return v is not None and (S.cls(v) in ('Basis', 'Operator') or (S.I.T.ty(v) or '').lstrip('?') in ('Basis', 'Operator', 'list[Operator]') or v.op == 'attr' and v.x in ('_basis', 'op_strings', '_op_strings', 'coeffs'))

    def product(self, v, e):
        S = self.S
        a, b = S.axes(v.args[0]), S.axes(v.args[1])
        if not a or not b or len(a) > 2 or len(b) > 2:
            return
        x, y = self.given(v, e, a[-1]), self.given(v, e, b[0])
        if not self.basislike(x, y):
            return
        r = S.compare(x, y)
        if r == 'diff':
            self.wrong('product over different bases', e, v, 'a product sums over %s on the left and over %s on the right' % (S.show(x), S.show(y)))
        elif r == 'same':
            self.ck.ok('products over one basis', getattr(e.fn, 'qual', ''))

    def sum(self, v, e):
        S = self.S
        a, b = S.axes(v.args[0]), S.axes(v.args[1])
        if not a or not b or len(a) != len(b) or S.islist(v.args[0]) or S.islist(v.args[1]):
            return
        for x, y in zip(a, b):
            x, y = self.given(v, e, x), self.given(v, e, y)
            if not self.basislike(x, y) or S.cls(bare(v.args[0])) in BASES:
                continue
            r = S.compare(x, y)
            if r == 'diff':
                if S.under(x) != x and S.under(x)[0] != 'eig' or S.under(y) != y and S.under(y)[0] != 'eig':
                    continue
                self.wrong('sum of values in different bases', e, v, 'values laid out in %s and %s are added' % (S.show(x), S.show(y)))
            elif r == 'same':
                self.ck.ok('sums within one basis', getattr(e.fn, 'qual', ''))

    # ---- results ---------------------------------------------------------------------------------------------------------

    def results(self, r):
        S = self.S
        want = RESULT.get(self.fn.qual)
        if self.fn.qual == 'algebra.structure_constants':
            self.constants(r)
        if want is None:
            return
        for val, guards, node, state in self.I.returns:
            b = bare(val)
            xs = b.args if b.op == 'tuple' else self.I.objinit.get(b.uid) if b.op == 'new' and b.x in ('list', 'tuple') and not self.I.byobj.get(b.uid) else None
            m = xs[0] if xs else b
            ext = xs[1] if xs and len(xs) > 1 else None
            a = S.axes(m)
            if not a:
                continue
            if len(a) > 2:
                continue
            for k, (n, t) in enumerate(zip(want, a)):
                if n == 'any':
                    continue
                if n == 'ext':
                    g = S.basis(ext) if ext is not None else None
                else:
                    p = next((q for q in self.I.params.values() if q.op == 'param' and (q.x == n or isinstance(q.x, tuple) and n in q.x)), None) if hasattr(self.I, 'params') else None
                    g = S.basis(p) if p is not None else None
                if g is None or t is None or t[0] in ('const', 'expr'):
                    continue
                q = S.compare(t, g)
                if q == 'diff':
                    self.ck.bad('axes of the result', self.fn.qual, where(self.fn, node or self.fn.node), 'axis %d of the returned matrix is laid out in %s instead of %s' % (k, S.show(t), 'the returned basis' if n == 'ext' else n))
                elif q == 'same':
                    self.ck.ok('result has the documented axes', self.fn.qual)

    def constants(self, r):
        """rows of the structure constants are positions in the returned basis"""
        S = self.S
        for val, guards, node, state in self.I.returns:
            b = bare(val)
            xs = b.args if b.op == 'tuple' else self.I.objinit.get(b.uid) if b.op == 'new' and b.x in ('list', 'tuple') else None
            if not xs or len(xs) != 2:
                continue
            C = S.basis(xs[1])
            A = next((q for n, q in self.I.params.items() if n == 'basisA'), None)
            for alt in (bare(xs[0]).args if bare(xs[0]).op == 'join' else (xs[0],)):
                d = bare(alt)
                if d.op != 'new' or d.x != 'dict':
                    continue
                self.complete(d)
                m = S.stored(d)
                if m is None:
                    continue
                ts = S.axes(m)
                y = bare(m)
                ys = y.args if y.op == 'tuple' else self.I.objinit.get(y.uid) if y.op == 'new' else None
                if ys:
                    ts = tuple(S.elems(q) for q in ys[:2])
                for k, (t, g) in enumerate(zip(ts or (), (C, S.basis(A) if A is not None else None))):
                    if t is None or g is None:
                        continue
                    q = S.fits(t, g)
                    if q == 'diff':
                        self.ck.bad('axes of the result', self.fn.qual, where(self.fn, node or self.fn.node), '%s of the structure constants are positions in %s instead of %s' % (('rows', 'columns')[k], S.show(t), ('the returned basis', 'basisA')[k]))
                    elif q == 'same':
                        self.ck.ok('result has the documented axes', self.fn.qual)

    def complete(self, d):
        """the table returned has an entry for every string of the second basis, also when all its constants vanish"""
        stores = [e for e in self.I.byobj.get(d.uid, ()) if e.kind == 'store_item' and e.loops]
        if not stores:
            return
        extra = [[(c, p) for c, p in e.guards[len(e.loops[-1].guards):]] for e in stores]
        if not all(extra) or any(e.loops[-1] is not stores[0].loops[-1] for e in stores):
            self.ck.ok('an entry for every string', self.fn.qual)
            return
        if len(stores) == 1 and extra[0]:
            e, (c, p) = stores[0], extra[0][-1]
            # a string met twice needs no second entry
            if any(w.op == 'cmp' and w.x == 'In' and any(bare(a).uid == d.uid for a in w.args) for c, p in extra[0] for w in (bare(c), bare(bare(c).args[0]) if bare(c).args else bare(c))):
                return
            self.ck.bad('string without structure constants', self.fn.qual, where(self.fn, e.node), 'the matrix of a string is only entered into the result when %s%s: the other strings are missing from the result' % ('' if p else 'not ', show(c, 3)))
