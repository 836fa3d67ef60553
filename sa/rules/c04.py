"""C04: which fields an equality test forces to agree, and what the hash is computed from."""
from ..paths import flat, norm
from ..slicing import Slicer
from ..values import V, show

RULE = ('For every return of __eq__ that can be true: the conditions and the returned formula are opened (and: union, or: intersection, negation, early returns) and must force equality of every '
        'defining field of both objects, arrays with their lengths. __hash__ must exist and may depend only on fields that __eq__ forces to agree or on names built from them; a number that '
        'enters the name must be in one normal form, because equal numbers can print differently.')

NEED = {
    'operatorstring.OperatorString': {'orbital_operators': 'the letters', 'orbital_labels': 'the labels', 'op_type': 'the type', 'prefactor': 'the prefactor'},
    'basis.Operator': {'op_type': 'the type', 'coeffs': 'the coefficients', '_basis': 'the strings'},
    'basis.Basis': {'op_strings': 'the strings'},
}
ARRAYS = {'orbital_operators', 'orbital_labels', 'coeffs'}
# what is left of a field does not determine it
LOSSY = {'numpy.abs', 'builtins.abs', 'numpy.absolute', 'numpy.real', 'numpy.imag', 'numpy.sort', 'builtins.sorted', 'builtins.set', 'builtins.frozenset', 'builtins.len', 'builtins.sum', 'numpy.sum',
         'builtins.max', 'builtins.min', 'numpy.max', 'numpy.min', 'numpy.unique', 'builtins.type', 'builtins.bool', 'numpy.angle', 'numpy.sign', 'numpy.round', 'numpy.linalg.norm', 'numpy.prod'}
LOSSY_METHODS = {'sum', 'max', 'min', 'conj', 'round', 'any', 'all', 'lower', 'upper', 'count', 'prod', 'mean'} - {'conj'}
WEAK = {'any', 'numpy.any', 'builtins.any', 'sum', 'isin', 'numpy.isin'}
CONV = {'builtins.list', 'builtins.tuple', 'numpy.array', 'numpy.asarray', 'builtins.complex', 'builtins.float', 'builtins.str', 'builtins.repr', 'builtins.bytes'}


def where(fn, node):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(node, 'lineno', 0), fn.qual)


class Eq:
    def __init__(self, r, need):
        self.r, self.I, self.need = r, r.I, need
        ps = r.fn.params()
        self.a, self.b = self.I.params[ps[0]], self.I.params[ps[1]]

    def field(self, v):
        """(side, field, full): v is (a faithful copy of) a field of one operand"""
        while True:
            if v.op == 'narrow':
                v = v.args[0]
            elif v.op == 'call' and v.x[0] in CONV and len(v.args) >= 1:
                v = v.args[0]
            elif v.op == 'mcall' and v.x[0] in ('tolist', 'copy', 'flatten', 'tobytes', 'ravel') and v.args:
                v = v.args[0]
            else:
                break
        if v.op == 'elem' or v.op == 'item' and v.args[1].op == 'idx':
            return self.field(v.args[0])
        path = []
        w = v
        while w.op == 'attr':
            path.append(w.x)
            w = w.args[0]
            if w.op == 'narrow':
                w = w.args[0]
        if not path or w.key not in (self.a.key, self.b.key):
            return None
        side = w.key == self.a.key
        f = path[-1]
        if f == '_basis' and len(path) == 1 or f == '_basis' and path[-2:] == ['op_strings', '_basis'] or f != '_basis' and len(path) == 1:
            return side, f
        return None

    def implied(self, v, pol=True):
        """fields forced to agree when v has truth value pol; None = everything (v cannot have that value)"""
        v, pol = norm(v, pol)
        if v.op == 'const':
            return set() if bool(v.x) == pol else None
        if v.op == 'narrow':
            return self.implied(v.args[0], pol)
        if v.op == 'bool':
            rs = [self.implied(x, pol) for x in v.args]
            if (v.x == 'and') == pol:
                return None if any(r is None for r in rs) else set().union(*rs)
            rs = [r for r in rs if r is not None]
            return set.intersection(*rs) if rs else None
        if v.op == 'bin' and v.x in ('BitAnd', 'BitOr'):
            rs = [self.implied(x, pol) for x in v.args]
            if (v.x == 'BitAnd') == pol:
                return None if any(r is None for r in rs) else set().union(*rs)
            rs = [r for r in rs if r is not None]
            return set.intersection(*rs) if rs else None
        if v.op == 'join':
            rs = []
            for a, g in zip(v.args, v.x):
                r = self.implied(a, pol)
                if r is not None:
                    gi = self.guards(g)
                    if gi is not None:
                        rs.append(r | gi)
            return set.intersection(*rs) if rs else None
        if v.op == 'mu':
            rs = [self.implied(a, pol) for a in v.args]
            rs = [r for r in rs if r is not None]
            return {'?'} | (set.intersection(*rs) if rs else set())
        if not pol:
            if self.mentions(v) and v.op not in ('cmp',) and not (v.op in ('call', 'mcall') and v.x[0] in WEAK | {'all', 'numpy.all', 'builtins.all'}):
                return {'?' + f for f in self.mentions(v)}
            if v.op in ('call', 'mcall') and v.x[0] in ('any', 'numpy.any', 'builtins.any') and v.args:
                # no element differs
                w, p = norm(v.args[0], True)
                if w.op == 'cmp' and w.x == 'Eq' and not p:
                    return self.equal(w, True)
                return {'?' + f for f in self.mentions(v)}
            return set()
        if v.op == 'cmp' and v.x == 'Eq':
            return self.equal(v, False)
        if v.op == 'cmp' and v.x == 'Is':
            return set(self.need) | {'len'} if {v.args[0].key, v.args[1].key} == {self.a.key, self.b.key} else set()
        if v.op in ('mcall', 'call') and v.x[0] in ('all', 'numpy.all', 'builtins.all') and v.args:
            w = v.args[0]
            if w.op == 'cmp' and w.x == 'Eq':
                return self.equal(w, True)
            if w.op in ('item', 'slice') and w.args[0].op == 'cmp' and w.args[0].x == 'Eq':
                return set()
            if w.op == 'new':
                # all(condition for ... in ...): the condition holds for every pair
                evs = [e for e in self.I.byobj.get(w.uid, ()) if e.kind == 'method']
                if len(evs) == 1 and len(evs[0].args) == 2 and not evs[0].guards and not self.I.objinit.get(w.uid):
                    r = self.implied(evs[0].args[1], True)
                    return {f for f in r if f != 'len'} if r is not None else set()
            return {'?' + f for f in self.mentions(v)}
        if v.op == 'call' and v.x[0] in ('numpy.array_equal', 'builtins.isinstance', 'numpy.array_equiv') and v.x[0] != 'builtins.isinstance' and len(v.args) >= 2:
            return self.equal(V('cmp', v.args[:2], 'Eq'), v.x[0] == 'numpy.array_equiv', whole=True)
        if v.op == 'call' and v.x[0] == 'builtins.bool' and v.args:
            return self.implied(v.args[0], pol)
        if v.op in ('call', 'mcall') and v.x[0] in WEAK:
            return set()
        return {'?' + f for f in self.mentions(v)}

    def guards(self, gs):
        out = set()
        for c, p in flat(gs):
            r = self.implied(c, p)
            if r is None:
                return None
            out |= r
        return out

    def equal(self, v, elementwise, whole=False):
        a, b = v.args[:2]
        if {a.key, b.key} == {self.a.key, self.b.key}:
            return set(self.need) | {'len'}
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
            out = set()
            for x, y in zip(a.args, b.args):
                out |= self.equal(V('cmp', (x, y), 'Eq'), elementwise) or set()
            return out
        for ln in ('builtins.len',):
            if a.op == b.op == 'call' and a.x[0] == b.x[0] == ln:
                fa, fb = self.field(a.args[0]), self.field(b.args[0])
                if fa and fb and fa[0] != fb[0]:
                    return {'len'}
        if a.op == b.op == 'attr' and a.x == b.x and a.x in ('shape', 'size'):
            return {'len'}
        fa, fb = self.field(a), self.field(b)
        if fa and fb and fa[0] != fb[0] and fa[1] == fb[1]:
            conv = a.op == 'call' or b.op == 'call' or a.op == 'mcall'
            out = {fa[1]}
            if fa[1] == 'name':
                out = {'name', 'orbital_operators', 'orbital_labels', 'prefactor', 'len'}
            if whole and not elementwise or conv:
                out.add('len')
            return out
        if self.lossy(a) and self.lossy(b):
            return {'~%s' % x for x in self.lossy(a) & self.lossy(b)}
        ca, cb = self.I and self.mentions(v), None
        if a.op in ('call', 'mcall', 'rcall', 'dyn', 'item', 'new') or b.op in ('call', 'mcall', 'rcall', 'dyn', 'item', 'new'):
            if fa is None and fb is None:
                return {'?' + f for f in ca}
        return set()

    def lossy(self, v):
        """v is a field of one operand of which something is forgotten (its order, its sign, some of its entries)"""
        fs = set()
        if v.op == 'call' and v.x[0] in LOSSY and v.args:
            fs = {v.x[0].split('.')[-1]}
            v = v.args[0]
        elif v.op == 'mcall' and v.x[0] in LOSSY_METHODS:
            fs = {v.x[0]}
            v = v.args[0]
        elif v.op == 'attr' and v.x in ('real', 'imag', 'dtype', 'shape', 'size', 'ndim'):
            fs = {v.x}
            v = v.args[0]
        elif v.op == 'item' and v.args[1].op == 'slice' and any(x.op == 'const' and x.x is not None and not (i == 2 and x.x in (1, -1)) for i, x in enumerate(v.args[1].args)):
            fs = {'part'}
            v = v.args[0]
        elif v.op == 'item' and v.args[1].op == 'const':
            fs = {'part'}
            v = v.args[0]
        f = self.field(v)
        return {'%s %s' % (x, f[1]) for x in fs} if f else set()

    def mentions(self, v):
        """fields of both operands occurring in v"""
        keys = Slicer(self.I).close([v])[0]
        sides = {}
        st, seen = [v], set()
        while st:
            w = st.pop()
            if w.uid in seen:
                continue
            seen.add(w.uid)
            f = self.field(w)
            if f:
                sides.setdefault(f[1], set()).add(f[0])
            st.extend(w.args)
            if w.op == 'new':
                for x in self.I.objinit.get(w.uid) or []:
                    st.extend(x if isinstance(x, tuple) else [x])
                for e in self.I.byobj.get(w.uid, ()):
                    st.extend(e.args)
        out = {f for f, s in sides.items() if len(s) == 2}
        if 'name' in out:
            out |= {'orbital_operators', 'orbital_labels', 'prefactor'}
        return out


def run(ck):
    for cls, need in NEED.items():
        fn = ck.need(cls + '.__eq__')
        forced = None
        for r in ck.ctx.entries(only=lambda f: f is fn):
            E = Eq(r, need)
            res = None
            loopy = set()
            for e in r.I.trace:
                if e.kind in ('return', 'entry_return') and e.loops:
                    for c, p in e.guards:
                        loopy |= E.mentions(c)
            for v, g, n, s in r.I.returns:
                x = E.implied(v, True)
                y = E.guards(g) if x is not None else None
                if x is None or y is None:
                    continue
                res = (x | y) if res is None else res & (x | y)
            if res is None:
                ck.unsure('equality never true', cls)
                continue
            forced = res
            for f in need:
                if {'~real ' + f, '~imag ' + f} <= res:
                    res.add(f)
            for f, what in need.items():
                ck.count('fields examined')
                if f in res:
                    ck.ok('fields forced to agree', '%s: %s' % (cls, f))
                elif '?' in res or '?' + f in res or f in loopy or (f == '_basis' and '?op_strings' in res):
                    ck.unsure('field compared in a way not opened', '%s %s' % (cls, f))
                    forced = set(forced) | {f}
                else:
                    ck.bad('equality ignores a field', '%s %s' % (cls, f), where(fn, fn.node), 'two objects of class %s can compare equal although %s (%s) differ' % (cls.split('.')[1], what, f))
            if cls != 'basis.Basis':
                if 'len' in res:
                    ck.ok('lengths forced to agree')
                elif loopy or any(x.startswith('?') for x in res):
                    ck.unsure('lengths compared in a way not opened', cls)
                else:
                    ck.bad('equality ignores lengths', cls, where(fn, fn.node), 'arrays are compared element by element without comparing their lengths, so an empty one equals any one-element one')
        ne = fn.cls.methods.get('__ne__')
        if ne is not None:
            for r in ck.ctx.entries(only=lambda f: f is ne):
                E = Eq(r, need)
                for v, g, n, s in r.I.returns:
                    x = E.implied(v, False)
                    y = E.guards(g) if x is not None else None
                    if x is None or y is None:
                        continue
                    miss = [f for f in need if f not in x | y]
                    if miss and not any(z.startswith('?') for z in x | y):
                        ck.bad('inequality ignores a field', '%s %s' % (cls, miss[0]), where(ne, n), '__ne__ of class %s can be false although %s (%s) differ' % (cls.split('.')[1], miss[0], need[miss[0]]))
                    else:
                        ck.ok('negated comparisons')
        if cls == 'operatorstring.OperatorString' and forced is not None:
            hashing(ck, cls, forced)
    ck.floor('fields examined', 8)
    ck.floor('hash dependencies', 1)


def hashing(ck, cls, forced):
    ctx = ck.ctx
    c = ctx.prog.by_class.get(cls.split('.')[1])
    if c is None or '__hash__' not in c.methods:
        ck.bad('no hash', cls, 'qosy/operatorstring.py', 'class %s defines equality but no hash, so its objects cannot be found in dictionaries' % cls)
        return
    fn = c.methods['__hash__']
    init = ck.need(cls + '.__init__')
    fields = {}
    runs = list(ctx.entries(only=lambda f: f is init))
    for r in runs:
        for e in r.I.trace:
            if e.kind == 'store_attr' and r.I.roots(e.args[0])[0].key == r.I.params[init.params()[0]].key:
                fields.setdefault(e.x[0], []).append((r, e))
    used = set()
    text = set()
    for r in ctx.entries(only=lambda f: f is fn):
        I = r.I
        me = I.params[fn.params()[0]]
        uids, keys = Slicer(I).close([v for v, g, n, s in I.returns], [g for v, gs, n, s in I.returns for g in gs])
        seen = set()
        st = [v for v, g, n, s in I.returns]
        while st:
            v = st.pop()
            if v.uid in seen:
                continue
            seen.add(v.uid)
            if v.op == 'attr' and v.args[0].key == me.key:
                used.add(v.x)
                continue
            if v.op == 'call' and v.x[0] in ('builtins.id', 'time.time', 'random.random', 'builtins.object') or v.op == 'call' and v.x[0].startswith('numpy.random'):
                ck.bad('hash not determined by the fields', cls, where(fn, v.node), 'the hash depends on %s, which differs between equal strings' % v.x[0])
            if v.op == 'call' and v.x[0] in ('builtins.str', 'builtins.repr', 'builtins.type', 'builtins.format') and v.args and v.args[0].op == 'attr' and v.args[0].args[0].key == me.key:
                text.add(v.args[0].x)
            if v.key == me.key:
                ck.bad('hash not determined by the fields', cls, where(fn, fn.node), 'the hash depends on the identity of the object, which differs between equal strings')
            st.extend(v.args)
            if v.op == 'new':
                for x in I.objinit.get(v.uid) or []:
                    st.extend(x if isinstance(x, tuple) else [x])
                for e in I.byobj.get(v.uid, ()):
                    st.extend(e.args[1:])
    eqfields = {f for f in forced if f[0] not in '?~' and f != 'len'}
    for f in sorted(used):
        if f in eqfields and f not in fields:
            ck.ok('hash dependencies', f)
            continue
        if f in eqfields and f in ('orbital_operators', 'orbital_labels', 'op_type', 'prefactor'):
            ck.ok('hash dependencies', f)
            printed(ck, fn, fields.get(f, []), f) if f == 'name' else None
            continue
        if f not in fields:
            ck.unsure('hash field not found', f)
            continue
        for r, e in fields[f]:
            I = r.I
            S = Slicer(I)
            uids, keys = S.close(e.args[1:])
            for p in init.params()[1:]:
                if I.params[p].key in keys and p not in eqfields:
                    ck.bad('hash depends on more than equality', '%s %s' % (cls, p), where(init, e.node), 'the hash depends on %s through %s, but equality does not compare it' % (p, f))
            if f in text:
                printed(ck, init, I, e.args[1], f, e, e.guards)
            ck.ok('hash dependencies', '%s: built from %s' % (f, ', '.join(p for p in init.params()[1:] if I.params[p].key in keys)))
            normal(ck, init, r, e, f, uids)


def normal(ck, init, r, e, f, uids):
    """numbers printed into the name are in one normal form"""
    I = r.I
    allv = {}
    st = list(e.args[1:])
    seen = set()
    while st:
        v = st.pop()
        if v.uid in seen:
            continue
        seen.add(v.uid)
        if v.op in ('call', 'mcall') and v.x[0] in ('builtins.str', 'builtins.repr', 'builtins.format', 'format') or v.op == 'bin' and v.x == 'Mod' and v.args[0].op == 'const' and isinstance(v.args[0].x, str):
            for a in (v.args if v.op != 'bin' and v.x[0] != 'format' else v.args[1:]):
                printed(ck, init, I, a, f, e)
        st.extend(v.args)
        st.extend(v.back)
        if v.op == 'new':
            for x in I.objinit.get(v.uid) or []:
                st.extend(x if isinstance(x, tuple) else [x])
            for ev in I.byobj.get(v.uid, ()):
                st.extend(ev.args[1:])


NORMAL = {'builtins.complex', 'builtins.int', 'builtins.float', 'numpy.array', 'builtins.str', 'numpy.str_', 'numpy.complex128', 'builtins.bool'}


def printed(ck, init, I, v, f, e, guards=(), depth=0):
    """v is printed: does a raw number of the caller reach it?"""
    if depth > 20:
        return
    if v.op == 'join':
        for a, g in zip(v.args, v.x):
            printed(ck, init, I, a, f, e, tuple(guards) + tuple(g), depth + 1)
        return
    if v.op == 'mu':
        for a in list(v.args) + list(v.back):
            printed(ck, init, I, a, f, e, guards, depth + 1)
        return
    if v.op == 'tuple':
        for a in v.args:
            printed(ck, init, I, a, f, e, guards, depth + 1)
        return
    if v.op in ('narrow', 'elem', 'item'):
        printed(ck, init, I, v.args[0], f, e, guards, depth + 1)
        return
    if v.op == 'call' and v.x[0] in NORMAL:
        if v.x[0] == 'numpy.array' and len(v.args) == 1:
            printed(ck, init, I, v.args[0], f, e, guards, depth + 1)
        return
    if v.op == 'param':
        p = v.x[1]
        if p in ('prefactor', 'orbital_labels'):
            vals = {complex(c.args[1].x) for c, t in flat(guards) if c.op == 'cmp' and c.x == 'Eq' and not t and c.args[0].key == v.key
                    and c.args[1].op == 'const' and isinstance(c.args[1].x, (int, float, complex))}
            if p == 'prefactor' and {1 + 0j, 1j} <= vals:
                ck.ok('printed numbers normalised')
                return
            ck.bad('printed number not normalised', 'operatorstring.OperatorString %s' % p, where(init, e.node),
                   'the %s, on which the hash depends, contains %s as the caller wrote it: equal values (1, 1.0, 1+0j) print differently, so equal strings get different hashes' % (f, p))
