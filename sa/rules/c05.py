"""C05: the list of strings and the index dictionary of Basis, followed through its constructor and methods and through everything that writes to them."""
from ..interp import MUTATORS
from ..paths import Path, assignments, atoms, flat, norm
from ..values import V, is_const, show

RULE = ('Constructor: every stored index is the position of its own string over the full range, and some raise is reached exactly when the dictionary is shorter than the list. '
        'In-place addition: every append to the list is paired, under the same conditions, with a store of the same string in the dictionary at the length of the list before the append, guarded by '
        'non-membership. Lookups read those two containers. Nothing outside Basis writes to them, and no list is extended after a Basis was built on it.')
ASSUME = ['Basis objects are not modified by code outside the package', 'a string occurs in the dictionary exactly when it is in the list (inductive invariant, established by these rules)']


def where(fn, node):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(node, 'lineno', 0), fn.qual)


def strip(v):
    while v.op == 'narrow' or v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'copy.copy') and len(v.args) == 1:
        v = v.args[0]
    return v


def same(v):
    while v.op == 'narrow':
        v = v.args[0]
    return v


def isown(v, me, names):
    """the container itself, not a copy of it"""
    v = same(v)
    return v.op == 'attr' and v.x in names and same(v.args[0]).key == me.key


def isattr(v, me, names):
    v = strip(v)
    return v.op == 'attr' and v.x in names and strip(v.args[0]).key == me.key


def run(ck):
    init(ck)
    iadd(ck)
    add(ck)
    lookups(ck)
    writers(ck)
    ck.floor('index stores', 2)
    ck.floor('lookup methods', 4)
    ck.floor('writers of the containers', 2)


def init(ck):
    fn = ck.need('basis.Basis.__init__')
    for r in ck.ctx.entries(only=lambda f: f is fn):
        I = r.I
        me = I.params[fn.params()[0]]
        lst = [e for e in I.trace if e.kind == 'store_attr' and e.x[0] == 'op_strings']
        dic = [e for e in I.trace if e.kind == 'store_attr' and e.x[0] == '_indices']
        if not lst or not dic:
            ck.bad('constructor', 'basis.Basis.__init__ fields', where(fn, fn.node), 'the constructor does not set both the list of strings and the index dictionary')
            return
        X, D = lst[-1].args[1], dic[-1].args[1]
        xs = {strip(X).key, X.key}

        def isX(v):
            v = strip(v)
            return v.key in xs or isattr(v, me, ('op_strings',)) or v.op == 'param' and v.x[1] == fn.params()[1] or v.op == 'join' and all(isX(a) or a.op == 'new' and not I.byobj.get(a.uid) and not I.objinit.get(a.uid) for a in v.args)
        pairs = entries(I, D)
        if pairs is None or not pairs:
            ck.unsure('index dictionary built in a way not opened', show(D, 3))
        for k, v, e in pairs or ():
            p = position(k, v, isX)
            if p is True:
                ck.ok('index stores', 'constructor: %s at %s' % (show(k, 3), show(v, 3)))
            elif p is None:
                ck.count('index stores')
                ck.unsure('index store not opened', '%s -> %s' % (show(k, 3), show(v, 3)))
            else:
                ck.bad('wrong index', 'basis.Basis.__init__', where(fn, e or fn.node), 'the constructor stores for %s the index %s, %s' % (show(k, 3), show(v, 3), p))
        # duplicates
        ld = [V('call', (x,), ('builtins.len', ())) for x in (D,)]
        raised = dup(I, isX, D, me)
        if raised is True:
            ck.ok('duplicates rejected', 'constructor')
        elif raised is None:
            ck.unsure('duplicate check not opened', '')
        else:
            ck.bad('duplicates accepted', 'basis.Basis.__init__', where(fn, fn.node), 'a list with a repeated string does not make the constructor raise: %s' % raised)


def entries(I, D):
    D = strip(D)
    if D.op == 'new' and D.x == 'dict':
        out = []
        for k, v in I.objinit.get(D.uid) or []:
            if k is None:
                return None
            out.append((k, v, None))
        for e in I.byobj.get(D.uid, ()):
            if e.kind == 'store_item':
                out.append((e.args[1], e.args[2], e.node))
            elif e.kind == 'method' and e.x in MUTATORS or e.kind == 'aug_item':
                return None
        return out
    if D.op == 'call' and D.x[0] == 'builtins.dict' and len(D.args) == 1:
        a = strip(D.args[0])
        if a.op == 'call' and a.x[0] == 'builtins.zip' and len(a.args) == 2:
            return [(V('elem', (a.args[0],), -1), V('elem', (a.args[1],), -1), None)]
    return None


def rng(v):
    """argument of a range/arange"""
    return v.args if v.op == 'call' and v.x[0] in ('builtins.range', 'numpy.arange') else None


def position(k, v, isX):
    """True: v is the position of k in X; None: not opened; text: why it is not"""
    off = 0
    while v.op == 'bin' and v.x in ('Add', 'Sub') and v.args[1].op == 'const' and isinstance(v.args[1].x, int):
        off += v.args[1].x if v.x == 'Add' else -v.args[1].x
        v = v.args[0]
    while v.op == 'call' and v.x[0] in ('builtins.int', 'numpy.int64') and v.args:
        v = v.args[0]
    if k.op == 'narrow':
        k = k.args[0]
    if k.op == 'item' and isX(k.args[0]):
        i = k.args[1]
        full = fullrange(i, isX)
        if i.key == v.key:
            if off:
                return 'shifted by %d' % off
            return full
        if is_const(i) and v.op == 'const':
            return True if i.x == v.x + off else 'not its position'
        if v.op == 'const':
            return 'which is always the same'
        if v.op == 'bin' and v.x in ('Mod', 'FloorDiv', 'Mult'):
            return 'not its position'
        return None
    if k.op == 'elem' and isX(k.args[0]):
        if v.op == 'idx' and k.x == v.x[0]:
            if v.x[1] == 'enum':
                return 'shifted by %d' % off if off else True
            f = fullrange(v, isX)
            return ('shifted by %d' % off if off else True) if f is True else f
        if v.op == 'elem' and k.x == -1 and rng(v.args[0]) is not None:
            f = fullrange(V('idx', rng(v.args[0]), (0, 'range')), isX)
            return ('shifted by %d' % off if off else True) if f is True else f
        if v.op == 'const':
            return 'which is always the same'
        return None
    return None


def fullrange(i, isX):
    """does idx run over 0..len(X)-1? True / None / text"""
    if i.op != 'idx':
        return None
    if i.x[1] == 'enum':
        return True if isX(i.args[0]) else None
    a = i.args
    if len(a) == 1:
        start, stop = None, a[0]
    elif len(a) == 2 or len(a) == 3 and is_const(a[2], 1):
        start, stop = a[0], a[1]
    else:
        return 'over a range with a step' if is_const(a[2]) and a[2].x != 1 else None
    if start is not None and not is_const(start, 0):
        return 'leaving out the first strings' if start.op == 'const' else None
    if stop.op == 'call' and stop.x[0] == 'builtins.len':
        return True if isX(stop.args[0]) else None
    if stop.op == 'bin' and stop.x == 'Sub' and stop.args[0].op == 'call' and stop.args[0].x[0] == 'builtins.len' and stop.args[1].op == 'const':
        return 'leaving out the last strings'
    return None


def dup(I, isX, D, me):
    """is a raise reached when the dictionary is shorter than the list?"""
    raises = [e for e in I.trace if e.kind == 'raise']
    if not raises:
        return 'there is no raise'

    def side(v):
        if v.op == 'call' and v.x[0] == 'builtins.len' and v.args:
            a = strip(v.args[0])
            if a.key == strip(D).key or isattr(a, me, ('_indices',)):
                return 'd'
            if isX(a):
                return 'l'
            if a.op == 'call' and a.x[0] in ('builtins.set', 'builtins.dict', 'builtins.dict.fromkeys') and a.args and isX(a.args[0]):
                return 'd'
        return None
    unknown = False
    for e in raises:
        asg, understood = {}, True
        for k, c in atoms(e.guards).items():
            if c.op == 'cmp' and c.x in ('Eq', 'Lt'):
                s = (side(c.args[0]), side(c.args[1]))
                if s in (('d', 'l'), ('l', 'd')):
                    asg[k] = c.x == 'Lt' and s == ('d', 'l')
                    continue
            if c.op == 'cmp' and c.x == 'In':
                return True if e.loops else None
            understood = False
        h = Path(asg).holds(e.guards)
        if h is True:
            return True
        if h is None or not understood:
            unknown = True
    return None if unknown else 'no raise has a condition that holds then'


def evseq(I, v):
    for e in I.trace:
        if e.val is not None and e.val.uid == v.uid:
            return e
    return None


def iadd(ck):
    fn = ck.need('basis.Basis.__iadd__')
    for r in ck.ctx.entries(only=lambda f: f is fn):
        I = r.I
        me = I.params[fn.params()[0]]
        A = [e for e in I.trace if e.kind == 'method' and e.x == 'append' and isown(e.args[0], me, ('op_strings',))]
        other = [e for e in I.trace if e.kind == 'method' and e.x in MUTATORS and e.x != 'append' and isown(e.args[0], me, ('op_strings',)) or e.kind == 'aug_name' and isown(e.args[0], me, ('op_strings',))
                 or e.kind == 'store_attr' and e.x[0] in ('op_strings', '_indices') and strip(e.args[0]).key == me.key]
        S = [e for e in I.trace if e.kind == 'store_item' and isown(e.args[0], me, ('_indices',))]
        S += [e for e in I.trace if e.kind == 'method' and e.x == 'setdefault' and len(e.args) == 3 and isown(e.args[0], me, ('_indices',))]
        upd = [e for e in I.trace if e.kind == 'method' and e.x in MUTATORS and e.x != 'setdefault' and isown(e.args[0], me, ('_indices',))]
        if not A and not S and not other:
            ck.bad('in-place addition', r.name, where(fn, fn.node), 'adding to a basis in place does not extend it')
            continue
        if other or upd:
            ck.unsure('extended in a way not opened', r.name)
            if other and not upd and not S:
                ck.bad('unpaired update', r.name, where(fn, other[0].node), 'the list of strings is extended but no index is stored')
            ck.count('index stores')
            continue
        for s in S:
            if not any(a.args[1].key == s.args[1].key for a in A):
                ck.bad('unpaired update', r.name, where(s.fn, s.node), 'an index is stored for %s, which is not appended to the list' % show(s.args[1], 3))
        for a in A:
            m = [s for s in S if s.args[1].key == a.args[1].key]
            if not m:
                ck.bad('unpaired update', r.name, where(a.fn, a.node), '%s is appended to the list of strings but no index is stored for it' % show(a.args[1], 3))
                continue
            s = m[0]
            ga = {(c.key, p) for c, p in flat(a.guards)}
            gs = {(c.key, p) for c, p in flat(s.guards)}
            if ga != gs or [l.id for l in a.loops] != [l.id for l in s.loops]:
                ck.bad('unpaired update', r.name, where(s.fn, s.node), 'the append and the index store of %s happen under different conditions' % show(a.args[1], 3))
                continue
            mem = [1 for c, p in flat(a.guards) if c.op == 'cmp' and c.x == 'In' and not p and c.args[0].key == a.args[1].key and isattr(c.args[1], me, ('_indices', 'op_strings'))]
            if not mem:
                if any(a.args[1].key in {x.key for x in walk(c)} for c, p in a.guards):
                    ck.unsure('membership test not opened', r.name)
                else:
                    ck.bad('string added without a membership test', r.name, where(a.fn, a.node), '%s is appended without checking that it is not yet in the basis' % show(a.args[1], 3))
            o = offset(I, s.args[2], a, s, me, 0)
            if o == 0:
                ck.ok('index stores', '%s: %s at %s' % (r.name, show(a.args[1], 3), show(s.args[2], 3)))
            elif o is None:
                ck.count('index stores')
                ck.unsure('index not opened', '%s %s' % (r.name, show(s.args[2], 4)))
            else:
                ck.count('index stores')
                ck.bad('wrong index', r.name, where(s.fn, s.node), 'the index stored for %s is %s, which %s' % (show(a.args[1], 3), show(s.args[2], 4), 'is off by %s' % o if isinstance(o, int) else o))


def walk(v):
    st, seen = [v], set()
    while st:
        w = st.pop()
        if w.uid in seen:
            continue
        seen.add(w.uid)
        yield w
        st.extend(w.args)


def offset(I, v, a, s, me, depth):
    """v minus the position at which the string of append a ends up; text: not constant"""
    if depth > 8:
        return None
    if v.op == 'narrow':
        return offset(I, v.args[0], a, s, me, depth + 1)
    if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub') and v.args[1].op == 'const' and isinstance(v.args[1].x, int):
        o = offset(I, v.args[0], a, s, me, depth + 1)
        if not isinstance(o, int):
            return o
        return o + (v.args[1].x if v.x == 'Add' else -v.args[1].x)
    if v.op == 'call' and v.x[0] == 'builtins.len' and v.args and isattr(v.args[0], me, ('op_strings', '_indices')):
        e = evseq(I, v)
        if e is None:
            return None
        if [l.id for l in e.loops] != [l.id for l in a.loops]:
            return 'was computed before the loop and is not updated' if len(e.loops) < len(a.loops) else None
        ref = a if strip(v.args[0]).x == 'op_strings' else s
        return 0 if e.seq < ref.seq else 1
    if v.op == 'bin' and v.x == 'Add' and a.loops:
        for i, base in (v.args, v.args[::-1]):
            L = a.loops[-1]
            if i.op == 'idx' and i.x[0] == L.id and base.op == 'call' and base.x[0] == 'builtins.len' and base.args and isattr(base.args[0], me, ('op_strings', '_indices')):
                e = evseq(I, base)
                if e is not None and L not in e.loops and any(c.op == 'cmp' and c.x == 'In' for c, p in flat(a.guards[len(L.guards):])):
                    return 'also counts the passes that append nothing'
    if v.op == 'mu':
        L = I.loops.get(v.x[0])
        if L is None or L not in a.loops:
            return None
        # value on entry: computed before the loop
        w, o0 = v.args[0], 0
        while w.op in ('bin', 'aug') and w.x in ('Add', 'Sub') and w.args[1].op == 'const' and isinstance(w.args[1].x, int):
            o0 += w.args[1].x if w.x == 'Add' else -w.args[1].x
            w = w.args[0]
        if not (w.op == 'call' and w.x[0] == 'builtins.len' and w.args and isattr(w.args[0], me, ('op_strings', '_indices'))):
            return None
        n = len(L.guards)
        conds = atoms(a.guards[n:])
        for b in v.back:
            for x in walk(b):
                if x.op == 'join':
                    for g in x.x:
                        atoms(g, conds)
        for e in L.ends:
            atoms(e.guards[n:], conds)
        ps = assignments(conds, {})
        if ps is None:
            return None
        from .c21 import linear
        for P in ps:
            ran = P.holds(a.guards[n:])
            for e in L.ends:
                if P.holds(e.guards[n:]) is not True or ran is None:
                    continue
                d = linear(P.value(e.env.get(v.x[1], v)), v)
                if d is None:
                    return None
                if d != (1 if ran else 0):
                    return 'is advanced by %d on a pass that %s a string' % (d, 'appends' if ran else 'does not append')
        return o0
    if v.op == 'const':
        return 'is always the same'
    return None


def add(ck):
    fn = ck.need('basis.Basis.__add__')
    for r in ck.ctx.entries(only=lambda f: f is fn):
        I = r.I
        me, other = I.params[fn.params()[0]], strip(I.params[fn.params()[1]])
        for e in I.trace:
            if e.kind != 'instantiate' or e.x[0] != 'basis.Basis':
                continue
            d = dict(e.x[1])
            v = d.get('op_strings')
            if v is None:
                continue
            parts = concat(I, v)
            own = [p for p in parts if isattr(p, me, ('op_strings',))]
            for p in parts:
                p = strip(p)
                if p.op == 'join':
                    alts = list(p.args)
                else:
                    alts = [p]
                for q in alts:
                    for c in [x for x in I.byobj.get(q.uid, ()) if x.kind == 'method' and x.x == 'append']:
                        if any(g.op == 'cmp' and g.x == 'In' and not pol and g.args[0].key == c.args[1].key for g, pol in flat(c.guards)):
                            ck.ok('sums filtered by membership', r.name)
                        elif own:
                            if any(c.args[1].key in {x.key for x in walk(g)} for g, pol in c.guards):
                                ck.unsure('filter of a sum not opened', r.name)
                            else:
                                ck.bad('sum not filtered', r.name, where(c.fn, c.node), 'the strings of the second operand are listed again without checking that the first one does not contain them')
                    if own and q.op == 'new' and any(strip(x).key == other.key for x in I.objinit.get(q.uid) or ()):
                        # the second operand itself in a list: only where it is known not to be contained
                        gs = list(e.guards) + (list(p.x[p.args.index(q)]) if p.op == 'join' and p.x and len(p.x) == len(p.args) else [])
                        about = [(g, pol) for g, pol in flat(gs) if any(x.key == other.key for x in walk(g)) and not (g.op == 'call' and g.x[0] in ('builtins.isinstance', 'builtins.type'))]
                        member = [(g, pol) for g, pol in about if g.op == 'cmp' and g.x == 'In' and g.args[0].key == other.key]
                        # a slice of the strings is not all of them
                        parts = [g for g, pol in member if any(x.op == 'item' and x.args[1].op == 'slice' for x in walk(g.args[1]))]
                        ins = [pol for g, pol in member if g not in parts]
                        if False in ins:
                            ck.ok('sums filtered by membership', r.name)
                        elif True in ins or not about or (parts and len(parts) == len(about)):
                            ck.bad('sum not filtered', r.name, where(e.fn, e.node), 'the string that is added is listed again without checking that the first operand does not contain it')
                        else:
                            ck.unsure('filter of a sum not opened', r.name)
                    if own and (isparam(q, fn)):
                        ck.bad('sum not filtered', r.name, where(e.fn, e.node), 'the strings of the second operand are listed without checking that the first one does not contain them')
            if not own:
                ck.unsure('first operand of a sum not found', r.name)


def isparam(q, fn):
    q = strip(q)
    return q.op == 'attr' and q.x == 'op_strings' and strip(q.args[0]).op == 'param' and strip(q.args[0]).x[1] == fn.params()[1]


def concat(I, v):
    v = strip(v)
    if v.op in ('bin', 'aug') and v.x == 'Add':
        return concat(I, v.args[0]) + concat(I, v.args[1])
    return [v]


def lookups(ck):
    spec = {'index': 'position', '__contains__': 'membership', '__getitem__': 'string', '__len__': 'size', '__iter__': 'iteration'}
    for m, what in spec.items():
        fn = ck.need('basis.Basis.' + m)
        for r in ck.ctx.entries(only=lambda f: f is fn):
            I = r.I
            me = I.params[fn.params()[0]]
            arg = I.params[fn.params()[1]] if len(fn.params()) > 1 else None
            for v, g, n, s in I.returns:
                t = lookup(I, m, v, me, arg)
                if t is True:
                    ck.ok('lookup methods', '%s returns %s' % (fn.qual, show(v, 4)))
                elif t is None:
                    ck.count('lookup methods')
                    ck.unsure('lookup not opened', '%s %s' % (fn.qual, show(v, 4)))
                else:
                    ck.count('lookup methods')
                    ck.bad('wrong lookup', fn.qual, where(fn, n), '%s returns %s: %s' % (fn.qual, show(v, 4), t))


def derived(v, arg):
    """v is computed from the string, but is not the string"""
    if v.op == 'attr' or v.op == 'call' and v.x[0] in ('builtins.str', 'builtins.repr', 'builtins.hash', 'builtins.len') or v.op == 'mcall' and v.x[0] in ('__hash__', '__str__'):
        return v.args[0].key == arg.key
    return False


def lookup(I, m, v, me, arg):
    D, X = ('_indices',), ('op_strings',)
    if v.op == 'narrow':
        return lookup(I, m, v.args[0], me, arg)
    if m == 'index':
        if v.op == 'item' and isattr(v.args[0], me, D) and v.args[1].key == arg.key:
            return True
        if v.op == 'mcall' and v.x[0] == 'index' and isattr(v.args[0], me, X) and v.args[1].key == arg.key:
            return True
        if v.op == 'mcall' and v.x[0] == 'get' and isattr(v.args[0], me, D):
            return 'a string that is not listed gets an index too'
        if v.op == 'mcall' and v.x[0] == 'setdefault' and isattr(v.args[0], me, D):
            return 'looking up a string that is not listed adds it to the dictionary'
        if v.op in ('bin', 'un') and any(isattr(x.args[0], me, D) for x in walk(v) if x.op == 'item'):
            return 'the stored index is changed'
        if v.op == 'item' and derived(v.args[1], arg):
            return 'the position is looked up by %s, which different strings can share' % show(v.args[1], 3)
        return None
    if m == '__contains__':
        while v.op == 'call' and v.x[0] == 'builtins.bool' and v.args:
            v = v.args[0]
        c, p = norm(v, True)
        if c.op == 'cmp' and c.x == 'In' and isattr(c.args[1], me, D + X) and c.args[0].key == arg.key:
            return True if p else 'membership is inverted'
        if c.op == 'cmp' and c.x == 'In' and derived(c.args[0], arg):
            return 'membership is decided by %s, which different strings can share' % show(c.args[0], 3)
        if c.op == 'mcall' and c.x[0] == 'get' and isattr(c.args[0], me, D):
            return 'the string at position 0 counts as absent'
        if c.op == 'cmp' and c.x == 'Lt' and is_const(c.args[0], 0) and c.args[1].op == 'mcall' and c.args[1].x[0] == 'get' and p:
            return 'the string at position 0 counts as absent'
        return None
    if m == '__getitem__':
        if v.op == 'item' and isattr(v.args[0], me, X) and v.args[1].key == arg.key:
            return True
        if v.op == 'item' and isattr(v.args[0], me, X) and v.args[1].op in ('bin', 'un'):
            return 'a different position is read'
        return None
    if m == '__len__':
        if v.op == 'call' and v.x[0] == 'builtins.len' and isattr(v.args[0], me, X + D):
            return True
        if v.op == 'bin' and any(x.op == 'call' and x.x[0] == 'builtins.len' and isattr(x.args[0], me, X + D) for x in v.args):
            return 'not the number of strings'
        return None
    if m == '__iter__':
        if v.op == 'call' and v.x[0] == 'builtins.iter':
            w = v.args[0]
            if isattr(w, me, X) or isattr(w, me, D):
                return True
            if w.op == 'call' and w.x[0] in ('builtins.reversed', 'builtins.set', 'builtins.sorted'):
                return 'strings are not listed in the order of their positions'
        if v.op == 'call' and v.x[0] in ('builtins.reversed',):
            return 'strings are not listed in the order of their positions'
        return None


def writers(ck):
    ctx = ck.ctx
    FIELDS = ('op_strings', '_indices')
    seen = set()
    for r in ctx.entries():
        I = r.I
        T = I.T

        def basisattr(v):
            v = same(v)
            return v.op == 'attr' and v.x in FIELDS and getattr(T.repo_class(T.ty(v.args[0])), 'name', None) == 'Basis'
        built = []
        for e in I.trace:
            if e.stack and e.stack[0] == '<module init>':
                continue
            k = None
            if e.kind == 'store_attr' and e.x[0] in FIELDS and getattr(T.repo_class(T.ty(e.args[0])), 'name', None) == 'Basis':
                k = e.x[0]
            elif (e.kind == 'method' and e.x in MUTATORS or e.kind in ('store_item', 'aug_item', 'del_item', 'aug_name')) and e.args and basisattr(e.args[0]):
                k = same(e.args[0]).x
            if k is not None:
                own = inbasis(ctx, e)
                if own:
                    ck.ok('writers of the containers', '%s writes %s' % (own, k))
                else:
                    ck.bad('written from outside', '%s %s' % (e.fn.qual, k), where(e.fn, e.node), '%s changes %s of a basis outside the methods that keep the list and the dictionary in step' % (e.fn.qual, k))
            if e.kind == 'instantiate' and e.x[0] == 'basis.Basis':
                v = dict(e.x[1]).get('op_strings')
                if v is not None:
                    w = v
                    while w.op == 'narrow':
                        w = w.args[0]
                    if w.op == 'new' or w.op == 'call' and w.x[0] in ('builtins.list', 'builtins.sorted', 'copy.copy'):
                        built.append((e, w))
        for e, w in built:
            for c in I.byobj.get(w.uid, ()):
                if (c.kind == 'method' and c.x in MUTATORS or c.kind in ('store_item', 'aug_name', 'del_item')) and c.seq > e.seq and not inbasis(ctx, c):
                    if not compatible(e.guards, c.guards):
                        continue
                    key = (e.fn.qual, id(c.node))
                    ck.bad('list changed after the basis was built', '%s' % c.fn.qual, where(c.fn, c.node), 'a list is changed after a Basis was built on it at %s, so the basis lists strings it has no index for' % where(e.fn, e.node))
                    break
            else:
                ck.ok('lists left alone after a basis was built')


def compatible(a, b):
    ks = {(c.key, p) for c, p in a}
    return not any((c.key, not p) in ks for c, p in b)


def inbasis(ctx, e):
    if e.fn.cls is not None and e.fn.cls.name == 'Basis':
        return e.fn.qual
    nodes = {id(f.node): f for f in ctx.prog.functions()}
    for n, _ in e.stack:
        f = nodes.get(id(n))
        if f is not None and f.cls is not None and f.cls.name == 'Basis':
            return f.qual
    return None
