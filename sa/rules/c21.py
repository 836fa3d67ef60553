"""C21: loops that run until a condition is met, examined path by path through their body."""
from ..interp import MUTATORS
from ..paths import assignments, atoms, flat, norm
from ..values import V, is_const, show

RULE = ('For every while loop and every feasible path through its body back to the test: some quantity of the test (or a bounded retry counter of the path) must have a new value, in '
        'the direction that can end the loop, or a container of the test must have been changed in that direction. Work-lists that grow inside the loop must be guarded by a condition '
        'on something that the loop itself remembers; the test must not compare one object with itself; a set that is closed under an operation must keep its elements and add only what it does not hold yet; '
        'for loops must not extend the list they iterate over unconditionally; a function must not call itself unconditionally.')
ASSUME = ['conditions that are not syntactically related are independent (a path is feasible unless its conditions contradict one another)',
          'reals have no NaN (a <= b is the negation of b < a)']

GROW = {'append', 'extend', 'add', 'insert', 'update', 'appendleft'}
OBJ = ('new', 'param', 'call', 'inst', 'mu', 'attr', 'item', 'mcall')
SHRINK = {'pop', 'remove', 'clear', 'popleft', 'discard', 'popitem'}


def where(fn, node):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(node, 'lineno', 0), fn.qual)


def cone(v, stop=()):
    seen, out, st = set(), [], [v]
    while st:
        w = st.pop()
        if w.uid in seen:
            continue
        seen.add(w.uid)
        out.append(w)
        if w.uid in stop:
            continue
        st.extend(w.args)
    return out


def linear(v, mu):
    """v = mu + d with d constant: d; v = mu + d with d > 0 or < 0 unknown: None"""
    if v.key == mu.key:
        return 0
    if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub'):
        a, b = v.args[:2]
        da = linear(a, mu)
        if da is not None and b.op == 'const' and isinstance(b.x, (int, float)):
            return da + (b.x if v.x == 'Add' else -b.x)
        if v.x == 'Add' and a.op == 'const' and isinstance(a.x, (int, float)):
            db = linear(b, mu)
            return None if db is None else db + a.x
    return None


def lenarg(v):
    return v.args[0] if v.op == 'call' and v.x[0] == 'builtins.len' and v.args else None


def run(ck):
    ctx = ck.ctx
    done = set()
    for r in ctx.entries():
        I = r.I
        for e in I.trace:
            if e.kind == 'icall' and e.x[0] == r.fn.qual and not e.guards and not e.loops and not e.stack[1:] and e.fn is r.fn:
                ck.bad('unconditional recursion', r.fn.qual, where(e.fn, e.node), '%s calls itself unconditionally' % r.fn.qual)
        for L in I.loops.values():
            if not (L.fn is r.fn or ctx.prog.helper(L.fn) or L.fn.qual.startswith(r.fn.qual + '.') or id(L.fn.node) not in {id(f.node) for f in ctx.prog.functions()} and L.fn.module is r.fn.module):
                continue
            k = (r.name, id(L.node), L.id)
            if k in done:
                continue
            done.add(k)
            if L.kind == 'while':
                whileloop(ck, r, L)
            elif L.kind == 'for':
                forloop(ck, r, L)
    ck.floor('loop paths making progress', 12)
    ck.floor('for loops', 60)


def inloop(I, L):
    return [e for e in I.trace if L in e.loops]


def forloop(ck, r, L):
    I = r.I
    if L.iter is None:
        return
    rs = I.roots(L.iter)
    if len(rs) != 1 or L.iter.op not in ('new', 'narrow', 'param', 'mu', 'attr', 'call'):
        ck.ok('for loops')
        return
    root = rs[0]
    if L.iter.op == 'call' and L.iter.x[0] not in ('builtins.iter',):
        ck.ok('for loops')
        return
    n = len(L.guards)
    for e in inloop(I, L):
        if e.kind == 'method' and e.x in ('append', 'extend', 'insert') and e.loops and e.loops[-1] is L and not L.brk:
            t = I.roots(e.args[0])
            if len(t) == 1 and t[0].key == root.key and e.args[0].op not in ('item', 'elem', 'attr') and not e.guards[n:]:
                ck.bad('list extended while iterated', '%s %s' % (L.fn.qual, show(root, 2).split('#')[0]), where(e.fn, e.node),
                       'the list a for loop runs over is extended on every pass, so the loop never ends')
                return
    ck.ok('for loops')


def whileloop(ck, r, L):
    I = r.I
    name = '%s %s' % (L.fn.qual, 'while')
    w = where(L.fn, L.node)
    n = len(L.guards)
    known = {}
    for c, p in flat(L.guards):
        known[c.key] = p
    evs = inloop(I, L)
    leave = [s.guards[n:] for s in L.brk] + [e.guards[n:] for e in evs if e.kind in ('raise', 'return') and e.fn is L.fn]
    tests = []
    if L.test.op != 'const':
        tests += flat([(L.test, True)])
    # the loop also ends where it is left: the negations of those conditions are what it waits for
    for g in leave:
        for c, p in flat(g):
            if L.test.op == 'const' and c.key != L.test.key:
                tests.append((c, not p))
    mus = {m.uid: m for m in L.mus.values()}
    cones = [(c, p, cone(c)) for c, p in tests]
    tvars = {}
    conts = {}
    for c, p, cn in cones:
        for v in cn:
            if v.uid in mus:
                tvars[v.uid] = v
            if v.op in OBJ:
                for t in I.roots(v):
                    if t.op not in ('const', 'bin', 'cmp', 'un'):
                        conts.setdefault(t.key, t)
    changes = []
    for e in evs:
        if e.kind == 'aug_name' and e.args[0].uid in tvars:
            continue
        if e.kind == 'method' and e.x in MUTATORS or e.kind in ('store_item', 'aug_item', 'del_item', 'aug_name', 'store_attr'):
            for t in I.roots(e.args[0]):
                if t.key in conts:
                    changes.append((e, t))
    # direction of containers
    useful = []
    for e, t in changes:
        if useful_change(I, e, t, cones):
            useful.append(e)
    # container held in a loop variable: same object before and after
    vals = {(id(s), u): s.env.get(m.x[1], m) for s in L.ends for u, m in tvars.items()}
    for s in L.ends:
        forced = dict(known)
        for c, p in flat(s.guards[n:]) + (flat([(L.test, True)]) if L.test.op != 'const' else []):
            if c.op != 'bool':
                forced[c.key] = p
        for stage in range(3):
            conds = {k: c for k, c in collect(L, s, leave, useful, vals, mus, n, stage).items() if k not in known}
            paths = assignments(conds, forced)
            if paths is not None:
                break
        if paths is None or stage:
            ck.unsure('conditions not opened', w)
        for P in paths or ():
            if P.holds(s.guards[n:]) is False or any(P.holds(g) is True for g in leave if g):
                continue
            sure = P.holds(s.guards[n:]) is True
            verdict, why = progress(ck, I, L, P, s, n, tvars, vals, mus, cones, useful)
            if verdict is True:
                ck.ok('loop paths making progress', '%s: %s' % (name, why))
            elif verdict is None or not sure:
                ck.unsure('path not decided', '%s: %s' % (w, why))
            else:
                ck.bad('no progress', name, w, 'a path through the body of the loop at %s returns to the test (%s) %s' % (w, show(L.test, 4), why),
                       ['%s is %s' % (show(conds[k], 5), t) for k, t in P.asg.items() if k in conds][:12])
    growth(ck, I, L, evs, n, name, w, mus, cones)
    degenerate(ck, I, L, name, w)
    closure(ck, I, L, name, w)
    cutoff(ck, I, L, evs, n, name, w, mus, leave)


def cutoff(ck, I, L, evs, n, name, w, mus, leave):
    """a loop that works until a collection stops growing must not stop at a fixed size or number of passes"""
    sizes = [x for c in cone(L.test) for x in [lenarg(c)] if x is not None]
    if not sizes and not (L.test.op in OBJ and L.test.uid in mus):
        return
    cont = {m.uid for m in mus.values()}
    grown = set()
    for e in evs:
        if e.kind == 'method' and e.x in GROW or e.kind == 'icall' and e.x[0].endswith('.__iadd__') or e.kind == 'aug_name':
            if e.args:
                grown |= {t.key for t in I.roots(e.args[0])} | {e.args[0].key}
    def grows(x):
        if x.key in grown or any(t.key in grown for t in I.roots(x)):
            return True
        return any(m.key == x.key and any(s.env.get(m.x[1], m).key != m.key for s in L.ends) for m in mus.values())
    sizes = [x for x in sizes if grows(x)]
    if not sizes:
        return
    keys = {x.key for x in sizes} | {t.key for x in sizes for t in I.roots(x)}
    counters = {m.uid for m in mus.values() if m.key not in keys}

    # a loop over the positions of a growing list is not left in the middle
    t = L.test
    if t.op == 'cmp' and t.x in ('Lt', 'Gt') and len(t.args) == 2:
        i, z = t.args if t.x == 'Lt' else t.args[::-1]
        if i.uid in counters and lenarg(z) is not None and any(lenarg(z).key == x.key for x in sizes) and all(linear(s.env.get(i.x[1], i), i) in (0, 1) for s in L.ends):
            for s in L.brk:
                g = [(c, p) for c, p in flat(s.guards[n:]) if c.key != t.key]
                if not g or any(x.key == i.key for c, p in g for x in cone(c)):
                    ck.bad('closure cut off', name, w, 'the loop runs over the positions of %s, which grows, but it is left in the middle%s, so the remaining positions are not treated'
                           % (show(sizes[0], 2).split('#')[0], ' when %s%s' % ('' if g[-1][1] else 'not ', show(g[-1][0], 4)) if g else ''))
                    return

    def own(v):
        """the size of the growing collection, or a counter of the loop"""
        x = lenarg(v)
        if x is not None:
            return x.key in keys or any(t.key in keys for t in I.roots(x))
        return any(linear(v, m) is not None for m in mus.values() if m.uid in counters)

    def fixed(v):
        return not any(x.op in ('mu', 'elem', 'idx', 'join', 'unknown') or x.key in keys for x in cone(v)) and not any(e.kind == 'store_item' for e in ())

    conds = [(c, p) for c, p in flat([(L.test, False)])] if L.test.op == 'bool' and L.test.x in ('and', 'And') else []
    if L.test.op == 'bool':
        conds = [(c, not p) for c, p in flat([(L.test, True)])]
    for g in leave_quiet(L, evs, n) + [[x] for x in conds]:
        for c, p in flat(g):
            if c.op == 'cmp' and c.x in ('Lt', 'LtE', 'Eq', 'Gt', 'GtE') and len(c.args) == 2:
                a, b = c.args
                for u, v in ((a, b), (b, a)):
                    if own(u) and fixed(v) and not (v.op == 'const' and v.x in (0, 1)):
                        ck.bad('closure cut off', name, w, 'the loop works until %s stops growing, but it also stops when %s%s, so what it builds may be incomplete' % (show(sizes[0], 2).split('#')[0], '' if p else 'not ', show(c, 3)))
                        return
    ck.ok('closing loops that run to the end', name)


def leave_quiet(L, evs, n):
    """the conditions under which the loop is left without an error"""
    return [s.guards[n:] for s in L.brk] + [e.guards[n:] for e in evs if e.kind == 'return' and e.fn is L.fn]


def collect(L, s, leave, useful, vals, mus, n, stage):
    """elementary conditions that split the paths to this end of the body; later stages leave more of them out"""
    conds = {}
    if L.test.op != 'const':
        atoms([(L.test, True)], conds)
    atoms(s.guards[n:], conds)
    if stage < 2:
        for g in leave:
            atoms(g, conds)
    if stage < 1:
        for e in useful:
            atoms(e.guards[n:], conds)
    for (sid, u), v in vals.items():
        if sid != id(s):
            continue
        st, seen = [v], set()
        while st:
            x = st.pop()
            if x.uid in seen or x.uid in mus:
                continue
            seen.add(x.uid)
            if x.op == 'join':
                for g in x.x:
                    atoms(g, conds)
            if x.op in ('join', 'bin', 'aug', 'narrow'):
                st.extend(x.args)
    return conds


def useful_change(I, e, t, cones):
    """can this change of container t make a condition of the test false?"""
    kind = e.x if e.kind == 'method' else {'del_item': 'pop'}.get(e.kind, 'other')
    if kind not in GROW and kind not in SHRINK:
        if e.kind == 'store_item' or e.kind == 'aug_item' or e.kind == 'method' and kind in ('sort', 'fill', 'reverse'):
            # does not change a length
            for c, p, cn in cones:
                stop = {x.uid for x in cn if lenarg(x) is not None}
                if any(x.uid not in stop and x.op in OBJ and any(q.key == t.key for q in I.roots(x)) for x in cone(c, stop)):
                    return True
            return False
        return True
    ok = False
    for c, p, cn in cones:
        if not any(x.op in OBJ and any(q.key == t.key for q in I.roots(x)) for x in cn):
            continue
        d = None
        if c.op == 'cmp' and c.x == 'In':
            if any(q.key == t.key for q in I.roots(c.args[1])):
                d = 'shrink' if p else 'grow'
        elif c.op == 'cmp' and c.x == 'Lt':
            a, b = lenarg(c.args[0]), lenarg(c.args[1])
            # len(t) > x holds: shrinking ends it; len(t) < x holds: growing ends it
            if b is not None and any(q.key == t.key for q in I.roots(b)):
                d = 'shrink' if p else 'grow'
            elif a is not None and any(q.key == t.key for q in I.roots(a)):
                d = 'grow' if p else 'shrink'
        elif lenarg(c) is not None or c.op in ('new', 'mu', 'param', 'call') and any(q.key == t.key for q in I.roots(c)):
            d = 'shrink' if p else 'grow'
        if d is None or (d == 'grow') == (kind in GROW):
            ok = True
    return ok


def progress(ck, I, L, P, s, n, tvars, vals, mus, cones, useful):
    undecided = False
    for u, m in tvars.items():
        v = P.value(vals[id(s), u])
        if v.key == m.key:
            continue
        if any(x.key == m.key for x in leaves(v)):
            undecided = True
            continue
        d = linear(v, m)
        if d == 0:
            continue
        if d is None:
            if v.op == 'mu' and v.x[0] != L.id:
                # changed by an inner loop that may not run
                IL = I.loops.get(v.x[0])
                if IL is None or IL.kind != 'for' or v.args[0].key != m.key or any(x.uid in mus for x in cone(IL.iter)):
                    undecided = True
                continue
            return True, '%s is replaced' % m.x[1]
        # direction
        wrong = True
        for c, p, cn in cones:
            if all(x.uid != u for x in cn):
                continue
            side = None
            if c.op == 'cmp' and c.x == 'Lt':
                if linear(c.args[0], m) is not None:
                    side = 1 if p else -1
                elif linear(c.args[1], m) is not None:
                    side = -1 if p else 1
            if side is None or side * d > 0:
                wrong = False
        if not wrong:
            return True, '%s changes by %s' % (m.x[1], d)
    for e in useful:
        h = P.holds(e.guards[n:])
        if h is not True:
            if h is None:
                undecided = True
            continue
        if e.loops[-1] is not L:
            undecided = True
            continue
        return True, '%s %s' % (show(e.args[0], 2), e.x if e.kind == 'method' else 'is changed')
    # a bounded retry counter of this path
    for c, p in flat(s.guards[n:]):
        for x, sd in ((c.args[0], 1), (c.args[1], -1)) if c.op == 'cmp' and c.x == 'Lt' else ():
            for nm, m in L.mus.items():
                if m.key == x.key:
                    d = linear(P.value(s.env.get(nm, m)), m)
                    if d is not None and d != 0 and (d > 0) == ((sd > 0) == p):
                        return True, '%s counts towards %s' % (nm, show(c, 3))
    if undecided:
        return None, 'change depends on an inner loop or an unresolved condition'
    return False, 'with none of its quantities changed towards the exit'


def leaves(v):
    out, st, seen = [], [v], set()
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'join':
            st.extend(x.args)
        else:
            out.append(x)
    return out


def growth(ck, I, L, evs, n, name, w, mus, cones):
    """a container whose length bounds the loop and which the loop extends"""
    bound = {}
    for c, p, cn in cones:
        x = None
        if c.op == 'cmp' and c.x == 'Lt':
            x = lenarg(c.args[1]) if p else lenarg(c.args[0])
        elif p and c.op in ('new', 'mu', 'call', 'param'):
            x = c
        elif p and lenarg(c) is not None:
            x = lenarg(c)
        if x is not None:
            for t in I.roots(x):
                bound[t.key] = t
    if not bound:
        return
    tvars = {x.uid for c, p, cn in cones for x in cn if x.uid in mus}
    grows, shrinks = set(), set()
    for e in evs:
        if e.kind == 'method' and e.x in GROW or e.kind in ('aug_name', 'store_item'):
            grows |= {t.key for t in I.roots(e.args[0])}
        if e.kind == 'method' and e.x in SHRINK or e.kind == 'del_item':
            shrinks |= {t.key for t in I.roots(e.args[0])}
    testkeys = {c.key for c, p, cn in cones}
    for e in evs:
        if not (e.kind == 'method' and e.x in ('append', 'extend', 'insert', 'add', 'appendleft') or e.kind == 'aug_name'):
            continue
        ts = [t for t in I.roots(e.args[0]) if t.key in bound]
        if not ts or e.args[0].op in ('item', 'elem'):
            continue
        inner = {l.test.key for l in e.loops if l.kind == 'while' and l.test is not None}
        gs = [(c, p) for c, p in flat(e.guards[n:]) if c.key not in testkeys and c.key not in inner and c.op != 'zeroiter']
        memory = False
        for c, p in gs:
            if c.op == 'cmp' and c.x == 'In':
                cs = {t.key for t in I.roots(c.args[1])}
                if not p and cs & grows and not (cs & shrinks):
                    memory = True
                continue
            for x in cone(c):
                if x.op == 'mu' and x.uid not in tvars or x.op == 'join' or any(t.key in grows for t in I.roots(x)):
                    memory = True
        if memory:
            ck.ok('growth of a work-list guarded', '%s: %s' % (name, show(e.args[0], 2)))
        else:
            ck.bad('unbounded growth', '%s %s' % (name, e.x if e.kind == 'method' else '+='), where(e.fn, e.node),
                   'the loop at %s runs over a list that it extends here without a condition that remembers what was already added' % w)


def degenerate(ck, I, L, name, w):
    """the test, evaluated after any pass, compares an object with itself"""
    t = L.test
    c, p = norm(t, True)
    if c.op != 'cmp' or not L.ends:
        return
    mus = {m.uid: m for m in L.mus.values()}

    def after(v, s, d=0):
        if v.uid in mus:
            return s.env.get(v.x[1], v)
        if v.args and d < 6 and v.op in ('call', 'mcall', 'bin', 'attr', 'item'):
            a = [after(x, s, d + 1) for x in v.args]
            if all(x is y for x, y in zip(a, v.args)):
                return v
            return V(v.op, a, v.x, v.node)
        return v
    same = True
    for s in L.ends:
        a, b = after(c.args[0], s), after(c.args[1], s)
        if a.key != b.key or any(x.op in ('unknown', 'undef') for x in cone(a)):
            same = False
    if same and (c.x, p) in (('Eq', False), ('Lt', True)):
        ck.bad('test compares a value with itself', name, w, 'after every pass the test %s of the loop compares one and the same object with itself, so the loop stops whether or not its condition is reached' % show(t, 4))
    else:
        ck.ok('loop tests compare different quantities')


def closure(ck, I, L, name, w):
    """while len(new) != len(old): the new collection must contain the old one"""
    c, p = norm(L.test, True)
    if c.op != 'cmp' or c.x != 'Eq' or p:
        return
    a, b = lenarg(c.args[0]), lenarg(c.args[1])
    mus = {m.uid: m for m in L.mus.values()}
    if a is None or b is None or a.uid not in mus and b.uid not in mus:
        return
    for s in L.ends:
        ends = {m.x[1]: s.env.get(m.x[1], m) for m in (a, b) if m.uid in mus}
        cur = [v for n, v in ends.items() if v.uid not in (a.uid, b.uid)]
        old = [v for n, v in ends.items() if v.uid in (a.uid, b.uid)]
        if len(cur) != 1 or not old:
            continue
        keep = contains(I, cur[0], {x.uid for x in old}, 0, set())
        if keep is False:
            ck.bad('closure loses elements', name, w, 'the loop closes a set under an operation, but the new set does not keep the elements of the previous one, so it may stop before it is closed')
        elif keep and always_grows(I, L, cur[0], {x.uid for x in old}):
            ck.bad('closure never complete', name, w, 'the loop closes a set under an operation until nothing new appears, but it adds what it computes whether or not it is already there, so the set never stops growing')
        elif keep:
            ck.ok('closures that keep their elements', name)
        else:
            ck.unsure('closure', w)


def always_grows(I, L, v, old, d=0):
    """v has the elements of an old collection and, on every pass, more of them than it had"""
    if d > 12:
        return False
    if v.op == 'narrow' or v.op == 'call' and v.x[0] in ('builtins.list', 'copy.copy', 'copy.deepcopy', 'builtins.tuple') and len(v.args) == 1:
        return always_grows(I, L, v.args[0], old, d + 1)
    if v.op == 'join':
        return bool(v.args) and all(always_grows(I, L, x, old, d + 1) for x in v.args)
    if v.op in ('bin', 'aug') and v.x == 'Add':
        for a, b in (v.args[:2], v.args[:2][::-1]):
            if contains(I, a, old, 0, set()) is True and (unguarded(I, L, b) or always_grows(I, L, a, old, d + 1)):
                return True
        return False
    return v.op == 'new' and v.uid not in old and unguarded(I, L, v, old)


def unguarded(I, L, v, old=()):
    """a list that receives an element on every pass, without any condition"""
    if v.op == 'narrow':
        return unguarded(I, L, v.args[0], old)
    if v.op != 'new' or v.x not in ('list', None) and v.x != 'list':
        return False
    n = len(L.guards)
    test = {c.key for c, p in flat([(L.test, True)])}
    adds = [e for e in I.byobj.get(v.uid, ()) if e.kind == 'method' and e.x in ('append', 'extend', 'insert') and L in e.loops]
    if any(e.kind == 'method' and e.x in SHRINK or e.kind == 'del_item' for e in I.byobj.get(v.uid, ())):
        return False
    for e in adds:
        gs = [c for c, p in flat(e.guards[n:]) if c.op != 'zeroiter' and c.key not in test]
        if not gs and not (old and len(e.args) > 1 and elemof(I, e.args[1], old, 0, set()) is not False):
            return True
    return False


def contains(I, v, old, d, seen):
    """does collection v contain the elements of one of the collections old?"""
    if v.uid in old:
        return True
    if v.uid in seen or d > 25:
        return None
    seen.add(v.uid)
    if v.op == 'narrow':
        return contains(I, v.args[0], old, d + 1, seen)
    if v.op == 'join':
        rs = [contains(I, x, old, d + 1, seen) for x in v.args]
        return True if all(x is True for x in rs) else False if any(x is False for x in rs) else None
    if v.op == 'bin' and v.x == 'Add':
        rs = [contains(I, x, old, d + 1, seen) for x in v.args]
        return True if True in rs else False if all(x is False for x in rs) else None
    if v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.set', 'builtins.sorted', 'copy.copy', 'copy.deepcopy', 'builtins.tuple'):
        return contains(I, v.args[0], old, d + 1, seen) if v.args else False
    if v.op == 'new':
        cs = list(I.objinit.get(v.uid) or [])
        evs = [e for e in I.byobj.get(v.uid, ()) if e.kind == 'method' and e.x in GROW or e.kind in ('aug_name', 'store_item')]
        for e in evs:
            cs += [x for x in e.args[1:]]
        if not cs:
            return None
        rs = []
        for x in cs:
            if isinstance(x, tuple):
                return None
            rs.append(elemof(I, x, old, d + 1, seen))
        return True if True in rs else None if None in rs else False
    return None


def elemof(I, x, old, d, seen):
    """is x an element drawn from a collection that contains old?"""
    if x.op in ('elem', 'star'):
        return contains(I, x.args[0], old, d, seen)
    if x.op == 'item':
        return contains(I, x.args[0], old, d, seen)
    if x.op == 'narrow':
        return elemof(I, x.args[0], old, d, seen)
    if x.op in ('call', 'mcall', 'bin', 'inst', 'const'):
        if x.op == 'call' and x.x[0] in ('copy.copy', 'copy.deepcopy', 'numpy.array', 'numpy.copy'):
            return elemof(I, x.args[0], old, d, seen) if x.args else None
        return False
    if x.op in ('join', 'mu'):
        rs = [elemof(I, y, old, d, seen) for y in x.args]
        return True if True in rs else None if None in rs or not rs else False
    return None
