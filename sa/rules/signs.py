"""Rules about the helpers that compute the sign of a permutation (used by C16, C17 and C18)."""
from ..paths import Path, assignments, atoms, flat
from ..summary import NONE, Unknown, bare, evaluate, holds
from ..values import is_const, show


def where(fn, node):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(node, 'lineno', 0), fn.qual)


def sort_sign_rule(ck):
    fn = ck.need('tools.sort_sign')
    from ..values import const
    r = ck.ctx.run_one(fn, {}, 0, args={'method': const('insertionsort')}, opaque={'tools.sign'})
    I = r.I
    whiles = [L for L in I.loops.values() if L.kind == 'while']
    if not whiles:
        ck.unsure('sort_sign', 'no insertion loop')
        return
    L = whiles[0]
    n = len(L.guards)
    stores = [e for e in I.trace if e.kind == 'store_item' and L in e.loops]
    counters = [m for m in L.mus.values() if any(uses(v, m, I, L) for v, g, _, s in I.returns)]
    if stores and not counters:
        outer = [x for x in I.loops.values() if x.kind in ('for', 'while') and x is not L and any(x in e.loops for e in stores)]
        got = [m for x in outer for m in x.mus.values() if any(uses(v, m, I, x) for v, g, _, s in I.returns)]
        from .c21 import linear
        fixed = [x for x in outer for m in x.mus.values() if m in got and x.ends and all(linear(s.env.get(m.x[1], m), m) is not None for s in x.ends)]
        if got and len(fixed) == len(got):
            ck.bad('exchanges miscounted', 'tools.sort_sign', where(fn, L.node), 'the loop that exchanges neighbours does not change the count %s that decides the sign' % ', '.join(sorted({m.x[1] for m in got})))
            return
    if not stores or len(counters) != 1:
        ck.unsure('sort_sign', '%d stores, %d counters' % (len(stores), len(counters)))
        return
    m = counters[0]
    # every swap moves two neighbours and is counted once
    from .c21 import linear
    conds = {}
    for e in stores:
        atoms(e.guards[n:], conds)
    for s in L.ends:
        atoms(s.guards[n:], conds)
        st = [s.env.get(m.x[1], m)]
        while st:
            x = st.pop()
            if x.op == 'join':
                for g in x.x:
                    atoms(g, conds)
                st.extend(x.args)
    ps = assignments(conds, {})
    if ps is None:
        ck.unsure('sort_sign', 'too many conditions')
        return
    for P in ps:
        k = [P.holds(e.guards[n:]) for e in stores]
        if None in k:
            ck.unsure('sort_sign', 'conditions')
            return
        for s in L.ends:
            if P.holds(s.guards[n:]) is not True:
                continue
            d = linear(P.value(s.env.get(m.x[1], m)), m)
            if d is None:
                ck.unsure('sort_sign', 'counter')
                return
            moved = sum(k)
            if moved not in (0, 2):
                ck.unsure('sort_sign', '%d stores in a pass' % moved)
                return
            if (d % 2 == 1) != (moved == 2):
                ck.bad('exchanges miscounted', 'tools.sort_sign', where(fn, L.node), 'a pass of the insertion sort that %s changes the number of exchanges by %d' % ('exchanges two neighbours' if moved else 'exchanges nothing', d))
                return
    ck.ok('sign of sorting', 'every exchange of neighbours is counted once')
    # result: minus one exactly for odd counts
    for c in range(4):
        def leaf(v):
            if v.op == 'mu' and (v.uid == m.uid or v.x[1] == m.x[1]):
                return c
            return NONE
        out = set()
        try:
            for v, g, node, s in I.returns:
                if I.isdead(s):
                    continue
                if holds(g, leaf):
                    t = v
                    if t.op == 'join':
                        from ..summary import choose
                        t = choose(t, leaf)
                    if t.op != 'tuple' or len(t.args) != 2:
                        raise Unknown('result')
                    out.add(evaluate(t.args[1], leaf))
        except Unknown as u:
            ck.unsure('sort_sign', 'result: %s' % u)
            return
        if out != {(-1) ** c}:
            ck.bad('wrong sign of sorting', 'tools.sort_sign', where(fn, fn.node), 'after %d exchanges the sign returned is %s' % (c, sorted(out)))
            return
    ck.ok('sign of sorting', 'the sign is the parity of the number of exchanges')


def uses(v, m, I, L):
    st, seen = [v], set()
    for g in ():
        pass
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'mu' and x.x[1] == m.x[1]:
            return True
        if x.op == 'join':
            for g in x.x:
                for c, p in g:
                    st.append(c)
        st.extend(x.args)
    for vv, g, _, s in I.returns:
        for c, p in g:
            st.append(c)
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'mu' and x.x[1] == m.x[1]:
            return True
        st.extend(x.args)
    return False
