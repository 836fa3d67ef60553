"""Backward slices over the value-flow graph: which values can influence the
results, effects and errors of an entry point (data and control dependence)."""


class Slicer:
    def __init__(self, I):
        self.I = I
        self.ev_by_root = {}
        self.rets = {}
        for e in I.trace:
            if e.kind == 'return' and e.guards and not (e.stack and e.stack[0] == '<module init>'):
                self.rets.setdefault((e.fn.qual, len(e.stack), e.stack[-1][1] if e.stack else None), []).append(e)
        for e in I.trace:
            if e.kind in ('method', 'store_item', 'aug_item', 'del_item', 'aug_name', 'store_attr', 'del_attr') and e.args:
                for r in self.bases(e.args[0]):
                    self.ev_by_root.setdefault(r.uid, []).append(e)

    def bases(self, v, seen=None):
        """containers a store through v may change (views included)"""
        seen = set() if seen is None else seen
        out = []
        stack = [v]
        while stack:
            w = stack.pop()
            if w.uid in seen:
                continue
            seen.add(w.uid)
            if w.op in ('join', 'mu'):
                stack += list(w.args) + list(w.back)
            elif w.op in ('narrow',):
                stack.append(w.args[0])
            elif w.op in ('item', 'attr', 'elem', 'aug') and w.args:
                out.append(w)
                stack.append(w.args[0])
            else:
                out.append(w)
        return out

    def close(self, vals, guards=(), loops=(), events=()):
        """(set of V uids, set of V keys) reachable backwards"""
        I = self.I
        seen, keys, lseen = set(), set(), set()
        stack = list(vals)

        def addloop(L):
            if L.id in lseen:
                return
            lseen.add(L.id)
            for x in (L.iter, L.test):
                if x is not None:
                    stack.append(x)
            for s in list(L.ends) + list(L.brk):
                for c, p in s.guards[len(L.guards):]:
                    stack.append(c)
            if L.parent is not None:
                addloop(L.parent)

        rseen = set()

        def addev(e):
            stack.extend(e.args)
            stack.extend(c for c, p in e.guards)
            k = (e.fn.qual, len(e.stack), e.stack[-1][1] if e.stack and e.stack[0] != '<module init>' else None)
            for r in self.rets.get(k, ()):
                # an earlier return of the same call decides whether this point is reached
                if r.seq < e.seq and r.seq not in rseen:
                    rseen.add(r.seq)
                    stack.extend(c for c, p in r.guards)
            for L in e.loops:
                addloop(L)

        stack.extend(c for c, p in guards)
        for L in loops:
            addloop(L)
        for e in events:
            addev(e)
        while stack:
            v = stack.pop()
            if v.uid in seen:
                continue
            seen.add(v.uid)
            keys.add(v.key)
            stack.extend(v.args)
            stack.extend(v.back)
            if v.op == 'join':
                for g in v.x:
                    stack.extend(c for c, p in g)
            if v.op == 'mu':
                L = I.loops.get(v.x[0])
                if L is not None:
                    addloop(L)
            if v.op in ('elem', 'idx'):
                lid = v.x if v.op == 'elem' else v.x[0]
                L = I.loops.get(lid)
                if L is not None:
                    addloop(L)
            if v.op == 'new':
                init = I.objinit.get(v.uid) or []
                for w in init:
                    if isinstance(w, tuple):
                        stack.extend(x for x in w if x is not None)
                    else:
                        stack.append(w)
            if v.op in ('new', 'inst', 'call', 'mcall', 'item', 'attr', 'rcall', 'param', 'elem', 'dyn', 'bin'):
                for e in self.ev_by_root.get(v.uid, ()):
                    if e.kind == 'method' and e.x not in MUT and v.op != 'inst':
                        continue
                    addev(e)
            if v.op in ('func', 'cls') and v.x.closure:
                # a nested function: what its free names may be
                import ast
                names = {n.id for n in ast.walk(v.x.node) if isinstance(n, ast.Name)}
                stack.extend(w for n, w in v.x.closure.items() if n in names)
        return seen, keys


from .interp import MUTATORS as MUT   # noqa: E402

LOCAL = {'new', 'inst'}


def seeds(run):
    """values and guards whose dependence counts as an effect of the entry"""
    I = run.I
    vals, guards, loops, evs = [], [], [], []
    for v, g, n, s in I.returns:
        vals.append(v)
        guards += list(g)
    for e in I.trace:
        if e.stack and e.stack[0] == '<module init>':
            continue
        eff = False
        if e.kind in ('raise', 'assert'):
            eff = True
        elif e.kind == 'discard':
            v = e.args[0]
            eff = v.op in ('call', 'dyn', 'rcall') or v.op == 'mcall' and v.args and not local(I, v.args[0])
        elif e.kind in ('method', 'store_item', 'aug_item', 'del_item', 'aug_name') and (e.kind != 'method' or e.x in MUT):
            eff = not local(I, e.args[0])
        elif e.kind in ('store_attr', 'del_attr'):
            eff = not local(I, e.args[0])
        elif e.kind == 'call' and e.x[0].split('.')[0] in ('builtins',) and e.x[0] in ('builtins.print',):
            eff = True
        elif e.kind == 'call' and e.x[0].startswith(('warnings.', 'matplotlib.')):
            eff = True
        elif e.kind == 'bad_call':
            eff = True
        if eff:
            evs.append(e)
    return vals, guards, loops, evs


def local(I, v):
    rs = I.roots(v)
    return all(r.op in LOCAL or r.op == 'call' for r in rs)
