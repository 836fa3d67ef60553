"""Truth of conditions and choice of join alternatives along one path."""
import operator

from .values import V, const, is_const

CMP = {'Eq': operator.eq, 'Lt': operator.lt, 'LtE': operator.le, 'Is': lambda a, b: a is b}


def norm(c, p):
    """(condition, polarity) with negations and LtE removed"""
    while c.op == 'un' and c.x == 'not':
        c, p = c.args[0], not p
    if c.op == 'cmp' and c.x == 'LtE':
        return V('cmp', (c.args[1], c.args[0]), 'Lt', c.node), not p
    return c, p


def flat(guards):
    """atomic (condition, polarity) pairs of a conjunction of guards"""
    out = []
    stack = [(c, p) for c, p in reversed(list(guards))]
    while stack:
        c, p = stack.pop()
        c, p = norm(c, p)
        if c.op == 'bool' and ((c.x == 'and') == p):
            stack.extend((a, p) for a in reversed(c.args))
        else:
            out.append((c, p))
    return out


def atoms(guards, out=None):
    """elementary conditions mentioned in guards (compound ones opened)"""
    out = {} if out is None else out
    stack = [c for c, p in guards]
    while stack:
        c, _ = norm(stack.pop(), True)
        if c.op == 'bool':
            stack.extend(c.args)
        elif c.op != 'const':
            out.setdefault(c.key, c)
    return out


class Path:
    """an assignment of truth values to elementary conditions"""

    def __init__(self, asg):
        self.asg = asg

    def truth(self, c, fold=False):
        c, p = norm(c, True)
        t = None
        if not fold and c.key in self.asg:
            t = self.asg[c.key]
        elif c.op == 'const':
            t = bool(c.x)
        elif c.op == 'bool':
            ts = [self.truth(a) for a in c.args]
            if c.x == 'and':
                t = False if False in ts else None if None in ts else True
            else:
                t = True if True in ts else None if None in ts else False
        elif c.op == 'cmp':
            a, b = self.value(c.args[0]), self.value(c.args[1])
            if True:
                if a.op == 'const' and b.op == 'const' and c.x in CMP:
                    try:
                        t = bool(CMP[c.x](a.x, b.x))
                    except TypeError:
                        t = None
                elif c.x == 'Eq' and a.key == b.key and a.op != 'unknown':
                    t = True
                elif c.x == 'Lt' and a.key == b.key and a.op != 'unknown':
                    t = False
        elif c.op in ('join', 'mu', 'new', 'inst', 'narrow'):
            v = self.value(c)
            if v.op == 'const':
                t = bool(v.x)
        return None if t is None else t == p

    def holds(self, guards, known=()):
        """True/False/None for a conjunction; `known`: keys of conditions that hold anyway"""
        r = True
        for c, p in flat(guards):
            t = self.truth(c)
            if t is None:
                r = None if r else r
            elif t != p:
                return False
        return r

    def value(self, v, depth=0):
        """v with its joins resolved on this path as far as the path decides them"""
        if depth > 30:
            return v
        if v.op == 'join':
            left = None
            for a, g in zip(v.args, v.x):
                h = self.holds(g)
                if h is True and g:
                    return self.value(a, depth + 1)
                if h is None or (h is True and not g):
                    left = a if left is None else False
            if left:
                return self.value(left, depth + 1)
            return v
        if v.op == 'narrow':
            return self.value(v.args[0], depth + 1)
        if v.op in ('bin', 'aug', 'un'):
            args = [self.value(a, depth + 1) for a in v.args]
            if all(a is b for a, b in zip(args, v.args)):
                return v
            return V(v.op, args, v.x, v.node)
        return v

    def consistent(self, conds):
        """no condition contradicts the others"""
        pairs, eqc = {}, {}
        for k, c in conds.items():
            t = self.asg.get(k)
            if t is None:
                continue
            f = self.truth(c, fold=True)
            if f is not None and f != t:
                return False
            if c.op == 'cmp' and c.x in ('Eq', 'Lt'):
                a, b = c.args
                ka, kb = sorted((a.key, b.key))
                pairs.setdefault((ka, kb), []).append((c.x, a.key == ka, t))
                if c.x == 'Eq' and t:
                    for x, y in ((a, b), (b, a)):
                        if y.op == 'const':
                            if eqc.setdefault(x.key, repr(y.x)) != repr(y.x):
                                return False
        for lst in pairs.values():
            if not any(all(sat(op, fw, o) == t for op, fw, t in lst) for o in (-1, 0, 1)):
                return False
        return True


def sat(op, fw, o):
    if op == 'Eq':
        return o == 0
    return o < 0 if fw else o > 0


def assignments(conds, forced, limit=12):
    """consistent truth assignments; None when there are too many conditions"""
    free = [k for k in conds if k not in forced]
    if len(free) > limit:
        return None
    out = []
    for m in range(1 << len(free)):
        asg = dict(forced)
        for i, k in enumerate(free):
            asg[k] = bool(m >> i & 1)
        p = Path(asg)
        if p.consistent(conds):
            out.append(p)
    return out
