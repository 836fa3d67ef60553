"""C08: nothing returned depends on random numbers, clocks, object identities or the iteration order of sets of strings."""
import ast

from ..types import base, targs

RULE = ('Taint analysis: values of random, clock and identity sources must not reach a result, stored state or a branch; sets whose '
        'elements hash differently from process to process (strings, operator strings, objects without __hash__) may be iterated only '
        'where the order cannot matter (membership, sorted, set building); uninitialised arrays must be filled before use.')
RANDOM = ('numpy.random.', 'random.', 'secrets.', 'uuid.')
CLOCK = ('time.', 'datetime.', 'os.urandom', 'os.getpid', 'os.times', 'perf_counter')
EXEMPT = {'visualization.plot_opstring', 'algorithms.selected_ci_greedy_many_ops2'}
STABLE = {'int', 'float', 'complex', 'bool', 'num', 'none'}
ORDER_FREE = {'builtins.sorted', 'builtins.set', 'builtins.frozenset', 'builtins.len', 'builtins.min', 'builtins.max', 'builtins.any', 'builtins.all', 'numpy.unique', 'numpy.sort', 'builtins.bool', 'builtins.isinstance', 'builtins.print'}


def unstable(T, t):
    """do elements of this type hash differently in every process?"""
    b, a = base(t), targs(t)
    if b in STABLE or b in ('unknown', '', 'undef'):
        return False
    if b == 'str':
        return True
    if b == 'tuple':
        return any(unstable(T, x) for x in a)
    c = T.repo_class(t)
    if c is not None:
        return True
    return False


def uset(T, v):
    t = T.ty(v)
    return base(t) == 'set' and targs(t) and unstable(T, targs(t)[0])


def source(v, fn):
    if v.op not in ('call', 'mcall'):
        return None
    n = v.x[0]
    if v.op == 'mcall':
        r = v.args[0]
        if r.op == 'ext':
            n = r.x + '.' + n
        else:
            return None
    if n.startswith(RANDOM):
        if n.split('.')[-1] in ('RandomState', 'default_rng', 'Random', 'Generator') and v.args and v.args[0].op == 'const' and v.args[0].x is not None:
            return None
        return 'random numbers (%s)' % n
    if n.startswith(CLOCK) and n != 'time.sleep':
        return 'the clock or process (%s)' % n
    if n == 'builtins.id':
        return 'object identity (id)'
    if n == 'builtins.hash' and unstable(None_T, 'str') and not fn.endswith('__hash__'):
        return 'a hash value'
    return None


None_T = type('T', (), {'repo_class': staticmethod(lambda t: None)})


def run(ck):
    for r in ck.ctx.entries():
        I = r.I
        T = I.T
        ck.count('entry points')
        # ---- value sources
        sinks = []
        for v, g, n, s in I.returns:
            sinks.append((v, 'the returned value', None))
            for c, p in g:
                sinks.append((c, 'a branch', None))
        for e in I.trace:
            if e.kind in ('store_item', 'aug_item', 'store_attr', 'method', 'aug_name', 'unpack', 'instantiate'):
                for a in e.args[1:] if e.kind != 'unpack' else ():
                    sinks.append((a, 'stored data', e))
            if e.kind not in ('call',) or e.x[0] != 'builtins.print':
                for c, p in e.guards:
                    sinks.append((c, 'a branch', e))
        for L in I.loops.values():
            for x in (L.iter, L.test):
                if x is not None:
                    sinks.append((x, 'a loop', None))
        seen = {}
        for v, what, e in sinks:
            scan(ck, r, v, what, e, seen)
        # ---- sets
        for L in I.loops.values():
            it = L.iter
            if it is None:
                continue
            while it.op == 'call' and it.x[0] in ('builtins.enumerate', 'builtins.iter', 'builtins.list', 'builtins.tuple') and it.args:
                it = it.args[0]
            if base(T.ty(it)) == 'set':
                if not uset(T, it):
                    ck.ok('loops over sets with stable or unknown element hash', '%s loops over %s' % (L.fn.qual, T.ty(it)))
                    continue
                why = order_matters(I, L)
                where = 'qosy/%s.py:%d (%s)' % (L.fn.module.name, L.node.lineno, L.fn.qual)
                if why:
                    ck.bad('set-order', '%s iterates a %s' % (L.fn.qual, T.ty(it)), where, 'the iteration order of a %s differs between processes, and %s' % (T.ty(it), why))
                else:
                    ck.ok('order-free loops over sets')
        done = set()
        for e in I.trace:
            if e.kind == 'method' and e.x == 'pop' and uset(T, e.args[0]) and len(e.args) == 1:
                ck.bad('set-order', '%s pops from a %s' % (e.fn.qual, T.ty(e.args[0])), e.where, 'pop() takes an element that depends on the hash seed')
            for a in e.args:
                uses(ck, I, a, e, done)
            for a in ([e.val] if e.val is not None else []):
                uses(ck, I, a, e, done)
        for v, g, n, s in I.returns:
            fake = type('E', (), {'fn': r.fn, 'where': 'qosy/%s.py:%d (%s)' % (r.fn.module.name, getattr(n, 'lineno', 0), r.fn.qual)})
            if ordered_set(I, v):
                ck.bad('set-order', '%s returns a list of a %s' % (r.fn.qual, T.ty(v.args[0])), fake.where, 'the order of the returned list depends on the hash seed')
            uses(ck, I, v, fake, done)
        # ---- functions handed on that identify objects by address or hash
        for e in I.trace:
            if e.kind in ('call', 'method', 'rcall'):
                for a in e.args:
                    k = keyed(a)
                    if k:
                        ck.bad('source', '%s orders or groups by %s' % (e.fn.qual, k), e.where, 'a function based on %s is handed to %s: its values differ between processes' % (k, e.x[0] if isinstance(e.x, tuple) else e.x))
        # ---- uninitialised arrays
        for e in I.trace:
            if e.kind == 'call' and e.x[0] in ('numpy.empty', 'numpy.empty_like', 'numpy.ndarray') and e.val is not None:
                evs = [x for x in I.byobj.get(e.val.uid, ())]
                first = [x for x in evs if x.kind in ('store_item', 'aug_item', 'aug_name') or x.kind == 'method' and x.x == 'fill']
                if first and first[0].kind in ('aug_item', 'aug_name') or not first and not any('out' in x.x[1] for x in I.trace if x.kind == 'call'):
                    ck.bad('uninitialised', '%s uses an uninitialised array' % e.fn.qual, e.where, 'the array of %s is read or accumulated into before it is filled' % e.x[0])
                else:
                    ck.ok('uninitialised arrays filled first')
        for e in I.trace:
            if e.kind == 'method' and base(T.ty(e.args[0])) == 'set':
                ck.count('set operations examined')
    ck.floor('entry points', 150)
    ck.floor('set operations examined', 50)
    ck.floor('values traced', 20000)


def keyed(a):
    if a.op == 'ext' and a.x in ('builtins.id', 'builtins.hash'):
        return a.x.split('.')[1] + '()'
    if a.op == 'func' and getattr(a.x, 'node', None) is not None:
        body = a.x.node
        if getattr(a.x, 'name', '') in ('__hash__', '__eq__'):
            return None
        for n in ast.walk(body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('id', 'hash'):
                return n.func.id + '()'
    return None


def scan(ck, r, v, what, e, seen):
    stack = [v]
    while stack:
        v = stack.pop()
        if v.uid in seen:
            continue
        seen[v.uid] = True
        ck.count('values traced')
        fq = ck.ctx.prog.owner(e).qual if e is not None else r.fn.qual
        s = source(v, fq)
        if s:
            where = 'qosy/%s.py:%d' % (v.mod.name if v.mod else r.fn.module.name, getattr(v.node, 'lineno', 0))
            if r.fn.qual in EXEMPT or fq in EXEMPT:
                ck.count('documented random choices')
            elif not (s.startswith('a hash') and (fq.endswith('__hash__') or '__hash__' in where)):
                if not (s.startswith('a hash') and v.node is not None and in_hash(r, v)):
                    ck.bad('source', '%s depends on %s' % (r.fn.qual, s), where, 'entry point %s: %s depends on %s' % (r.name, what, s))
        stack += list(v.args) + list(v.back)
        if v.op == 'new':
            stack += r.I.contents(v)


def in_hash(r, v):
    import ast
    m = v.mod
    if m is None:
        return False
    for c in m.classes.values():
        h = c.methods.get('__hash__')
        if h is not None and any(n is v.node for n in ast.walk(h.node)):
            return True
    return False


def ordered_set(I, v):
    """a list/tuple/array/string made from an unstable set, order included"""
    if v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.enumerate', 'numpy.array', 'numpy.fromiter', 'builtins.zip', 'builtins.map', 'builtins.next') and v.args:
        for a in v.args:
            if uset(I.T, a) or ordered_set(I, a):
                for e in I.byobj.get(v.uid, ()):
                    if e.kind == 'method' and e.x == 'sort':
                        return False
                return True
    return False


def uses(ck, I, v, e, done):
    """consumers of an unstable set (or of a list made from one) that see its order"""
    stack = [v]
    while stack:
        v = stack.pop()
        if v.uid in done:
            continue
        done.add(v.uid)
        stack += list(v.args) + list(v.back)
        for a in v.args:
            if ordered_set(I, a):
                ok = v.op == 'call' and v.x[0] in ORDER_FREE or v.op in ('cmp', 'join', 'mu', 'elem', 'narrow') or v.op == 'mcall' and v.x[0] in ('sort', 'union', 'intersection', 'difference', 'issubset', 'update')
                ok = ok or v.op == 'call' and ordered_set(I, v)
                if not ok:
                    ck.bad('set-order', '%s uses the order of a %s' % (e.fn.qual, I.T.ty(a)), e.where, 'a sequence made from a set of strings is used in %r; its order depends on the hash seed' % v)
            if uset(I.T, a) and (v.op == 'mcall' and v.x[0] in ('join', 'extend') and a is not v.args[0] or v.op == 'call' and v.x[0] in ('builtins.sum', 'builtins.next', 'builtins.str', 'builtins.repr', 'numpy.fromiter')):
                ck.bad('set-order', '%s uses the order of a %s' % (e.fn.qual, I.T.ty(a)), e.where, 'a set of strings is consumed in order by %r' % v)


def sorted_later(I, x):
    """a list built only to be sorted / turned into a set"""
    for e in I.trace:
        if e.kind == 'method' and e.x == 'sort' and e.args[0].uid == x.uid:
            return True
        if e.kind == 'call' and e.x[0] in ORDER_FREE and any(a.uid == x.uid for a in e.args):
            return True
    return False


def order_matters(I, L):
    for e in I.trace:
        if L in e.loops:
            if e.kind == 'method' and e.x in ('append', 'extend', 'insert', 'write'):
                x = e.args[0]
                if x.op == 'new' and x.x == 'set':
                    continue
                if sorted_later(I, x):
                    continue
                return 'the loop body appends to a sequence (%s)' % e.where
            if e.kind == 'store_item' and base(I.T.ty(e.args[0])) == 'dict':
                return 'the loop body fills a dictionary (%s)' % e.where
            if e.kind == 'return' and e.fn.node is L.fn.node:
                return 'the loop body returns (%s)' % e.where
            if e.kind == 'aug_name' and base(I.T.ty(e.args[0])) in ('list', 'str'):
                return 'the loop body extends a sequence (%s)' % e.where
            if e.kind == 'store_attr' and e.args[0].op not in ('inst', 'new'):
                return 'the loop body changes an object (%s)' % e.where
    if L.brk:
        return 'the loop stops at the first match'
    for b in L.ends:
        pass
    for n, mu in L.mus.items():
        for b in mu.back:
            if b.op == 'elem':
                return 'the loop keeps the last element (%s)' % n
    return None
