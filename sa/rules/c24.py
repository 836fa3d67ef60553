"""C24: results of side-effect-free operations are used, exceptions are raised, failures are not swallowed."""
import ast

from ..alias import Alias, mutations, ANY, EXT_MUT
from ..interp import EXC_NAMES
from ..types import base

RULE = ('For every expression statement that calls a library function, the events of the (inlined) call are searched for an effect on an '
        'object that existed before it; a call without any effect whose value is thrown away, or assigned and never read, is a violation. '
        'Exception objects must be raised; handlers must not discard the failure.')
NOEFFECT_OK = {'builtins.print', 'warnings.warn', 'builtins.setattr'}
PURE_METHODS = {'copy', 'conj', 'conjugate', 'getH', 'transpose', 'dot', 'tocsr', 'tocsc', 'toarray', 'todense', 'astype', 'reshape', 'flatten', 'union', 'intersection',
                'difference', 'replace', 'join', 'split', 'strip', 'keys', 'values', 'items', 'sum', 'max', 'min', 'tolist', 'multiply', 'argsort', 'lower', 'upper', 'index', 'count', 'round', 'nonzero', 'diagonal'}


def exc_name(n):
    return n.startswith('builtins.') and n[9:] in EXC_NAMES and not n.endswith('Warning')


def ast_part(ck):
    for m in ck.ctx.prog.modules.values():
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.Module)):
                continue
            for s in ast.walk(f) if isinstance(f, ast.FunctionDef) else []:
                where = 'qosy/%s.py:%d (%s.%s)' % (m.name, getattr(s, 'lineno', 0), m.name, f.name)
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                    n = s.value.func
                    n = n.id if isinstance(n, ast.Name) else ''
                    if n in EXC_NAMES and not n.endswith('Warning'):
                        ck.bad('not-raised', '%s.%s constructs %s' % (m.name, f.name, n), where, '%s is constructed but not raised' % n)
                elif isinstance(s, ast.Raise):
                    ck.ok('raise statements')
                elif isinstance(s, ast.ExceptHandler):
                    body = [b for b in s.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
                    raises = any(isinstance(x, ast.Raise) for b in body for x in ast.walk(b))
                    broad = s.type is None or isinstance(s.type, ast.Name) and s.type.id in ('Exception', 'BaseException')
                    empty = all(isinstance(b, (ast.Pass, ast.Continue, ast.Break)) for b in body)
                    if not raises and (broad or empty):
                        ck.bad('swallowed', '%s.%s swallows %s' % (m.name, f.name, ast.unparse(s.type) if s.type else 'every exception'), where,
                               'the handler continues as if nothing had happened')
                    else:
                        ck.ok('exception handlers')


def effects(I, A, lo, hi, uid0, validation=True):
    """does anything between two points of the trace affect an object that existed before?"""
    for e, target, what in muts(I):
        if lo <= e.seq < hi:
            ps = A.pts(target)
            if not ps or any(ob[0] != 'N' or ob[1] < uid0 for ob in ps):
                return True
    for e in I.trace:
        if lo <= e.seq < hi:
            if e.kind in ('dyncall', 'rcall', 'store_global', 'global') or validation and e.kind in ('raise', 'assert'):
                return True
            if e.kind == 'call' and (e.x[0] in NOEFFECT_OK or e.x[0] in EXT_MUT or e.x[0].startswith(('matplotlib', 'mpl_toolkits', 'sys.', 'os.', 'numpy.random', 'random.', 'numpy.se')) or e.x[0] in ('builtins.next', 'builtins.open')):
                return True
            if e.kind == 'method' and (e.args[0].op in ('ext', 'unknown', 'dyn') or base(I.T.ty(e.args[0])) in ('unknown', 'iter') and e.x not in PURE_METHODS):
                return True
    return False


_m = {}


def muts(I):
    if _m.get('I') is not I:
        _m['I'] = I
        _m['l'] = list(mutations(I))
    return _m['l']


def run(ck):
    ast_part(ck)
    for r in ck.ctx.entries():
        I = r.I
        A = Alias(I)
        raised = set()
        for e in I.trace:
            if e.kind == 'raise':
                for x in I.roots(e.args[0]):
                    raised.add(x.uid)
        for e in I.trace:
            if e.kind == 'call' and exc_name(e.x[0]) and e.val is not None and e.val.uid not in raised and not any(e.val.uid == x.uid for o in I.trace if o is not e and o.kind != 'discard' for a in o.args for x in I.roots(a)):
                ck.bad('not-raised', '%s constructs %s' % (e.fn.qual, e.x[0][9:]), e.where, 'the exception object is never raised')
            if e.kind != 'discard':
                continue
            v = e.args[0]
            if isinstance(e.node.value, ast.BinOp):
                t = I.T.ty(v)
                if not t.startswith('?') and (base(t) in ('array', 'sparse', 'list') or I.T.repo_class(t) is not None):
                    ck.bad('dropped-result', '%s drops the result of an operation' % e.fn.qual, e.where, '%s is computed and thrown away (reached from %s)' % (ast.unparse(e.node.value), r.name))
                continue
            if isinstance(e.node.value, ast.Call):
                inner = [x for x in I.trace if e.x[0] <= x.seq < e.seq]
                lib = [x for x in inner if x.kind == 'icall' and x.node is e.node.value]
                if lib:
                    if v.op == 'const' and v.x is None:
                        ck.ok('calls for effect')
                        continue
                    if v.op == 'undef':
                        continue
                    if effects(I, A, e.x[0], e.seq, e.x[1], not carries(I, v)):
                        ck.ok('calls for effect')
                    else:
                        ck.bad('dropped-result', '%s drops the result of %s' % (e.fn.qual, lib[-1].x[0]), e.where,
                               '%s leaves its operands unchanged and its result is thrown away (reached from %s)' % (lib[-1].x[0], r.name))
                elif v.op == 'inst':
                    ck.bad('dropped-result', '%s drops a new %s' % (e.fn.qual, v.x.name), e.where, 'an object is constructed and thrown away')
                elif v.op == 'mcall':
                    b = base(I.T.ty(v.args[0]))
                    if v.x[0] in PURE_METHODS and b in ('list', 'dict', 'set', 'array', 'sparse', 'str', 'tuple') and not (b == 'list' and v.x[0] in ('index',)):
                        ck.bad('dropped-result', '%s drops the result of .%s()' % (e.fn.qual, v.x[0]), e.where, '.%s() of a %s changes nothing and its result is thrown away' % (v.x[0], b))
                    else:
                        ck.ok('calls for effect')
                elif v.op == 'call':
                    n = v.x[0]
                    pure = (n.startswith(('numpy.', 'scipy.', 'copy.', 'itertools.')) and n not in EXT_MUT and not n.startswith(('numpy.random', 'numpy.se'))) or n in ('builtins.sorted', 'builtins.list', 'builtins.set', 'builtins.abs', 'builtins.reversed')
                    if pure and 'out' not in v.x[1] and any(a.op not in ('const',) for a in v.args) and not n.startswith('numpy.testing') and not any(a.op == 'new' and not I.objinit.get(a.uid) and not I.byobj.get(a.uid) for a in v.args):
                        ck.bad('dropped-result', '%s drops the result of %s' % (e.fn.qual, n), e.where, '%s changes nothing and its result is thrown away' % n)
                    else:
                        ck.ok('calls for effect')
        swallowing(ck, r)
        # results assigned to a name that is never read
        for e in I.trace:
            if e.kind != 'icall' or e.val is None or not carries(I, e.val):
                continue
            st = statement(e)
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.value is e.node):
                continue
            n = st.targets[0].id
            if n in live_after(e.fn, st):
                ck.ok('library results read later')
            elif not effects(I, A, e.seq, span_end(I, e), e.uid0, n.startswith('_') and not transformer(I, e)):
                ck.bad('unused-result', '%s never reads %s' % (e.fn.qual, n), e.where,
                       'the value computed by %s is assigned to %s and never read (reached from %s)' % (e.x[0], n, r.name))
        # objects constructed for a name that is never read
        for e in I.trace:
            if e.kind != 'instantiate' or e.fn is None:
                continue
            st = statement(e)
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.value is e.node):
                continue
            n = st.targets[0].id
            if n in live_after(e.fn, st) or n.startswith('_'):
                ck.ok('objects constructed and read later')
            elif ck.ctx.prog.find(e.x[0] + '.__init__') is not None and any(a is not None and a.op not in ('const', 'new') for _, a in e.x[1]):
                ck.bad('unused-result', '%s never reads %s' % (e.fn.qual, n), e.where, 'an object is constructed, assigned to %s and never read (reached from %s)' % (n, r.name))
        unfilled(ck, r)
    ck.floor('raise statements', 60)
    ck.floor('calls for effect', 200)
    ck.floor('library results read later', 60)


def slots(v, path=()):
    """(position, object) of the values a return statement hands out"""
    while v.op == 'narrow':
        v = v.args[0]
    if v.op == 'tuple' and len(path) < 3:
        for k, a in enumerate(v.args):
            yield from slots(a, path + (k,))
    else:
        yield path, v


def unfilled(ck, r):
    """a list that is returned holds something on some path"""
    I = r.I
    used = {a.uid for e in I.trace for a in e.args if a is not None}
    by = {}
    for v, g, n, s in I.returns:
        for path, x in slots(v):
            by.setdefault(path, []).append((x, n))
    for path, vs in by.items():
        if all(x.op == 'new' and x.x in ('list', 'dict', 'set') for x, n in vs):
            if all(not I.objinit.get(x.uid) and not I.byobj.get(x.uid) and x.uid not in used and not isinstance(getattr(n, 'value', None), (ast.List, ast.Dict)) for x, n in vs):
                ck.bad('unfilled', '%s returns an empty %s' % (r.fn.qual, vs[0][0].x), 'qosy/%s.py:%d (%s)' % (r.fn.module.name, vs[0][1].lineno, r.fn.qual),
                       'the %s returned%s is created but nothing is ever put into it' % (vs[0][0].x, ' at position %d' % path[0] if path else ''))
            else:
                ck.ok('containers returned')


def transformer(I, e):
    """a method that answers with an object of the class it is called on, like remove_zeros"""
    f = e.node.func if isinstance(e.node, ast.Call) else None
    c = I.T.repo_class(I.T.ty(e.val))
    return isinstance(f, ast.Attribute) and c is not None and f.attr in c.methods and not f.attr.startswith('_')


def swallowing(ck, r):
    """handlers that turn an error reported by the library into something else"""
    I = r.I
    fns = {id(e.fn.node): e.fn for e in I.trace if e.fn is not None}
    for fn in fns.values():
        for t in tries(fn):
            body = {id(x) for b in t.body for x in ast.walk(b)}
            for h in t.handlers:
                if any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)) or h.type is None:
                    continue
                names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} - {'KeyError', 'IndexError', 'AttributeError', 'StopIteration', 'ImportError'}
                for e in I.trace:
                    inside = id(e.node) in body or any(id(c) in body for _, c in e.stack if not isinstance(c, str)) if e.stack != ('<module init>',) else False
                    if not inside:
                        continue
                    what = None
                    if e.kind == 'raise':
                        cl = {x.x[0][9:] for x in I.roots(e.args[0]) if x.op == 'call' and x.x[0].startswith('builtins.')} | {x.x[9:] for x in I.roots(e.args[0]) if x.op == 'ext' and str(x.x).startswith('builtins.')}
                        if cl & names:
                            what = 'the %s raised at %s' % (sorted(cl & names)[0], e.where)
                    elif e.kind == 'dyncall' and names & {'ValueError', 'TypeError', 'NotImplementedError', 'RuntimeError'}:
                        what = 'an error raised by the function called at %s' % e.where
                    if what:
                        ck.bad('swallowed', '%s swallows %s' % (fn.qual, ast.unparse(h.type)), 'qosy/%s.py:%d (%s)' % (fn.module.name, h.lineno, fn.qual),
                               'the handler hides %s and goes on (reached from %s)' % (what, r.name))
                        break


def tries(fn):
    t = getattr(fn, '_tries', None)
    if t is None:
        t = fn._tries = [x for x in ast.walk(fn.node) if isinstance(x, ast.Try)]
    return t


def carries(I, v):
    t = base(I.T.ty(v))
    return t in ('Operator', 'Basis', 'OperatorString', 'Transformation', 'Lattice', 'sparse', 'array')


def statement(e):
    par = getattr(e.fn, '_stmts', None)
    if par is None:
        par = {}
        for s in ast.walk(e.fn.node):
            if isinstance(s, ast.stmt):
                for n in ast.walk(s):
                    if isinstance(n, ast.Call):
                        par[id(n)] = s      # the innermost statement is visited last
        e.fn._stmts = par
    return par.get(id(e.node))


def span_end(I, e):
    """sequence number after which the inlined call is finished"""
    hi = e.seq + 1
    d = len(e.stack)
    for x in I.trace:
        if x.seq > e.seq:
            if len(x.stack) <= d:
                break
            hi = x.seq + 1
    return hi


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}


class Live:
    """backward liveness of local names over structured statements"""

    def __init__(self, fn):
        self.after = {}
        # names used by nested functions or declared global/nonlocal count as always live
        self.always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                self.always |= loads(x)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        self.block(fn.body, set(), set(), set())

    def block(self, body, out, brk, cont):
        for s in reversed(body):
            out = self.stmt(s, out, brk, cont)
        return out

    def stmt(self, s, out, brk, cont):
        self.after[id(s)] = self.after.get(id(s), set()) | out | self.always
        if isinstance(s, (ast.Return, ast.Raise)):
            return loads(s)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Assign):
            k = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    k |= {e.id for e in t.elts if isinstance(e, ast.Name)}
            return (out - k) | loads(s)
        if isinstance(s, ast.AugAssign):
            return out | loads(s) | ({s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if isinstance(s, (ast.For, ast.While)):
            head = set(out) | loads(s.iter if isinstance(s, ast.For) else s.test) | self.block(s.orelse, out, brk, cont)
            while True:
                new = head | self.block(s.body, head, out, head)
                if new == head:
                    return head
                head = new
        if isinstance(s, ast.Try):
            o = self.block(s.finalbody, out, brk, cont) | out
            h = set()
            for x in s.handlers:
                h |= self.block(x.body, o, brk, cont)
            b = self.block(s.body, self.block(s.orelse, o, brk, cont) | h, brk, cont)
            return b | h | {n for x in s.body for n in loads(x)}
        if isinstance(s, ast.With):
            b = self.block(s.body, out, brk, cont)
            for i in s.items:
                b |= loads(i.context_expr)
            return b
        return out | loads(s)


def live_after(fn, st):
    L = getattr(fn, '_live', None)
    if L is None:
        L = fn._live = Live(fn.node)
    return L.after.get(id(st), set())
