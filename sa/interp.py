"""Abstract interpreter: builds the value-flow graph of one entry point.

All paths are joined, library-internal calls are inlined, loops are
interpreted once with loop-carried (`mu`) values, containers and instances
are abstract objects with an event trace.  Nothing of the analysed code is
executed."""
import ast
import os
import sys

from .values import V, const, NONE, is_const, fresh, show, FRESH_CALLS

sys.setrecursionlimit(20000)

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
EXC_NAMES = {n for n in BUILTINS if n.endswith('Error') or n in ('Exception', 'BaseException', 'StopIteration', 'Warning', 'UserWarning', 'DeprecationWarning', 'RuntimeWarning')}


class AnalysisError(Exception):
    pass


def _baseline():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.txt')
    return {l.strip() for l in open(p) if l.strip() and not l.startswith('#')}


BASELINE = _baseline()


class FuncRef:
    def __init__(self, qual, node, module, cls=None, closure=None, static=False, prop=False, klass=False):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.closure = closure
        self.static, self.prop, self.klass = static, prop, klass
        self.name = getattr(node, 'name', '<lambda>')

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def defaults(self):
        a = self.node.args
        names = self.params()
        d = {}
        for n, e in zip(names[len(names) - len(a.defaults):], a.defaults):
            d[n] = e
        for x, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[x.arg] = e
        return d

    def __repr__(self):
        return 'F(%s)' % self.qual


class ClassRef:
    def __init__(self, qual, node, module, closure=None):
        self.qual, self.node, self.module, self.closure = qual, node, module, closure
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in s.decorator_list]
                self.methods[s.name] = FuncRef(qual + '.' + s.name, s, module, self, closure, 'staticmethod' in decs, 'property' in decs, 'classmethod' in decs)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value

    def __repr__(self):
        return 'C(%s)' % self.qual


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.funcs, self.classes, self.imports, self.stars, self.consts = {}, {}, {}, [], {}


class Program:
    """The parsed package: modules, functions, classes, imports."""

    def __init__(self, root='/repo', pkg='qosy'):
        self.root, self.pkg = root, pkg
        self.modules = {}
        d = os.path.join(root, pkg)
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                path = os.path.join(d, f)
                src = open(path, encoding='utf-8').read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, path)
                self._load(f[:-3], path, tree, src)
        self.by_class = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.by_class.setdefault(c.name, c)
        self._gl = {}

    def _load(self, name, path, tree, src):
        m = Module(name, path, tree, src)
        self.modules[name] = m
        self._scan(m, tree.body)

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                m.funcs[s.name] = FuncRef(m.name + '.' + s.name, s, m)
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = ClassRef(m.name + '.' + s.name, s, m)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                src = self._relname(s)
                for a in s.names:
                    if a.name == '*':
                        m.stars.append(src)
                    else:
                        m.imports[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.If, ast.Try, ast.With, ast.While)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.consts.setdefault(n.id, True)
                if isinstance(s, (ast.If, ast.Try)):
                    self._scan(m, s.body)
                    self._scan(m, s.orelse)

    def _relname(self, s):
        if s.level:
            return ('repo', s.module.split('.')[-1] if s.module else '__init__')
        if s.module and s.module.split('.')[0] == self.pkg:
            return ('repo', s.module.split('.')[-1])
        return ('ext', s.module)

    def lookup(self, mname, name, seen=()):
        """resolve a module-level name -> ('func',F) ('class',C) ('const',m,name)
        ('mod',dotted) ('ext',dotted) or None"""
        if mname not in self.modules or (mname, name) in seen:
            return None
        seen = seen + ((mname, name),)
        m = self.modules[mname]
        if name in m.funcs:
            return ('func', m.funcs[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.consts:
            return ('const', mname, name)
        if name in m.imports:
            i = m.imports[name]
            if i[0] == 'mod':
                if i[1].split('.')[0] == self.pkg:
                    return ('repomod', i[1].split('.')[-1] if '.' in i[1] else '__init__')
                return ('mod', i[1])
            (kind, src), nm = i[1], i[2]
            if kind == 'repo':
                r = self.lookup(src, nm, seen)
                if r is None and nm in self.modules:
                    return ('repomod', nm)
                return r
            return ('ext', '%s.%s' % (src, nm))
        for (kind, src) in m.stars:
            if kind == 'repo' and not name.startswith('_'):
                r = self.lookup(src, name, seen)
                if r:
                    return r
        return None

    def helper(self, fn):
        """a function that was added later and that the library itself calls: it has no specification of its own and is judged where it is called"""
        if fn.qual in BASELINE or (fn.name.startswith('__') and fn.name.endswith('__')):
            return False
        if self._refs is None:
            self._refs = {}
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        self._refs.setdefault(n.id if isinstance(n, ast.Name) else n.attr, []).append((m.name, n.lineno))
        m = fn.module
        lo, hi = fn.node.lineno, fn.node.end_lineno
        return any(not (x == m.name and lo <= l <= hi) for x, l in self._refs.get(fn.name, ()))

    def owner(self, e):
        """the function that is responsible for an event: the one it is in or, from within a helper, the one that uses the helper"""
        fn = e.fn
        if self._bynode is None:
            self._bynode = {id(f.node): f for f in self.functions()}
        st = list(getattr(e, 'stack', None) or ())
        while fn is not None and st and st[-1] != '<module init>' and self.helper(fn):
            n, _ = st.pop()
            fn = self._bynode.get(id(n), fn)
        return fn

    _bynode = None

    def judged(self):
        """functions that are judged on their own"""
        for f in self.functions():
            if not self.helper(f):
                yield f

    _refs = None

    def functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def find(self, qual):
        parts = qual.split('.')
        m = self.modules.get(parts[0])
        if m is None:
            return None
        if len(parts) == 2:
            if parts[1] in m.funcs:
                return m.funcs[parts[1]]
            r = self.lookup(parts[0], parts[1])
            return r[1] if r and r[0] in ('func', 'class') else None
        c = m.classes.get(parts[1])
        if c is None:
            r = self.lookup(parts[0], parts[1])
            c = r[1] if r and r[0] == 'class' else None
        return c.methods.get(parts[2]) if c else None


class State:
    __slots__ = ('env', 'heap', 'guards')

    def __init__(self, env, heap, guards):
        self.env, self.heap, self.guards = env, heap, guards

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guards)


class Loop:
    __slots__ = ('id', 'kind', 'iter', 'node', 'fn', 'test', 'exits', 'conts', 'mus', 'parent', 'ends', 'brk', 'guards')

    def __init__(self, kind, node, fn, parent):
        self.id, self.kind, self.node, self.fn, self.parent = fresh(), kind, node, fn, parent
        self.iter = self.test = None
        self.mus = {}
        self.ends = []
        self.brk = []
        self.guards = ()


class Event:
    __slots__ = ('kind', 'args', 'x', 'guards', 'loops', 'node', 'fn', 'stack', 'val', 'seq', 'uid0')

    def __repr__(self):
        return '<%s %s %s @%s:%d>' % (self.kind, self.x, ', '.join(map(show, self.args)), self.fn.qual if self.fn else '?', getattr(self.node, 'lineno', 0))

    @property
    def where(self):
        return '%s:%d (%s)' % (os.path.join('qosy', self.fn.module.name + '.py'), getattr(self.node, 'lineno', 0), self.fn.qual)


class Frame:
    def __init__(self, fn, stack):
        self.fn, self.stack = fn, stack
        self.returns = []
        self.loops = []
        self.nonlocals = {}
        self.yields = None


MUTATORS = {
    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'update', 'setdefault', 'popitem',
    'add', 'discard', 'fill', 'resize', 'put', 'partition', 'itemset', 'setflags', 'sum_duplicates',
    'eliminate_zeros', 'sort_indices', 'setdiag', 'prune', 'difference_update', 'intersection_update',
    'symmetric_difference_update', '__setitem__', '__iadd__', 'appendleft', 'popleft', 'byteswap',
}


OBJ_EVENTS = ('method', 'store_item', 'aug_item', 'del_item', 'aug_name')


class Interp:
    def __init__(self, prog, opaque=(), max_depth=14, types=None, budget=400000, inline_new=True):
        self.prog = prog
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.trace = []
        self.byobj = {}
        self.objmade = {}
        self.vguards = {}  # value -> conditions under which it was computed
        self.loops = {}
        self.budget = budget
        self.unknowns = []
        self.raises = []
        self.gcache = {}
        self.loopstack = []
        self.ret_types = {}
        self.attr_types = {}
        self.inlined = set()
        self.objinit = {}
        self.called = []
        self._ginit = []
        self._seq = 0
        self.hook = None
        self.maymut = set()
        self.gtrace = []
        from .types import Types
        self.T = Types(self)

    # ---------------------------------------------------------------- events
    def ev(self, kind, args, st, fr, node, x=None, val=None):
        e = Event()
        e.kind, e.args, e.x, e.guards, e.node, e.fn = kind, tuple(args), x, st.guards, node, fr.fn
        e.loops = tuple(self.loopstack)
        e.stack = fr.stack
        e.val = val
        e.seq = self._seq
        e.uid0 = fresh()
        self._seq += 1
        self.trace.append(e)
        if e.args and kind in OBJ_EVENTS:
            self.byobj.setdefault(e.args[0].uid, []).append(e)
        self.budget -= 1
        return e

    def unk(self, why, node, fr):
        self.unknowns.append((why, getattr(node, 'lineno', 0), fr.fn.qual if fr and fr.fn else '?'))
        return V('unknown', (), why, node)

    # ---------------------------------------------------------------- entry
    def run(self, fn, args=None, types=None, heap=None):
        """Interpret function `fn` on abstract parameters. args: name -> V."""
        types = types or {}
        args = dict(args or {})
        a = fn.node.args
        env = {}
        names = fn.params() + [x.arg for x in a.kwonlyargs]
        st = State({}, {}, ())
        root = Frame(fn, ())
        for n in names:
            if n in args:
                env[n] = args[n]
            else:
                env[n] = V('param', (), (fn.qual, n, types.get(n)), fn.node)
        if a.vararg:
            env[a.vararg.arg] = V('param', (), (fn.qual, '*' + a.vararg.arg, 'tuple'), fn.node)
        if a.kwarg:
            env[a.kwarg.arg] = V('param', (), (fn.qual, '**' + a.kwarg.arg, 'dict'), fn.node)
        st.env = env
        st.heap.update(getattr(self, 'seedheap', {}))
        for (pn, attr), hv in (heap or {}).items():
            if pn in env:
                st.heap[self.hkey(env[pn], attr)] = hv
        self.params = dict(env)
        self.entry = fn
        fr = Frame(fn, ())
        end = self.block(fn.node.body, st, fr)
        if end is not None:
            fr.returns.append((NONE, end.guards, fn.node, end))
        self.final_heap = [r[3].heap for r in fr.returns]
        self.returns = fr.returns
        for (v, g, n, s) in fr.returns:
            e = self.ev('entry_return', (v,), s, fr, n)
        return fr.returns

    # ---------------------------------------------------------------- blocks
    def block(self, stmts, st, fr):
        for s in stmts:
            st = self.stmt(s, st, fr)
            if st is None or self.isdead(st):
                return None
        return st

    @staticmethod
    def isdead(st):
        return any(c.op == 'const' and bool(c.x) != p for c, p in st.guards[-3:])

    def addguard(self, st, c, pol):
        c2, pol2 = c, pol
        while c2.op == 'un' and c2.x == 'not':
            c2, pol2 = c2.args[0], not pol2
        if c2.op == 'bool' and ((c2.x == 'and') == pol2):
            for a in c2.args:
                self.addguard(st, a, pol2)
            return
        st.guards = st.guards + ((c2, pol2),)
        k = c2.key
        for n, w in list(st.env.items()):
            if w.op == 'join':
                keep = [i for i, g in enumerate(w.x) if not any(gc.key == k and gp != pol2 for gc, gp in g)]
                if keep and len(keep) < len(w.args):
                    st.env[n] = w.args[keep[0]] if len(keep) == 1 else V('join', [w.args[i] for i in keep], tuple(w.x[i] for i in keep), w.node)
        if c2.op == 'call' and c2.x[0] == 'builtins.isinstance' and len(c2.args) == 2:
            self.narrow(st, c2.args[0], c2.args[1], pol2)

    def narrow(self, st, v, cls, pol):
        if not pol:
            return
        t = None
        if cls.op == 'cls':
            t = cls.x.name
        elif cls.op == 'ext':
            t = {'builtins.list': 'list', 'builtins.tuple': 'tuple', 'builtins.dict': 'dict', 'builtins.set': 'set', 'builtins.str': 'str', 'builtins.int': 'int', 'numpy.ndarray': 'array'}.get(cls.x)
        if t is None:
            return
        if v.op in ('inst', 'new', 'const'):
            return
        k = v.key
        if t == self.T.ty(v):
            return
        cur = self.T.ty(v)
        if cur.startswith(t + '['):
            return
        nv = V('narrow', (v,), t, v.node)
        for n, w in list(st.env.items()):
            if w.key == k:
                st.env[n] = nv

    def stmt(self, s, st, fr):
        if self.budget < 0:
            raise AnalysisError('budget exhausted in %s' % (fr.fn.qual,))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk('stmt ' + type(s).__name__, s, fr)
            return st
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = None

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = V('mod', (), a.name if a.asname else a.name.split('.')[0], s)
        return st

    def s_ImportFrom(self, s, st, fr):
        kind, src = self.prog._relname(s)
        for a in s.names:
            if kind == 'ext':
                st.env[a.asname or a.name] = V('ext', (), '%s.%s' % (src, a.name), s)
            else:
                r = self.prog.lookup(src, a.name)
                st.env[a.asname or a.name] = self.refval(r, s, fr) if r else self.unk('import', s, fr)
        return st

    def s_Global(self, s, st, fr):
        self.ev('global', (), st, fr, s, x=tuple(s.names))
        return st

    def s_Nonlocal(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        n0 = (self._seq, fresh())
        v = self.expr(s.value, st, fr)
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return st
        self.ev('discard', (v,), st, fr, s, x=n0)
        return st

    def s_Return(self, s, st, fr):
        v = self.expr(s.value, st, fr) if s.value is not None else NONE
        if self.isdead(st):
            return None
        fr.returns.append((v, st.guards, s, st))
        self.ev('return', (v,), st, fr, s)
        return None

    def s_Raise(self, s, st, fr):
        v = self.expr(s.exc, st, fr) if s.exc is not None else NONE
        self.ev('raise', (v,), st, fr, s)
        return None

    def s_Assert(self, s, st, fr):
        c = self.expr(s.test, st, fr)
        self.ev('assert', (c,), st, fr, s)
        self.addguard(st, c, True)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value, st, fr)
                i = self.index(t.slice, st, fr)
                self.ev('del_item', (b, i), st, fr, s)
            elif isinstance(t, ast.Attribute):
                b = self.expr(t.value, st, fr)
                self.ev('del_attr', (b,), st, fr, s, x=t.attr)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_FunctionDef(self, s, st, fr):
        f = FuncRef(fr.fn.qual + '.<locals>.' + s.name, s, fr.fn.module, None, None)
        f.closure = st.env   # late binding to this scope (by reference)
        f.closure_frame = fr
        st.env[s.name] = V('func', (), f, s)
        return st

    def s_ClassDef(self, s, st, fr):
        c = ClassRef(fr.fn.qual + '.<locals>.' + s.name, s, fr.fn.module, st.env)
        st.env[s.name] = V('cls', (), c, s)
        return st

    def s_Assign(self, s, st, fr):
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                and len(s.targets[0].elts) == len(s.value.elts) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts + s.value.elts):
            vals = [self.expr(e, st, fr) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v, st, fr, s)
            return st
        v = self.expr(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st, fr), st, fr, s)
        return st

    def assign(self, t, v, st, fr, s):
        if isinstance(t, ast.Name):
            if fr.fn and t.id in fr.nonlocals.get('global', ()):
                self.ev('store_global', (v,), st, fr, s, x=t.id)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr, s)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, fr)
            self.setattr(b, t.attr, v, st, fr, s)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, st, fr)
            i = self.index(t.slice, st, fr)
            self.ev('store_item', (b, i, v), st, fr, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, V('call', (v,), ('builtins.list', ()), s), st, fr, s)

    def unpack(self, elts, v, st, fr, s):
        n = len(elts)
        parts = self.parts(v, n, st, fr, s)
        if any(isinstance(e, ast.Starred) for e in elts):
            k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
            lit = self.literal_elems(v)
            if lit is not None:
                after = n - k - 1
                for i, e in enumerate(elts):
                    if i < k:
                        self.assign(e, lit[i], st, fr, s)
                    elif i == k:
                        self.assign(e.value, self.mklist('list', lit[k:len(lit) - after], st, fr, s), st, fr, s)
                    else:
                        self.assign(e, lit[len(lit) - n + i], st, fr, s)
                return
            for e in elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, V('item', (v, const(0)), None, s), st, fr, s)
            return
        self.ev('unpack', (v,), st, fr, s, x=n)
        for e, p in zip(elts, parts):
            self.assign(e, p, st, fr, s)

    def parts(self, v, n, st, fr, s):
        if v.op == 'tuple' and len(v.args) == n:
            return list(v.args)
        if v.op == 'narrow':
            return self.parts(v.args[0], n, st, fr, s)
        lit = self.literal_elems(v)
        if lit is not None and len(lit) == n:
            return lit
        if v.op == 'join':
            alts = [self.parts(a, n, st, fr, s) for a in v.args if not (a.op == 'const' and a.x is None)]
            if alts:
                gs = [g for a, g in zip(v.args, v.x) if not (a.op == 'const' and a.x is None)]
                return [self.mkjoin([(alt[i], g) for alt, g in zip(alts, gs)], s) for i in range(n)]
        return [self.getitem(v, const(i), st, fr, s) for i in range(n)]

    def s_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, st, fr, s)
            rhs = self.expr(s.value, st, fr)
            st.env[t.id] = self.augmented(old, op, rhs, st, fr, s)
            self.vguards.setdefault(st.env[t.id].uid, st.guards)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, fr)
            old = self.getattr(b, t.attr, st, fr, s)
            rhs = self.expr(s.value, st, fr)
            v = self.augmented(old, op, rhs, st, fr, s)
            self.setattr(b, t.attr, v, st, fr, s, aug=True)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, st, fr)
            i = self.index(t.slice, st, fr)
            old = self.getitem(b, i, st, fr, s)
            rhs = self.expr(s.value, st, fr)
            v = self.augmented(old, op, rhs, st, fr, s, quiet=True)
            self.vguards.setdefault(v.uid, st.guards)
            self.ev('aug_item', (b, i, rhs, v), st, fr, s, x=op)
        return st

    def augmented(self, old, op, rhs, st, fr, s, quiet=False):
        t = self.T.ty(old)
        m = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(op)
        c = self.T.repo_class(t)
        if c is not None:
            if m and m in c.methods:
                return self.call_func(c.methods[m], [old, rhs], {}, st, fr, s)
            return self.binop(op, old, rhs, st, fr, s)
        f = self.fold(op, old, rhs, s)
        if f is not None:
            return f
        if t == 'tuple' and op == 'Add':
            return self.binop(op, old, rhs, st, fr, s)
        if not quiet:
            self.ev('aug_name', (old, rhs), st, fr, s, x=op)
        return V('aug', (old, rhs), op, s, fr.fn.module)

    def s_If(self, s, st, fr):
        c = self.expr(s.test, st, fr)
        tv = self.truth(c)
        if tv is True:
            self.ev('static_if', (c,), st, fr, s, x=True)
            return self.block(s.body, st, fr)
        if tv is False:
            self.ev('static_if', (c,), st, fr, s, x=False)
            return self.block(s.orelse, st, fr)
        st2 = st.copy()
        self.addguard(st, c, True)
        self.addguard(st2, c, False)
        a = self.block(s.body, st, fr)
        b = self.block(s.orelse, st2, fr)
        return self.merge([x for x in (a, b) if x is not None], s)

    def s_Match(self, s, st, fr):
        tmp = '<match %d>' % s.lineno
        st.env[tmp] = self.expr(s.subject, st, fr)
        return self.cases(s, list(s.cases), tmp, st, fr)

    def cases(self, s, cases, tmp, st, fr):
        if not cases:
            return st
        c, rest = cases[0], cases[1:]
        subj = st.env[tmp]
        cond = self.pattern(c.pattern, subj, st, fr, s)
        if c.guard is not None:
            g = self.expr(c.guard, st, fr)
            t = self.truth(cond)
            cond = g if t is True else cond if t is False else V('bool', (cond, g), 'and', s)
        tv = self.truth(cond)
        if tv is True:
            return self.block(c.body, st, fr)
        if tv is False:
            return self.cases(s, rest, tmp, st, fr)
        st2 = st.copy()
        self.addguard(st, cond, True)
        self.addguard(st2, cond, False)
        a = self.block(c.body, st, fr)
        b = self.cases(s, rest, tmp, st2, fr)
        return self.merge([x for x in (a, b) if x is not None], s)

    def pattern(self, p, subj, st, fr, s):
        if isinstance(p, ast.MatchValue):
            return self.compare('Eq', subj, self.expr(p.value, st, fr), st, fr, s)
        if isinstance(p, ast.MatchSingleton):
            return self.compare('Is', subj, const(p.value), st, fr, s)
        if isinstance(p, ast.MatchOr):
            vs = [self.pattern(q, subj, st, fr, s) for q in p.patterns]
            if any(self.truth(v) is True for v in vs):
                return const(True)
            vs = [v for v in vs if self.truth(v) is None]
            return const(False) if not vs else vs[0] if len(vs) == 1 else V('bool', vs, 'or', s)
        if isinstance(p, ast.MatchAs):
            c = const(True) if p.pattern is None else self.pattern(p.pattern, subj, st, fr, s)
            if p.name:
                st.env[p.name] = subj
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            cls = self.expr(p.cls, st, fr)
            r = self.istype(subj, cls)
            return const(r) if r is not None else V('call', (subj, cls), ('builtins.isinstance', ()), s)
        for q in ast.walk(p):
            n = getattr(q, 'name', None)
            if isinstance(n, str):
                st.env[n] = self.unk('match capture', s, fr)
        return self.unk('match pattern', s, fr)

    def merge(self, sts, node):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        g0 = sts[0].guards
        n = len(g0)
        for s in sts[1:]:
            k = 0
            while k < min(n, len(s.guards)) and s.guards[k][0] is g0[k][0] and s.guards[k][1] == g0[k][1]:
                k += 1
            n = k
        common = g0[:n]
        if all(self.zguard(s.guards[n:]) for s in sts):
            common = common + ((V('zeroiter', (), 0, node), True),)
        env = {}
        names = set()
        for s in sts:
            names |= set(s.env)
        for nm in names:
            alts = []
            for s in sts:
                if nm in s.env:
                    alts.append((s.env[nm], s.guards[n:]))
                else:
                    alts.append((V('undef', (), nm, node), s.guards[n:]))
            env[nm] = self.mkjoin(alts, node)
        heap = {}
        keys = set()
        for s in sts:
            keys |= set(s.heap)
        for k in keys:
            alts = [(s.heap[k], s.guards[n:]) for s in sts if k in s.heap]
            miss = [s for s in sts if k not in s.heap]
            if miss and k[0] != 'inst':
                # field not written on the other path: its initial value
                root = self.heaproot.get(k[0]) if hasattr(self, 'heaproot') else None
                if root is not None:
                    for s in miss:
                        alts.append((V('attr', (root,), k[1], node), s.guards[n:]))
            heap[k] = self.mkjoin(alts, node)
        return State(env, heap, common)

    def mkjoin(self, alts, node):
        ks = {}
        for v, g in alts:
            if v.op == 'join':
                pass
            ks.setdefault(v.key, []).append((v, g))
        if len(ks) == 1:
            return alts[0][0]
        vals, gs = [], []
        for lst in ks.values():
            vals.append(lst[0][0])
            gs.append(tuple(lst[0][1]) if len(lst) == 1 else ())
        return V('join', vals, tuple(gs), node)

    # ---------------------------------------------------------------- loops
    @staticmethod
    def assigned(body):
        names = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
        return names

    def literal_elems(self, v):
        """elements of a literal tuple/list that is never mutated"""
        if v.op == 'narrow':
            v = v.args[0]
        if v.op == 'tuple':
            return list(v.args)
        if v.op == 'const' and isinstance(v.x, tuple):
            return [const(c) for c in v.x]
        if v.op == 'new' and v.x in ('list',):
            init = self.objinit.get(v.uid)
            if init is not None and not self.mutated(v):
                return list(init)
            made = self.objmade.get(v.uid)
            if init is not None and made is not None and v.uid not in self.maymut:
                # appended to, once each, where the list was made
                evs = [e for e in self.byobj.get(v.uid, ()) if e.kind != 'method' or e.x in MUTATORS]
                if all(e.kind == 'method' and e.x == 'append' and len(e.args) == 2 and e.loops == made[0] and e.guards == made[1] for e in evs):
                    return list(init) + [e.args[1] for e in evs]
        if v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(v.args) == 1 and not self.mutated(v):
            return self.literal_elems(v.args[0])
        if v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.asarray') and v.args and not self.mutated(v) and (v.args[0].op in ('new', 'tuple') or v.args[0].op == 'call' and v.args[0].x[0] in ('numpy.array', 'numpy.asarray')):
            return self.literal_elems(v.args[0])
        if v.op == 'call' and v.x[0] == 'builtins.enumerate' and len(v.args) == 1:
            e = self.literal_elems(v.args[0])
            if e is not None:
                return [V('tuple', (const(i), x), None, v.node) for i, x in enumerate(e)]
        if v.op == 'call' and v.x[0] == 'builtins.zip':
            es = [self.literal_elems(a) for a in v.args]
            if es and all(e is not None for e in es):
                return [V('tuple', t, None, v.node) for t in zip(*es)]
        if v.op == 'call' and v.x[0] == 'builtins.range' and all(is_const(a) and isinstance(a.x, int) for a in v.args):
            r = range(*[a.x for a in v.args])
            if len(r) <= 8:
                return [const(i) for i in r]
        if v.op == 'call' and v.x[0] == 'builtins.reversed' and len(v.args) == 1:
            e = self.literal_elems(v.args[0])
            return e[::-1] if e is not None else None
        return None

    PURE = {'len', 'zip', 'enumerate', 'isinstance', 'range', 'sorted', 'list', 'tuple', 'set', 'dict', 'str', 'int', 'float', 'complex', 'abs', 'sum', 'min', 'max', 'any', 'all', 'print', 'map', 'type', 'iter', 'reversed', 'bool', 'repr'}

    def premark(self, body, st):
        """objects that a loop body may change on an earlier pass"""
        def val(e):
            if isinstance(e, ast.Name):
                return st.env.get(e.id)
            if isinstance(e, ast.Attribute):
                b = val(e.value)
                if b is None:
                    return None
                rs = self.roots(b)
                return st.heap.get(self.hkey(rs[0], e.attr)) if len(rs) == 1 else None
            return None

        def mark(e):
            v = val(e)
            if v is not None:
                for r in self.roots(v):
                    if r.op == 'new':
                        self.maymut.add(r.uid)
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute):
                        if f.attr in MUTATORS:
                            mark(f.value)
                        if isinstance(f.value, ast.Name) and f.value.id in ('np', 'nla', 'ss', 'numpy', 'ssla', 'sla', 'la'):
                            continue
                    elif isinstance(f, ast.Name) and f.id in self.PURE:
                        continue
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        mark(a)
                elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    mark(n.value)
                elif isinstance(n, ast.AugAssign):
                    mark(n.target)

    def mutated(self, v):
        if v.uid in self.maymut:
            return True
        for e in self.byobj.get(v.uid, ()):
            if True:
                if e.kind == 'method' and e.x not in MUTATORS:
                    continue
                return True
        return False

    def s_For(self, s, st, fr):
        it = self.expr(s.iter, st, fr)
        it = self.iterof(it, st, fr, s)
        lit = self.literal_elems(it)
        if lit is not None and len(lit) <= 8:
            U = Loop('unrolled', s, fr.fn, None)
            fr.loops.append(U)
            for v in lit:
                self.assign(s.target, v, st, fr, s)
                end = self.block(s.body, st, fr)
                st = self.merge(([end] if end is not None else []) + U.ends, s)
                U.ends = []
                if st is None:
                    break
            fr.loops.pop()
            if s.orelse and st is not None:
                st = self.block(s.orelse, st, fr)
            return self.merge(([st] if st is not None else []) + U.brk, s)
        L = self.newloop('for', s, fr, st)
        L.iter = it
        self.premark(s.body, st)
        names = self.assigned(s.body) | self.assigned([ast.Expr(s.target)]) if False else self.assigned(s.body)
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                names.add(n.id)
        st0 = st.copy()
        self.makemus(L, names, st, s, exclude=self.targetnames(s.target))
        pre = st.copy()
        self.loopstack.append(L)
        fr.loops.append(L)
        self.assign(s.target, self.elem(it, L, st, fr, s), st, fr, s)
        end = self.block(s.body, st, fr)
        self.loopstack.pop()
        fr.loops.pop()
        return self.endloop(L, pre, end, names, s, fr, s.orelse, None)

    def targetnames(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def newloop(self, kind, node, fr, st):
        L = Loop(kind, node, fr.fn, self.loopstack[-1] if self.loopstack else None)
        L.guards = st.guards
        self.loops[L.id] = L
        return L

    def makemus(self, L, names, st, node, exclude=()):
        for n in sorted(names):
            if n in st.env and n not in exclude:
                init = st.env[n]
                mu = V('mu', (init,), (L.id, n), node)
                L.mus[n] = mu
                st.env[n] = mu

    def endloop(self, L, pre, end, names, s, fr, orelse, exitguard):
        backs = list(L.ends)
        if end is not None:
            backs.append(end)
        L.ends = backs
        for n, mu in L.mus.items():
            for b in backs:
                if n in b.env:
                    v = b.env[n]
                    if v is not mu:
                        mu.back.append(v)
        out = pre.copy()
        # names first bound inside the body
        for n in names:
            if n not in L.mus:
                alts = [(b.env[n], ()) for b in backs if n in b.env]
                # a pass that leaves the name unbound: only the first-pass undef of
                # the body itself counts, an empty iteration does not
                if n in pre.env and not L.mus.get(n):
                    alts.append((pre.env[n], ()))
                if alts:
                    out.env[n] = self.mkjoin(alts, s)
        # heap written in the body
        keys = set()
        for b in backs:
            keys |= set(b.heap)
        for k in keys:
            alts = [(b.heap[k], ()) for b in backs if k in b.heap]
            if k in pre.heap:
                alts.append((pre.heap[k], ()))
            out.heap[k] = self.mkjoin(alts, s)
        if exitguard is not None and not is_const(exitguard, True):
            self.addguard(out, exitguard, False)
        zn = len(L.guards)
        if not L.brk and all(self.zguard(b.guards[zn:]) for b in backs) and not (L.kind == 'while' and L.test is not None and L.test.op == 'const'):
            # the body never completes: only an empty iterable gets past it
            out.guards = out.guards + ((V('zeroiter', (L.iter,) if L.iter is not None else (), L.id, s), True),)
        if orelse:
            out = self.block(orelse, out, fr)
        if exitguard is not None and is_const(exitguard, True):
            return self.merge(L.brk, s)
        if L.brk:
            g = out.guards if out is not None else ()
            res = self.merge(([out] if out is not None else []) + L.brk, s)
            return res
        return out

    @staticmethod
    def zguard(gs):
        return any(c.op == 'zeroiter' for c, p in gs)

    def s_While(self, s, st, fr):
        names = self.assigned(s.body) | {n.target.id for n in ast.walk(s.test) if isinstance(n, ast.NamedExpr)}
        L = self.newloop('while', s, fr, st)
        self.premark(s.body + [ast.Expr(s.test)], st)
        self.makemus(L, names, st, s)
        pre = st.copy()
        self.loopstack.append(L)
        fr.loops.append(L)
        c = self.expr(s.test, st, fr)
        L.test = c
        self.addguard(st, c, True) if self.truth(c) is None else None
        if self.truth(c) is False:
            self.loopstack.pop()
            fr.loops.pop()
            return pre
        end = self.block(s.body, st, fr)
        self.loopstack.pop()
        fr.loops.pop()
        return self.endloop(L, pre, end, names, s, fr, s.orelse, const(True) if self.truth(c) is True else c)

    def s_Break(self, s, st, fr):
        fr.loops[-1].brk.append(st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1].ends.append(st)
        return None

    def s_Try(self, s, st, fr):
        pre = st.copy()
        a = self.block(s.body, st, fr)
        if a is not None and s.orelse:
            a = self.block(s.orelse, a, fr)
        outs = [a]
        for h in s.handlers:
            hs = pre.copy()
            self.ev('handler', (), hs, fr, h)
            if h.name:
                hs.env[h.name] = V('unknown', (), 'exc', h)
            hs.guards = hs.guards + ((V('unknown', (), 'except', h), True),)
            outs.append(self.block(h.body, hs, fr))
        out = self.merge([o for o in outs if o is not None], s)
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, pre.copy(), fr)
                return None
            out = self.block(s.finalbody, out, fr)
        return out

    def s_With(self, s, st, fr):
        for i in s.items:
            v = self.expr(i.context_expr, st, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, fr, s)
        return self.block(s.body, st, fr)

    # ---------------------------------------------------------------- iteration
    def iterof(self, v, st, fr, node):
        """value actually iterated: resolves __iter__ of library classes"""
        t = self.T.ty(v)
        c = self.T.repo_class(t)
        if c is not None and '__iter__' in c.methods and c.methods['__iter__'].qual not in self.opaque:
            r = self.call_func(c.methods['__iter__'], [v], {}, st, fr, node)
            if r.op == 'call' and r.x[0] == 'builtins.iter' and r.args:
                return r.args[0]
            return r
        if v.op == 'call' and v.x[0] == 'builtins.iter' and len(v.args) == 1:
            return v.args[0]
        if v.op == 'narrow':
            return v
        return v

    def elem(self, it, L, st, fr, node):
        if it.op == 'call':
            n = it.x[0]
            if n == 'builtins.enumerate':
                base = self.iterof(it.args[0], st, fr, node)
                i = V('idx', (base,), (L.id, 'enum'), node)
                if len(it.args) > 1 and not is_const(it.args[1], 0):
                    i = V('bin', (i, it.args[1]), 'Add', node)
                return V('tuple', (i, self.elem(base, L, st, fr, node)), None, node)
            if n == 'builtins.zip':
                return V('tuple', [self.elem(self.iterof(a, st, fr, node), L, st, fr, node) for a in it.args], None, node)
            if n in ('builtins.range', 'numpy.arange'):
                return V('idx', it.args, (L.id, 'range'), node)
            if n in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(it.args) == 1 and not self.mutated(it):
                return self.elem(self.iterof(it.args[0], st, fr, node), L, st, fr, node)
            if n in ('builtins.map',) and len(it.args) == 2:
                x = self.elem(self.iterof(it.args[1], st, fr, node), L, st, fr, node)
                return self.call_value(it.args[0], [x], {}, st, fr, node)
        r = V('elem', (it,), L.id, node)
        if self.hook is not None:
            h = self.hook(r)
            if h is not None:
                return h
        return r

    # ---------------------------------------------------------------- expressions
    def expr(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.expr(c, st, fr)
            return self.unk('expr ' + type(e).__name__, e, fr)
        v = m(e, st, fr)
        if v.op in ('bin', 'aug', 'mcall', 'call', 'item', 'cmp', 'rcall'):
            self.vguards.setdefault(v.uid, st.guards)
        return v

    def e_Constant(self, e, st, fr):
        return const(e.value, e)

    def e_Name(self, e, st, fr):
        return self.name(e.id, st, fr, e)

    def name(self, n, st, fr, node):
        if n in st.env:
            v = st.env[n]
            if v.op == 'undef' or v.op == 'join' and any(a.op == 'undef' for a in v.args):
                self.ev('maybe_undef', (v,), st, fr, node, x=n)
            return v
        f = fr.fn
        cl = f.closure
        depth = 0
        while cl is not None and depth < 6:
            if n in cl:
                return cl[n]
            cl = cl.get('<closure>') if isinstance(cl, dict) else None
            depth += 1
        r = self.prog.lookup(f.module.name, n)
        if r is not None:
            return self.refval(r, node, fr)
        if n in BUILTINS:
            return V('ext', (), 'builtins.' + n, node)
        self.ev('undefined_name', (), st, fr, node, x=n)
        return self.unk('name ' + n, node, fr)

    def refval(self, r, node, fr):
        if r[0] == 'func':
            return V('func', (), r[1], node)
        if r[0] == 'class':
            return V('cls', (), r[1], node)
        if r[0] == 'mod':
            return V('mod', (), r[1], node)
        if r[0] == 'repomod':
            return V('repomod', (), r[1], node)
        if r[0] == 'ext':
            return V('ext', (), r[1], node)
        return self.global_value(r[1], r[2], node)

    def global_value(self, mname, name, node):
        """module-level value: evaluated abstractly from the module body"""
        if mname not in self.gcache:
            self.gcache[mname] = {}
            m = self.prog.modules[mname]
            fn = FuncRef(mname + '.<module>', m.tree, m)
            fr = Frame(fn, ())
            st = State(self.gcache[mname], {}, ())
            saved, self.loopstack = self.loopstack, []
            tr, self.trace = self.trace, []
            body = [s for s in m.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef))]
            self._ginit.append(mname)
            end = self.block(body, st, fr)
            self._ginit.pop()
            gtr, self.trace = self.trace, tr
            self.trace = [self._mark(e) for e in gtr] + self.trace if not tr else self.trace
            self.gtrace = self.gtrace + gtr
            self.loopstack = saved
            if end is not None:
                self.gcache[mname].update(end.env)
        g = self.gcache[mname]
        if name in g:
            v = g[name]
            return v
        return V('global', (), (mname, name), node)

    def _mark(self, e):
        e.stack = ('<module init>',)
        return e

    def e_Attribute(self, e, st, fr):
        b = self.expr(e.value, st, fr)
        return self.getattr(b, e.attr, st, fr, e)

    def roots(self, v, seen=None):
        """objects a value may denote, looking through joins, mus, narrowing"""
        seen = set() if seen is None else seen
        if v.uid in seen:
            return []
        seen.add(v.uid)
        if v.op == 'join':
            r = []
            for a in v.args:
                r += self.roots(a, seen)
            return r
        if v.op == 'mu':
            r = self.roots(v.args[0], seen)
            for b in v.back:
                r += self.roots(b, seen)
            return r
        if v.op == 'narrow':
            inner = self.roots(v.args[0], seen)
            return [x if x.op in ('inst', 'new') else V('narrow', (x,), v.x, v.node) if x.op != 'narrow' else x for x in inner]
        if v.op == 'aug' and self.T.mutable(v.args[0]):
            return self.roots(v.args[0], seen)
        return [v]

    def getattr(self, b, name, st, fr, node):
        if b.op == 'mod':
            return V('ext', (), b.x + '.' + name, node)
        if b.op == 'ext':
            return V('ext', (), b.x + '.' + name, node)
        if b.op == 'repomod':
            r = self.prog.lookup(b.x, name)
            if r is None and name in self.prog.modules:
                return V('repomod', (), name, node)
            return self.refval(r, node, fr) if r else self.unk('attr', node, fr)
        if b.op == 'cls':
            if name in b.x.methods:
                return V('func', (), b.x.methods[name], node)
            if name in b.x.attrs:
                return self.expr(b.x.attrs[name], State({}, {}, ()), Frame(FuncRef('cls', ast.parse('lambda: 0').body[0].value, b.x.module), ()))
            return self.unk('class attr ' + name, node, fr)
        rs = [r for r in self.roots(b) if r.op != 'undef' and not (r.op == 'const' and r.x is None)] or [b]
        gs = [()] * len(rs)
        if b.op == 'join' and all(a.op not in ('join', 'mu') for a in b.args):
            ps = [self.roots(a) for a in b.args]
            if sum(len(p) for p in ps) == len(rs) and all(len(p) == 1 for p in ps):
                gs = list(b.x)
        if b.op == 'mu' and all(r.op not in ('inst', 'new', 'narrow') and self.hkey(r, name) not in st.heap for r in rs):
            c = self.T.repo_class(self.T.ty(b))
            if c is not None and c.methods.get(name) is None:
                return V('attr', (b,), name, node)
        res = []
        for r in rs:
            k = self.hkey(r, name)
            if k in st.heap:
                res.append(st.heap[k])
                continue
            t = self.T.ty(r)
            c = self.T.repo_class(t)
            if c is not None:
                m = c.methods.get(name)
                if m is not None:
                    if m.prop:
                        res.append(self.call_func(m, [r], {}, st, fr, node))
                    elif m.static:
                        res.append(V('func', (), m, node))
                    else:
                        res.append(V('bound', (r,), m, node))
                    continue
                if name in c.attrs and r.op == 'inst':
                    res.append(self.expr(c.attrs[name], State({}, {}, ()), Frame(FuncRef('cls', ast.parse('lambda: 0').body[0].value, c.module), ())))
                    continue
                self.ev('attr_read', (r,), st, fr, node, x=name)
            res.append(V('attr', (r,), name, node))
        return self.mkjoin(list(zip(res, gs)), node)

    def hkey(self, r, name):
        if r.op == 'narrow':
            r = r.args[0]
        if r.op == 'inst':
            return ('inst', r.uid, name)
        k = r.key
        if not hasattr(self, 'heaproot'):
            self.heaproot = {}
        self.heaproot[('v', k)] = r
        return (('v', k), name)

    def setattr(self, b, name, v, st, fr, s, aug=False):
        rs = self.roots(b)
        self.ev('store_attr', (b, v), st, fr, s, x=(name, aug))
        if b.op in ('mod', 'ext', 'repomod'):
            return
        strong = len(rs) == 1
        for r in rs:
            k = self.hkey(r, name)
            if strong or k not in st.heap:
                st.heap[k] = v if strong else self.mkjoin([(v, ()), (V('attr', (r,), name, s), ())], s)
            else:
                st.heap[k] = self.mkjoin([(v, ()), (st.heap[k], ())], s)

    def index(self, e, st, fr):
        if isinstance(e, ast.Slice):
            return V('slice', [self.expr(x, st, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step)], None, e)
        if isinstance(e, ast.Tuple):
            return V('tuple', [self.index(x, st, fr) for x in e.elts], None, e)
        return self.expr(e, st, fr)

    e_Slice = lambda self, e, st, fr: self.index(e, st, fr)

    def e_Subscript(self, e, st, fr):
        b = self.expr(e.value, st, fr)
        i = self.index(e.slice, st, fr)
        return self.getitem(b, i, st, fr, e)

    def getitem(self, b, i, st, fr, node):
        t = self.T.ty(b)
        c = self.T.repo_class(t)
        if c is not None and '__getitem__' in c.methods:
            return self.call_func(c.methods['__getitem__'], [b, i], {}, st, fr, node)
        if i.op == 'slice' and all(a.op == 'const' for a in i.args):
            lit = self.literal_elems(b) if b.op in ('new', 'tuple', 'const', 'narrow') else None
            if lit is not None:
                try:
                    part = lit[slice(*[a.x for a in i.args])]
                    return V('tuple', part, None, node) if b.op in ('tuple', 'const') else self.mklist('list', part, st, fr, node)
                except TypeError:
                    pass
            if is_const(b) and isinstance(b.x, str):
                return const(b.x[slice(*[a.x for a in i.args])], node)
        if i.op == 'idx' and b.op in ('new', 'narrow'):
            lit = self.literal_elems(b)
            if lit is not None and len(lit) == 1:
                return lit[0]
        if is_const(i) and isinstance(i.x, int) and not isinstance(i.x, bool):
            lit = self.literal_elems(b)
            if lit is not None and -len(lit) <= i.x < len(lit):
                return lit[i.x]
            if b.op == 'join':
                vals = []
                for a, g in zip(b.args, b.x):
                    if a.op == 'undef' or (a.op == 'const' and a.x is None):
                        continue
                    vals.append((self.getitem(a, i, st, fr, node), g))
                if vals:
                    return self.mkjoin(vals, node)
            if b.op == 'elem':
                # constant position of an element of a container of tuples
                p = self.elem_tuple(b)
                if p is not None and -len(p) <= i.x < len(p):
                    return p[i.x]
        if b.op in ('new',) and b.x == 'dict':
            d = self.objinit.get(b.uid)
            if d is not None and is_const(i) and not self.mutated(b):
                for k, v in d:
                    if k is not None and is_const(k) and k.key == i.key:
                        return v
        if b.op == 'new' and b.x == 'dict' and i.op == 'unlisted' and self.const_keys(b):
            # KeyError
            st.guards = st.guards + ((const(False), True),)
            return V('undef', (), 'noreturn', node)
        if b.op == 'new' and b.x == 'dict' and self.constlike(i):
            # constant dictionary filled by stores under constant keys
            hit = None
            ok = True
            for k, v in self.dict_entries(b):
                if k is None or not self.constlike(k):
                    ok = False
                    break
                if k.key == i.key:
                    hit = v
            if ok and hit is not None:
                return hit
        r = V('item', (b, i), None, node)
        if self.hook is not None:
            h = self.hook(r)
            if h is not None:
                return h
        return r

    def const_keys(self, b):
        return all(k is not None and self.constlike(k) for k, v in self.dict_entries(b))

    def constlike(self, v):
        return v.op == 'const' or (v.op == 'tuple' and all(self.constlike(a) for a in v.args))

    def dict_entries(self, b):
        for k, v in (self.objinit.get(b.uid) or []):
            yield k, v
        for e in list(self.byobj.get(b.uid, ())):
            if e.kind == 'store_item' and e.args[0] is b:
                yield e.args[1], e.args[2]
            elif e.kind in ('aug_item',) and e.args[0] is b:
                yield None, None
            elif e.kind == 'method' and e.args[0] is b and e.x == 'update' and len(e.args) == 2 and e.args[1].op == 'new' and e.args[1].x == 'dict' and e.args[1] is not b:
                for kv in self.dict_entries(e.args[1]):
                    yield kv
            elif e.kind == 'method' and e.args[0] is b and e.x in MUTATORS:
                yield None, None

    def elem_tuple(self, v):
        base = v.args[0]
        alts = []
        for x in self.contents(base):
            if x.op == 'tuple':
                alts.append(x.args)
            else:
                return None
        if len(alts) == 1:
            return alts[0]
        return None

    def contents(self, base):
        """values put into a container object (flow-insensitively)"""
        while base.op == 'narrow':
            base = base.args[0]
        if base.op == 'call' and base.x[0] in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed') and base.args:
            return self.contents(base.args[0])
        if base.op in ('mu', 'join'):
            r = []
            for b in self.roots(base):
                while b.op == 'narrow':
                    b = b.args[0]
                if b.op not in ('mu', 'join'):
                    r += self.contents(b)
            return r
        if base.op != 'new':
            return []
        out = []
        init = self.objinit.get(base.uid) or []
        if base.x == 'dict':
            out += [k for k, v in init if k is not None]
        else:
            out += list(init)
        for e in self.byobj.get(base.uid, ()):
            if e.kind == 'method' and e.x in ('append', 'add'):
                out.append(e.args[1])
            elif e.kind == 'method' and e.x == 'insert' and len(e.args) > 2:
                out.append(e.args[2])
            elif e.kind == 'store_item' and base.x != 'dict':
                out.append(e.args[2])
            elif e.kind == 'store_item' and base.x == 'dict':
                out.append(e.args[1])
        return out

    def e_Tuple(self, e, st, fr):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st, fr)
                lit = self.literal_elems(v)
                if lit is None:
                    return V('call', (v,), ('builtins.tuple', ()), e)
                vals += lit
            else:
                vals.append(self.expr(x, st, fr))
        return V('tuple', vals, None, e)

    def mklist(self, kind, vals, st, fr, node):
        v = V('new', (), kind, node, fr.fn.module)
        self.objinit[v.uid] = list(vals)
        self.objmade[v.uid] = (tuple(self.loopstack), st.guards)
        return v

    def e_List(self, e, st, fr):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st, fr)
                lit = self.literal_elems(v)
                if lit is None:
                    vals.append(V('elem', (v,), 0, x))
                else:
                    vals += lit
            else:
                vals.append(self.expr(x, st, fr))
        return self.mklist('list', vals, st, fr, e)

    def e_Set(self, e, st, fr):
        return self.mklist('set', [self.expr(x, st, fr) for x in e.elts], st, fr, e)

    def e_Dict(self, e, st, fr):
        v = V('new', (), 'dict', e, fr.fn.module)
        self.objinit[v.uid] = [(self.expr(k, st, fr) if k is not None else None, self.expr(w, st, fr)) for k, w in zip(e.keys, e.values)]
        return v

    def comp(self, e, kind, st, fr):
        v = V('new', (), kind, e, fr.fn.module)
        self.objinit[v.uid] = []
        saved = dict(st.env)
        sg = st.guards
        n0 = len(self.loopstack)

        def rec(i, st):
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.expr(e.key, st, fr)
                    w = self.expr(e.value, st, fr)
                    self.ev('store_item', (v, k, w), st, fr, e)
                else:
                    w = self.expr(e.elt, st, fr)
                    self.ev('method', (v, w), st, fr, e, x='add' if kind == 'set' else 'append')
                return
            g = e.generators[i]
            it = self.iterof(self.expr(g.iter, st, fr), st, fr, g.iter)
            lit = self.literal_elems(it)
            if lit is not None and len(lit) <= 8 and not g.ifs:
                for x in lit:
                    self.assign(g.target, x, st, fr, e)
                    rec(i + 1, st)
                return
            L = self.newloop('comp', e, fr, st)
            L.iter = it
            self.loopstack.append(L)
            self.assign(g.target, self.elem(it, L, st, fr, g.iter), st, fr, e)
            dead = False
            for c in g.ifs:
                cv = self.expr(c, st, fr)
                t = self.truth(cv)
                if t is False:
                    dead = True
                elif t is None:
                    self.addguard(st, cv, True)
            if not dead:
                rec(i + 1, st)
            self.loopstack.pop()

        rec(0, st)
        stuck = len(self.loopstack) == n0 and (self.isdead(st) or self.zguard(st.guards[len(sg):]))
        del self.loopstack[n0:]
        for n in list(st.env):
            if n not in saved:
                del st.env[n]
        st.env.update(saved)
        st.guards = sg + ((V('zeroiter', (), 0, e), True),) if stuck else sg
        # literal comprehension without loops: keep as literal list
        if kind in ('list', 'set'):
            evs = [x for x in self.byobj.get(v.uid, ()) if x.kind == 'method']
            if evs and all(len(x.loops) == n0 and x.guards == sg for x in evs) and kind == 'list':
                self.objinit[v.uid] = [x.args[1] for x in evs]
                dead = {id(x) for x in evs}
                self.trace = [x for x in self.trace if id(x) not in dead]
                self.byobj[v.uid] = [x for x in self.byobj[v.uid] if id(x) not in dead]
        return v

    def e_ListComp(self, e, st, fr):
        return self.comp(e, 'list', st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, 'list', st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp(e, 'set', st, fr)

    def e_DictComp(self, e, st, fr):
        return self.comp(e, 'dict', st, fr)

    def e_Lambda(self, e, st, fr):
        f = FuncRef(fr.fn.qual + '.<lambda>', e, fr.fn.module, None, st.env)
        return V('func', (), f, e)

    def e_IfExp(self, e, st, fr):
        c = self.expr(e.test, st, fr)
        t = self.truth(c)
        if t is True:
            return self.expr(e.body, st, fr)
        if t is False:
            return self.expr(e.orelse, st, fr)
        n = len(st.guards)
        s1, s2 = st.copy(), st.copy()
        self.addguard(s1, c, True)
        self.addguard(s2, c, False)
        a = self.expr(e.body, s1, fr)
        b = self.expr(e.orelse, s2, fr)
        st.heap.update(s1.heap)
        st.heap.update(s2.heap)
        return self.mkjoin([(a, s1.guards[n:]), (b, s2.guards[n:])], e)

    def e_BoolOp(self, e, st, fr):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = []
        sub = st.copy()
        for x in e.values:
            v = self.expr(x, sub, fr)
            t = self.truth(v)
            if t is (op == 'or'):
                if not vals:
                    return v
                vals.append(v)
                break
            if t is None or x is e.values[-1]:
                if t is None:
                    self.addguard(sub, v, op == 'and')
                if t is not None and vals:
                    continue
                vals.append(v)
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return const(op == 'and', e)
        return V('bool', vals, op, e)

    def e_UnaryOp(self, e, st, fr):
        v = self.expr(e.operand, st, fr)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth(v)
            if t is not None:
                return const(not t, e)
            if v.op == 'un' and v.x == 'not':
                return v.args[0]
            return V('un', (v,), 'not', e)
        c = self.T.repo_class(self.T.ty(v))
        if c is not None and op == 'USub' and '__neg__' in c.methods:
            return self.call_func(c.methods['__neg__'], [v], {}, st, fr, e)
        if v.op == 'const' and isinstance(v.x, (int, float, complex)) and not isinstance(v.x, bool):
            if op == 'USub':
                return const(-v.x, e)
            if op == 'UAdd':
                return v
        return V('un', (v,), {'USub': 'neg', 'UAdd': 'pos', 'Invert': 'inv'}[op], e)

    def fold(self, op, a, b, node):
        if a.op == 'const' and b.op == 'const':
            x, y = a.x, b.x
            num = (int, float, complex)
            try:
                if isinstance(x, num) and isinstance(y, num):
                    r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y, 'Pow': lambda: x ** y if abs(y) < 32 else None,
                         'Mod': lambda: x % y, 'FloorDiv': lambda: x // y, 'LShift': lambda: x << y if y < 64 else None, 'BitAnd': lambda: x & y}.get(op, lambda: None)()
                    if r is not None:
                        return const(r, node)
                if isinstance(x, str) and isinstance(y, str) and op == 'Add':
                    return const(x + y, node)
            except Exception:
                return None
        if op == 'Add' and a.op == 'tuple' and b.op == 'tuple':
            return V('tuple', a.args + b.args, None, node)
        return None

    def e_BinOp(self, e, st, fr):
        a = self.expr(e.left, st, fr)
        b = self.expr(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, fr, e)

    DUN = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'), 'Div': ('__truediv__', '__rtruediv__'), 'MatMult': ('__matmul__', '__rmatmul__'), 'Pow': ('__pow__', '__rpow__')}

    def binop(self, op, a, b, st, fr, node):
        f = self.fold(op, a, b, node)
        if f is not None:
            return f
        if op in self.DUN:
            l, r = self.DUN[op]
            ca = self.T.repo_class(self.T.ty(a))
            if ca is not None and l in ca.methods:
                return self.call_func(ca.methods[l], [a, b], {}, st, fr, node)
            cb = self.T.repo_class(self.T.ty(b))
            if cb is not None and r in cb.methods:
                return self.call_func(cb.methods[r], [b, a], {}, st, fr, node)
        if op == 'Add' and a.op == 'new' and a.x == 'list' and b.op == 'new' and b.x == 'list':
            la, lb = self.literal_elems(a), self.literal_elems(b)
            if la is not None and lb is not None:
                return self.mklist('list', la + lb, st, fr, node)
        return V('bin', (a, b), op, node, fr.fn.module)

    def e_Compare(self, e, st, fr):
        l = self.expr(e.left, st, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.expr(r, st, fr)
            res.append(self.compare(type(op).__name__, l, rv, st, fr, e))
            l = rv
        if len(res) == 1:
            return res[0]
        if any(self.truth(x) is False for x in res):
            return const(False, e)
        res = [x for x in res if self.truth(x) is None] or [const(True, e)]
        return res[0] if len(res) == 1 else V('bool', res, 'and', e)

    NEG = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}

    def compare(self, op, a, b, st, fr, node):
        if op in self.NEG:
            v = self.compare(self.NEG[op], a, b, st, fr, node)
            t = self.truth(v)
            if t is not None:
                return const(not t, node)
            if v.op == 'un' and v.x == 'not':
                return v.args[0]
            return V('un', (v,), 'not', node)
        if op == 'In':
            c = self.T.repo_class(self.T.ty(b))
            if c is not None and '__contains__' in c.methods:
                return self.call_func(c.methods['__contains__'], [b, a], {}, st, fr, node)
            lit = self.literal_elems(b)
            if b.op == 'const' and isinstance(b.x, str) and a.op == 'const' and isinstance(a.x, str):
                return const(a.x in b.x, node)
            if b.op == 'new' and b.x == 'set' and not self.mutated(b):
                lit = self.objinit.get(b.uid)
            if lit is not None:
                ts = [self.truth(self.eq(a, x, node)) for x in lit]
                if any(t is True for t in ts):
                    return const(True, node)
                if ts and all(t is False for t in ts) or not ts:
                    return const(False, node)
                return V('cmp', (a, V('tuple', lit, None, node)), 'In', node)
            return V('cmp', (a, b), 'In', node)
        if op in ('Eq',):
            c = self.T.repo_class(self.T.ty(a))
            if c is not None and '__eq__' in c.methods and not is_const(b):
                return self.call_func(c.methods['__eq__'], [a, b], {}, st, fr, node)
            return self.eq(a, b, node)
        if op == 'Is':
            if a.op == 'const' and b.op == 'const':
                return const(a.x is b.x or (a.x == b.x and type(a.x) is type(b.x)), node)
            for x, y in ((a, b), (b, a)):
                if y.op == 'const' and y.x is None and self.nonnull(x):
                    return const(False, node)
                if y.op == 'const' and y.x is None and x.op == 'param' and x.x[2] == 'none':
                    return const(True, node)
                if y.op in ('ext', 'cls') and x.op == 'call' and x.x[0] == 'builtins.type':
                    r = self.istype(x.args[0], y, exact=True)
                    if r is not None:
                        return const(r, node)
            if a.op in ('const', 'ext', 'cls') and b.op not in ('const', 'ext', 'cls'):
                a, b = b, a
            return V('cmp', (a, b), 'Is', node)
        if op == 'Gt':
            op, a, b = 'Lt', b, a
        elif op == 'GtE':
            op, a, b = 'LtE', b, a
        if a.op == 'const' and b.op == 'const':
            try:
                return const(a.x < b.x if op == 'Lt' else a.x <= b.x, node)
            except TypeError:
                pass
        return V('cmp', (a, b), op, node)

    def eq(self, a, b, node):
        if a.op == 'const' and b.op == 'const':
            return const(a.x == b.x, node)
        for x, y in ((a, b), (b, a)):
            if x.op == 'param' and x.x[2] == '!other' and (y.op == 'const'):
                return const(False, node)
            if x.op == 'unlisted' and y.op == 'const':
                return const(False, node)
            if x.op == 'unlisted' and not self.mentions(y, x):
                return const(False, node)
            if y.op == 'const' and y.x is None and self.nonnull(x):
                return const(False, node)
            if x.op == 'func' and y.op == 'const':
                return const(False, node)
            if y.op in ('ext', 'cls') and x.op == 'call' and x.x[0] == 'builtins.type':
                r = self.istype(x.args[0], y, exact=True)
                if r is not None:
                    return const(r, node)
        if a.op == 'func' and b.op == 'func':
            return const(a.x is b.x, node)
        if a.op == 'new' and b.op == 'new' and a.x == b.x == 'list':
            la, lb = self.literal_elems(a), self.literal_elems(b)
            if la is not None and lb is not None:
                if len(la) != len(lb):
                    return const(False, node)
                ts = [self.truth(self.eq(x, y, node)) for x, y in zip(la, lb)]
                if all(t is True for t in ts):
                    return const(True, node)
                if any(t is False for t in ts):
                    return const(False, node)
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
            ts = [self.truth(self.eq(x, y, node)) for x, y in zip(a.args, b.args)]
            if all(t is True for t in ts):
                return const(True, node)
            if any(t is False for t in ts):
                return const(False, node)
        if a.key == b.key and a.op == 'param':
            return const(True, node)
        if a.op in ('const', 'tuple') and b.op not in ('const', 'tuple'):
            a, b = b, a
        if a.op == 'join' and b.op == 'const':
            ts = {self.truth(self.eq(x, b, node)) for x in a.args}
            if len(ts) == 1 and None not in ts:
                return const(ts.pop(), node)
        return V('cmp', (a, b), 'Eq', node)

    def mentions(self, v, x, seen=None):
        seen = set() if seen is None else seen
        if v.uid in seen:
            return False
        seen.add(v.uid)
        return v.key == x.key or any(self.mentions(a, x, seen) for a in list(v.args) + list(v.back))

    def nonnull(self, v):
        if v.op in ('new', 'inst', 'tuple', 'func', 'cls', 'bin', 'idx', 'bound', 'mod', 'ext', 'unlisted'):
            return True
        if v.op == 'const':
            return v.x is not None
        if v.op == 'param':
            t = v.x[2]
            return t is not None and not t.startswith('?') and t not in ('none', 'unknown')
        if v.op == 'narrow':
            return True
        if v.op == 'call':
            return v.x[0].startswith(('numpy.', 'copy.deepcopy', 'builtins.list', 'scipy.sparse.')) and v.x[0] != 'copy.deepcopy' or (v.x[0] == 'copy.deepcopy' and self.nonnull(v.args[0]))
        if v.op == 'aug':
            return True
        if v.op == 'join':
            return all(self.nonnull(a) for a in v.args)
        return False

    def istype(self, v, cls, exact=False):
        """True/False/None: is value v an instance of cls"""
        t = self.T.ty(v)
        if cls.op == 'tuple':
            rs = [self.istype(v, c, exact) for c in cls.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        name = cls.x.name if cls.op == 'cls' else cls.x if cls.op == 'ext' else None
        if name is None:
            return None
        if v.op == 'unlisted':
            return False
        if v.op == 'join':
            rs = {self.istype(a, cls, exact) for a in v.args}
            return rs.pop() if len(rs) == 1 else None
        if t in ('unknown', '') or t.startswith('?'):
            return None
        base = t.split('[')[0]
        if '|' in base:
            return None
        if cls.op == 'cls':
            return base == name if (self.T.repo_class(base) is not None or base in ('list', 'array', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'sparse', 'none', 'bool', 'complex', 'opaque')) else None
        short = name.split('.')[-1]
        table = {'list': {'builtins.list'}, 'tuple': {'builtins.tuple'}, 'dict': {'builtins.dict'}, 'set': {'builtins.set'}, 'str': {'builtins.str'},
                 'array': {'numpy.ndarray'}, 'int': {'builtins.int'}, 'float': {'builtins.float'}, 'complex': {'builtins.complex'}, 'bool': {'builtins.bool'}}
        known = set().union(*table.values())
        if base in table or self.T.repo_class(base) is not None or base in ('sparse', 'none', 'opaque'):
            if name in table.get(base, ()):
                return True
            if name in known or short in ('integer', 'number', 'floating', 'complexfloating', 'Number', 'Integral'):
                if base == 'int' and short in ('integer', 'Number', 'number', 'Integral'):
                    return None
                if base in ('float', 'complex') and short in ('number', 'floating', 'complexfloating', 'Number'):
                    return None
                if base == 'bool' and name == 'builtins.int':
                    return None
                return False
            if name.startswith('scipy.sparse'):
                return None if base == 'sparse' else False
        return None

    def truth(self, v):
        if v.op == 'const':
            try:
                return bool(v.x)
            except Exception:
                return None
        if v.op == 'cmp' and v.x == 'Is':
            a, b = v.args
        if v.op == 'call' and v.x[0] == 'builtins.isinstance' and len(v.args) == 2:
            return self.istype(v.args[0], v.args[1])
        if v.op == 'un' and v.x == 'not':
            t = self.truth(v.args[0])
            return None if t is None else not t
        if v.op in ('inst', 'func', 'cls', 'mod'):
            return True
        if v.op == 'bool':
            ts = [self.truth(a) for a in v.args]
            if v.x == 'and':
                if any(t is False for t in ts):
                    return False
                return True if all(t is True for t in ts) else None
            if any(t is True for t in ts):
                return True
            return False if all(t is False for t in ts) else None
        if v.op == 'join':
            ts = {self.truth(a) for a in v.args}
            return ts.pop() if len(ts) == 1 else None
        return None

    def e_JoinedStr(self, e, st, fr):
        vals = [self.expr(x.value, st, fr) for x in e.values if isinstance(x, ast.FormattedValue)]
        return V('call', vals, ('builtins.str', ()), e)

    def e_FormattedValue(self, e, st, fr):
        return self.expr(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.expr(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.expr(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def e_Yield(self, e, st, fr):
        v = self.expr(e.value, st, fr) if e.value is not None else NONE
        if fr.yields is None:
            fr.yields = V('new', (), 'list', e, fr.fn.module)
            self.objinit[fr.yields.uid] = []
        self.ev('method', (fr.yields, v), st, fr, e, x='append')
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.expr(e.value, st, fr)
        if fr.yields is None:
            fr.yields = V('new', (), 'list', e, fr.fn.module)
            self.objinit[fr.yields.uid] = []
        self.ev('method', (fr.yields, v), st, fr, e, x='extend')
        return NONE

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.unk('super', e, fr)
        f = self.expr(e.func, st, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, fr)
                lit = self.literal_elems(v)
                if lit is not None:
                    args += lit
                else:
                    args.append(V('star', (v,), None, a))
            else:
                args.append(self.expr(a, st, fr))
        for k in e.keywords:
            v = self.expr(k.value, st, fr)
            if k.arg is None:
                if v.op == 'new' and v.x == 'dict' and not self.mutated(v) and self.objinit.get(v.uid) is not None and all(kk is not None and kk.op == 'const' for kk, _ in self.objinit[v.uid]):
                    for kk, w in self.objinit[v.uid]:
                        kwargs[kk.x] = w
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call_value(f, args, kwargs, st, fr, e)

    def call_value(self, f, args, kwargs, st, fr, node):
        if f.op == 'func':
            return self.call_func(f.x, args, kwargs, st, fr, node)
        if f.op == 'bound':
            return self.call_func(f.x, [f.args[0]] + args, kwargs, st, fr, node)
        if f.op == 'cls':
            return self.instantiate(f.x, args, kwargs, st, fr, node)
        if f.op == 'ext':
            return self.call_ext(f.x, args, kwargs, st, fr, node)
        if f.op == 'join':
            vals = []
            alts = [(a, g) for a, g in zip(f.args, f.x) if not (a.op == 'undef' or a.op == 'const' and a.x is None)]
            g0 = st.guards
            for a, g in alts:
                # with several callees, each is called under its own conditions
                if len(alts) > 1:
                    st.guards = g0 + tuple(g)
                vals.append((self.call_value(a, args, kwargs, st, fr, node), g))
                if len(alts) > 1:
                    st.guards = g0
            if vals:
                return self.mkjoin(vals, node)
        if f.op == 'attr':
            return self.call_method(f.args[0], f.x, args, kwargs, st, fr, node)
        v = V('dyn', [f] + args + [kwargs[k] for k in sorted(kwargs)], tuple(sorted(kwargs)), node, fr.fn.module)
        self.ev('dyncall', [f] + args + list(kwargs.values()), st, fr, node, val=v)
        return v

    def call_method(self, recv, name, args, kwargs, st, fr, node):
        t = self.T.ty(recv)
        c = self.T.repo_class(t)
        if c is not None and name not in c.methods:
            v = V('dyn', [V('attr', (recv,), name, node)] + args + [kwargs[k] for k in sorted(kwargs)], tuple(sorted(kwargs)), node, fr.fn.module)
            self.ev('dyncall', [V('attr', (recv,), name, node)] + args + list(kwargs.values()), st, fr, node, val=v)
            return v
        kn = tuple(sorted(kwargs))
        if recv.op == 'const' and isinstance(recv.x, str) and not kwargs and all(a.op == 'const' for a in args) \
                and name in ('strip', 'split', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'lstrip', 'rstrip', 'isdigit', 'isalpha', 'count', 'find'):
            try:
                r = getattr(recv.x, name)(*[a.x for a in args])
                return self.mklist('list', [const(c, node) for c in r], st, fr, node) if isinstance(r, list) else const(r, node)
            except (TypeError, ValueError):
                pass
        if args and args[0].op == 'unlisted':
            if name == 'get' and recv.op == 'new' and recv.x == 'dict' and self.const_keys(recv):
                return args[1] if len(args) > 1 else NONE
            if name == 'index':
                lit = self.literal_elems(recv)
                if lit is not None and all(x.op == 'const' for x in lit):
                    st.guards = st.guards + ((const(False), True),)
                    return V('undef', (), 'noreturn', node)
        v = V('mcall', [recv] + args + [kwargs[k] for k in kn], (name, kn), node, fr.fn.module)
        self.ev('method', [recv] + args + [kwargs[k] for k in kn], st, fr, node, x=name, val=v)
        if name in ('items', 'values', 'keys') and not args:
            return v
        return v

    def call_ext(self, name, args, kwargs, st, fr, node):
        kn = tuple(sorted(kwargs))
        if name in ('builtins.len',) and len(args) == 1:
            lit = self.literal_elems(args[0])
            if lit is not None:
                return const(len(lit), node)
            c = self.T.repo_class(self.T.ty(args[0]))
            if c is not None and '__len__' in c.methods:
                return self.call_func(c.methods['__len__'], [args[0]], {}, st, fr, node)
        if name == 'builtins.isinstance' and len(args) == 2:
            r = self.istype(args[0], args[1])
            if r is not None:
                return const(r, node)
        if name == 'builtins.iter' and len(args) == 1:
            return V('call', (self.iterof(args[0], st, fr, node),), (name, ()), node)
        if name == 'builtins.str' and len(args) == 1:
            c = self.T.repo_class(self.T.ty(args[0]))
            if c is not None and '__str__' in c.methods:
                return self.call_func(c.methods['__str__'], [args[0]], {}, st, fr, node)
            if args[0].op == 'const':
                return const(str(args[0].x), node)
        if name == 'builtins.hash' and len(args) == 1:
            c = self.T.repo_class(self.T.ty(args[0]))
            if c is not None and '__hash__' in c.methods:
                return self.call_func(c.methods['__hash__'], [args[0]], {}, st, fr, node)
        if name in ('builtins.list', 'builtins.set', 'builtins.dict') and not args and not kwargs:
            v = V('new', (), name[9:], node, fr.fn.module)
            self.objinit[v.uid] = []
            self.objmade[v.uid] = (tuple(self.loopstack), st.guards)
            return v
        if name in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted', 'builtins.enumerate', 'builtins.zip') and args:
            args = [self.iterof(a, st, fr, node) for a in args[:1 if name != 'builtins.zip' else None]] + (args[1:] if name != 'builtins.zip' else [])
            if name == 'builtins.list':
                lit = self.literal_elems(args[0])
                if lit is not None:
                    return self.mklist('list', lit, st, fr, node)
            if name == 'builtins.tuple':
                lit = self.literal_elems(args[0])
                if lit is not None:
                    return V('tuple', lit, None, node)
        if name in ('builtins.any', 'builtins.all') and len(args) == 1:
            lit = self.literal_elems(args[0])
            if lit is not None:
                ts = [self.truth(x) for x in lit]
                stop = name == 'builtins.any'
                if any(t is stop for t in ts):
                    return const(stop, node)
                if all(t is (not stop) for t in ts):
                    return const(not stop, node)
        if name == 'builtins.complex' and len(args) == 1 and args[0].op == 'const':
            try:
                return const(complex(args[0].x), node)
            except Exception:
                pass
        if name in ('builtins.float', 'builtins.int') and len(args) == 1 and args[0].op == 'const':
            try:
                return const({'builtins.float': float, 'builtins.int': int}[name](args[0].x), node)
            except Exception:
                pass
        if name in ('numpy.conj', 'numpy.conjugate') and len(args) == 1 and args[0].op == 'const':
            return const(complex(args[0].x).conjugate(), node)
        if name in ('builtins.abs', 'numpy.abs', 'numpy.absolute') and len(args) == 1 and args[0].op == 'const' and isinstance(args[0].x, (int, float, complex)):
            return const(abs(args[0].x), node)
        if name in ('numpy.real',) and len(args) == 1 and args[0].op == 'const':
            return const(complex(args[0].x).real, node)
        # callbacks handed to external functions are called with unknown elements
        v = V('call', list(args) + [kwargs[k] for k in kn], (name, kn), node, fr.fn.module)
        self.ev('call', list(args) + [kwargs[k] for k in kn], st, fr, node, x=(name, kn), val=v)
        return v

    def bind(self, fn, args, kwargs, st, fr, node):
        a = fn.node.args
        names = fn.params()
        bound = {}
        err = None
        pos = list(args)
        if any(p.op == 'star' for p in pos):
            pos = [p for p in pos if p.op != 'star']
            starred = True
        else:
            starred = False
        for n, v in zip(names, pos):
            bound[n] = v
        if len(pos) > len(names):
            if a.vararg:
                bound[a.vararg.arg] = V('tuple', pos[len(names):], None, node)
            else:
                err = 'takes %d positional arguments but %d were given' % (len(names), len(pos))
        elif a.vararg:
            bound[a.vararg.arg] = V('tuple', (), None, node)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k == '**':
                starred = True
                continue
            if k in names or k in kwonly:
                if k in bound:
                    err = 'got multiple values for argument %r' % k
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                err = 'got an unexpected keyword argument %r' % k
        if a.kwarg:
            d = V('new', (), 'dict', node)
            self.objinit[d.uid] = [(const(k), v) for k, v in extra.items()]
            bound[a.kwarg.arg] = d
        defaults = fn.defaults()
        given = set(bound)
        for n in names + kwonly:
            if n not in bound:
                if n in defaults:
                    dv = self.default_value(fn, n, defaults[n])
                    bound[n] = dv
                elif starred:
                    bound[n] = self.unk('star arg', node, fr)
                else:
                    err = err or 'missing required argument %r' % n
                    bound[n] = self.unk('missing arg', node, fr)
        if err:
            self.ev('bad_call', list(args), st, fr, node, x=(fn.qual, err))
        return bound, given, starred

    def default_value(self, fn, n, e):
        k = ('default', fn.qual, n)
        if k not in self.gcache:
            sub = Frame(FuncRef(fn.qual, fn.node, fn.module, fn.cls, fn.closure), ())
            v = self.expr(e, State({}, {}, ()), sub)
            if v.op == 'new':
                v = V('new', (), v.x, e, fn.module)
                self.objinit[v.uid] = []
                self.defobjs = getattr(self, 'defobjs', {})
                self.defobjs[v.uid] = (fn.qual, n)
            self.gcache[k] = v
        return self.gcache[k]

    def call_func(self, fn, args, kwargs, st, fr, node):
        if fn.klass:
            args = args[1:] if False else args
        bound, given, starred = self.bind(fn, args, kwargs, st, fr, node)
        depth = len(fr.stack)
        order = [n for n in fn.params() + [x.arg for x in fn.node.args.kwonlyargs]]
        self.called.append((fn, bound, given, starred, node, fr))
        rec = any(f is fn.node for f, _ in fr.stack) or fr.fn.node is fn.node
        if fn.qual in self.opaque or rec or depth >= self.max_depth:
            v = V('rcall', [bound[n] for n in order], fn.qual, node, fr.fn.module)
            self.ev('rcall', [bound[n] for n in order], st, fr, node, x=fn.qual, val=v)
            return v
        self.inlined.add(fn.qual)
        ice = self.ev('icall', [bound[n] for n in order], st, fr, node, x=(fn.qual, tuple(order), frozenset(given)))
        sub = Frame(fn, fr.stack + ((fr.fn.node, node),))
        if isinstance(fn.node, ast.Lambda):
            st2 = State(dict(bound), st.heap, st.guards)
            r = self.expr(fn.node.body, st2, sub)
            st.heap.update(st2.heap)
            ice.val = r
            return r
        st2 = State(dict(bound), dict(st.heap), st.guards)
        sub.nonlocals['global'] = {n for s in ast.walk(fn.node) if isinstance(s, ast.Global) for n in s.names}
        end = self.block(fn.node.body, st2, sub)
        rets = list(sub.returns)
        if end is not None:
            rets.append((NONE, end.guards, node, end))
        n = len(st.guards)
        if not rets:
            ice.val = V('undef', (), 'noreturn', node)
            # callee never returns normally: mark the path dead
            st.guards = st.guards + ((const(False), True),)
            return ice.val
        if sub.yields is not None:
            val = sub.yields
        else:
            val = self.mkjoin([(v, g[n:]) for (v, g, _, _) in rets], node)
        heaps = [State({}, s.heap, s.guards) for (_, _, _, s) in rets]
        m = self.merge(heaps, node)
        st.heap.clear()
        st.heap.update(m.heap)
        if len(rets) == 1 and len(rets[0][1]) > n:
            # guards established by the callee (its early raises) hold afterwards
            st.guards = st.guards + tuple(rets[0][1][n:])
        elif len(rets) > 1 and all(self.zguard(r[1][n:]) for r in rets):
            st.guards = st.guards + ((V('zeroiter', (), 0, node), True),)
        ice.val = val
        return val

    def instantiate(self, c, args, kwargs, st, fr, node):
        if c.qual in self.opaque:
            init = c.methods.get('__init__')
            if init is not None:
                bound, given, starred = self.bind(init, [NONE] + args, kwargs, st, fr, node)
                order = init.params()[1:]
                vals = [bound[n] for n in order]
            else:
                vals = args
            v = V('rcall', vals, c.qual, node, fr.fn.module)
            self.ev('rcall', vals, st, fr, node, x=c.qual, val=v)
            return v
        o = V('inst', (), c, node, fr.fn.module)
        e = self.ev('instantiate', args + list(kwargs.values()), st, fr, node, x=c.qual, val=o)
        init = c.methods.get('__init__')
        if init is not None:
            bound, given, starred = self.bind(init, [o] + args, kwargs, st, fr, node)
            e.x = (c.qual, tuple((n, bound[n]) for n in init.params()[1:]), frozenset(given))
            self.call_func(init, [o] + args, kwargs, st, fr, node)
        else:
            e.x = (c.qual, (), frozenset())
        return o
