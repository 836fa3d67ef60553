"""refac.py OUTDIR TRANSFORM...: apply behaviour-preserving rewrites to every function of the package"""
import ast, os, sys, shutil, copy, builtins, itertools

SRC = os.environ.get('SRC', '/repo/qosy')


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []

    def fresh(self, p='tmp'):
        self.n += 1
        return '%s_%d' % (p, self.n)

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n


class Invert(Base):
    """if a: A else: B -> if not a: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n


class Flip(Base):
    """a < b -> b > a ; a == b -> b == a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class DeMorgan(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Stmts(Base):
    def block(self, body):
        return body

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and self.fn:
                setattr(n, f, self.block(b))
        return n


class Comp2Loop(Stmts):
    """x = [e for t in it if c] -> loop with append"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda)) for x in ast.walk(s.value) if x is not s.value):
                c = s.value
                fnames = names(self.fn[-1])
                tgt = set().union(*[names(g.target) for g in c.generators])
                others = names(self.fn[-1], ast.Store) - set()
                # rename the loop variables to avoid capturing
                m = {t: t + '_it' for t in tgt}
                c = copy.deepcopy(c)
                for x in ast.walk(c):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
                acc = self.fresh('acc')
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [c.elt], []))]
                for g in reversed(c.generators):
                    for t in reversed(g.ifs):
                        inner = [ast.If(t, inner, [])]
                    inner = [ast.For(g.target, g.iter, inner, [])]
                out.append(ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())))
                out += inner
                out.append(ast.Assign(s.targets, ast.Name(acc, ast.Load())))
            else:
                out.append(s)
        return out


class Loop2Comp(Stmts):
    """x = [] ; for t in it: x.append(e) -> comprehension"""
    def block(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            done = False
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                b = s.body[0]
                ifs = []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'append' and isinstance(b.value.func.value, ast.Name):
                    x = b.value.func.value.id
                    if x not in names(s.iter) and x not in names(b.value.args[0]) and not any(x in names(t) for t in ifs):
                        # is the last statement the empty list?
                        if out and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and isinstance(out[-1].targets[0], ast.Name) and out[-1].targets[0].id == x and isinstance(out[-1].value, ast.List) and not out[-1].value.elts:
                            out[-1] = ast.Assign([ast.Name(x, ast.Store())], ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)]))
                            done = True
            if not done:
                out.append(s)
            i += 1
        return out


class Temps(Stmts):
    """arguments that are calls get a name first (evaluation order kept)"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and not any(isinstance(x, (ast.Lambda, ast.Yield)) for x in ast.walk(s.value)) and not isinstance(s.value.func, ast.Attribute):
                pre = []
                args = []
                ok = True
                for a in s.value.args:
                    if isinstance(a, ast.Starred):
                        ok = False
                if ok:
                    for a in s.value.args:
                        if isinstance(a, (ast.Constant, ast.Name)):
                            args.append(a)
                            continue
                        t = self.fresh('arg')
                        pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                        args.append(ast.Name(t, ast.Load()))
                    s.value.args = args
                    out += pre
            out.append(s)
        return out


class RetTemp(Stmts):
    """return e -> result = e; return result"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                t = self.fresh('result')
                out += [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
            else:
                out.append(s)
        return out


class Elif(Base):
    """if a: return x ; rest -> if a: return x else: rest"""
    def visit_FunctionDef(self, n):
        n.body = self.blk(n.body)
        self.generic_visit(n)
        return n

    def blk(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self.blk(body[i + 1:])
                return body[:i + 1]
        return body


class Early(Base):
    """if a: return x else: rest -> if a: return x ; rest"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.blk(n.body)
        return n

    def blk(self, body):
        out = []
        for i, s in enumerate(body):
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                o = s.orelse
                s.orelse = []
                out += self.blk(o)
        return out


class Continue(Stmts):
    """loop body: if c: BODY (last) -> if not c: continue; BODY"""
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, ast.For) and self.fn and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return n


class Index(Base):
    """for x in name: -> for i in range(len(name)): x = name[i]   (lists built in the function or *_list)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'zip' and isinstance(n.target, ast.Tuple) and all(isinstance(a, ast.Name) for a in n.iter.args) and len(n.iter.args) == 2:
            return n
        if isinstance(n.iter, ast.Name) and self.islist(n.iter.id) and n.iter.id not in names(ast.Module(n.body, []), ast.Store):
            i = self.fresh('pos')
            get = ast.Subscript(ast.Name(n.iter.id, ast.Load()), ast.Name(i, ast.Load()), ast.Load())
            n.body = [ast.Assign([n.target], get)] + n.body
            n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(n.iter.id, ast.Load())], [])], [])
            n.target = ast.Name(i, ast.Store())
        return n

    def islist(self, x):
        if not self.fn:
            return False
        for s in ast.walk(self.fn[-1]):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'extend', 'add', 'remove', 'pop') and isinstance(s.func.value, ast.Name) and s.func.value.id == x and s.func.attr != 'append':
                return False
        vals = [s.value for s in ast.walk(self.fn[-1]) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name) and t.id == x]
        a = self.fn[-1].args
        if x in [p.arg for p in a.args]:
            return False
        return bool(vals) and all(isinstance(v, (ast.List, ast.ListComp)) for v in vals)


class Enumerate(Base):
    """for i in range(len(x)): -> for (i, _) in enumerate(x)   for local lists"""
    islist = Index.islist

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == 'len' and isinstance(it.args[0].args[0], ast.Name) and self.islist(it.args[0].args[0].id) and isinstance(n.target, ast.Name):
            x = it.args[0].args[0].id
            e = self.fresh('el')
            if x in names(ast.Module(n.body, []), ast.Store):
                return n
            for b in n.body:
                for y in ast.walk(b):
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == x:
                        return n
                    if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == x:
                        return n
            class R(ast.NodeTransformer):
                def visit_Subscript(s, y):
                    s.generic_visit(y)
                    if isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == x and isinstance(y.slice, ast.Name) and y.slice.id == n.target.id:
                        return ast.Name(e, ast.Load())
                    return y
            n.body = [R().visit(b) for b in n.body]
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [ast.Name(x, ast.Load())], [])
            n.target = ast.Tuple([n.target, ast.Name(e, ast.Store())], ast.Store())
        return n


class Unpack(Stmts):
    """(a, b) = e -> t = e; a = t[0]; b = t[1]"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, (ast.Call, ast.Name, ast.Subscript)) and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                t = self.fresh('pair')
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
                for i, x in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([x], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i), ast.Load())))
            else:
                out.append(s)
        return out


class Target(Base):
    """for (a, b) in xs -> for p in xs: (a, b) = p"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Tuple):
            t = self.fresh('item')
            n.body = [ast.Assign([n.target], ast.Name(t, ast.Load()))] + n.body
            n.target = ast.Name(t, ast.Store())
        return n


class IfExp(Stmts):
    """x = a if c else b -> if statement ; return likewise"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [a], [b]))
            else:
                out.append(s)
        return out


class ToIfExp(Stmts):
    """if c: x = a else: x = b -> conditional expression"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name):
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
        return out


class Wrap(Base):
    """def f(args): body -> def _impl_f(args): body ; def f(args): return _impl_f(args)"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef) and self.plain(s):
                out += self.split(s)
            else:
                out.append(s)
        m.body = out
        return m

    def plain(self, s):
        return not s.args.vararg and not s.args.kwarg and not s.decorator_list and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))

    def split(self, s):
        new = '_impl_' + s.name.strip('_')
        doc = ast.get_docstring(s) is not None
        inner = copy.deepcopy(s)
        inner.name = new
        inner.args.defaults = []
        if doc:
            inner.body = inner.body[1:]
        if not inner.body:
            return [s]
        call = ast.Call(ast.Name(new, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in s.args.args], [])
        s.body = (s.body[:1] if doc else []) + [ast.Return(call)]
        return [inner, s]


class Tail(Base):
    """the second half of a function becomes a helper"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                h = self.split(s)
                if h is not None:
                    out.append(h)
            out.append(s)
        m.body = out
        return m

    def split(self, s):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for b in s.body for x in ast.walk(b)):
            return None
        doc = 1 if ast.get_docstring(s) is not None else 0
        n = len(s.body)
        k = max(doc + 1, (n + doc) // 2)
        if n - k < 2:
            return None
        head, tail = s.body[:k], s.body[k:]
        params = [a.arg for a in s.args.args] + ([s.args.vararg.arg] if s.args.vararg else []) + ([s.args.kwarg.arg] if s.args.kwarg else [])
        bound = set(params) | set().union(*[names(b, ast.Store) for b in head]) if head else set(params)
        sure = set(params)
        for b in head:
            sure |= self.definite(b)
        used = set().union(*[names(b) for b in tail]) & bound
        # names bound only on some paths cannot be handed over
        if used - sure:
            return None
        comp = set()
        used = sorted(used)
        name = '_rest_of_' + s.name.strip('_')
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), tail, [])
        s.body = head + [ast.Return(ast.Call(ast.Name(name, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]
        return h

    def definite(self, b):
        if isinstance(b, (ast.Assign, ast.AugAssign)):
            return set().union(*[names(t, ast.Store) for t in (b.targets if isinstance(b, ast.Assign) else [b.target])])
        if isinstance(b, ast.If):
            def blk(x):
                if x and isinstance(x[-1], (ast.Raise, ast.Return)):
                    return None
                return set().union(*[self.definite(y) for y in x]) if x else set()
            p, q = blk(b.body), blk(b.orelse)
            if p is None and q is None:
                return set()
            return q if p is None else p if q is None else p & q
        return set()


class LoopBody(Base):
    """the body of an outer for loop that only mutates objects becomes a helper (no rebinding, break, continue or return)"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef):
                self.helpers = []
                self.params = {a.arg for a in s.args.args}
                self.cur = s
                s.body = [self.stmt(b) for b in s.body]
                out += self.helpers
            out.append(s)
        m.body = out
        return m

    def stmt(self, b):
        if isinstance(b, ast.For) and not b.orelse:
            inner = b.body
            M = ast.Module(inner, [])
            if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Lambda, ast.FunctionDef)) for x in ast.walk(M)):
                return b
            stored = names(M, ast.Store)
            local = names(self.cur, ast.Store) | self.params
            # names stored in the body must not be used elsewhere
            outside = set(self.params)
            class W(ast.NodeVisitor):
                def generic_visit(s, n):
                    if n is b:
                        for y in ast.walk(n.target):
                            if isinstance(y, ast.Name): outside.add(y.id)
                        s.visit(n.iter)
                        return
                    if isinstance(n, ast.Name): outside.add(n.id)
                    ast.NodeVisitor.generic_visit(s, n)
            W().visit(self.cur)
            if stored & outside or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in outside for x in ast.walk(M)):
                return b
            used = sorted((names(M, ast.Load) & local) - (stored - (outside)))
            used = [u for u in used if u in outside]
            name = '_step_%d_of_%s' % (len(self.helpers), self.cur.name.strip('_'))
            self.helpers.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), inner, []))
            b.body = [ast.Expr(ast.Call(ast.Name(name, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]
        return b


class Rename(Base):
    """all local variables get other names"""
    def visit_FunctionDef(self, n):
        params = {a.arg for a in n.args.args + n.args.kwonlyargs} | ({n.args.vararg.arg} if n.args.vararg else set()) | ({n.args.kwarg.arg} if n.args.kwarg else set())
        loc = names(ast.Module(n.body, []), ast.Store) - params
        gl = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                gl |= set(x.names)
        m = {v: 'v%d_%s' % (i, v[::-1]) for i, v in enumerate(sorted(loc - gl))}
        nested = any(isinstance(x, ast.FunctionDef) for b in n.body for x in ast.walk(b))
        if nested:
            return n
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in m:
                    x.id = m[x.id]
                elif isinstance(x, ast.ExceptHandler) and x.name in m:
                    x.name = m[x.name]
        return n


class Swap(Stmts):
    """exchange neighbouring independent simple assignments"""
    def block(self, body):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if self.simple(a) and self.simple(b):
                sa, sb = names(a, ast.Store), names(b, ast.Store)
                ua, ub = names(a), names(b)
                if not (sa & ub) and not (sb & ua):
                    out[i], out[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return out

    def simple(self, s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            return False
        PURE = {'len', 'list', 'dict', 'set', 'int', 'float', 'abs', 'range', 'Basis', 'sorted', 'tuple', 'str', 'complex', 'sum', 'min', 'max'}
        for x in ast.walk(s.value):
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in PURE:
                    continue
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'ss', 'nla', 'copy', 'sla'):
                    continue
                return False
        return True


class Aug(Stmts):
    """n += c -> n = n + c for numbers (constants added)"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
                out.append(ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)))
            else:
                out.append(s)
        return out


class Zip(Base):
    """for (c, os) in operator -> unchanged; for (a, b) in zip(x, y) -> index loop when both are local lists"""
    islist = Index.islist

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'zip' and isinstance(n.target, ast.Tuple) and all(isinstance(a, ast.Name) for a in n.iter.args) and self.fn and len(n.iter.args) == len(n.target.elts):
            i = self.fresh('pos')
            st = names(ast.Module(n.body, []), ast.Store)
            xs = [a.id for a in n.iter.args]
            if st & set(xs) or not all(self.islist(x) for x in xs):
                return n
            n.body = [ast.Assign([t], ast.Subscript(ast.Name(x, ast.Load()), ast.Name(i, ast.Load()), ast.Load())) for t, x in zip(n.target.elts, xs)] + n.body
            n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(xs[0], ast.Load())], [])], [])
            n.target = ast.Name(i, ast.Store())
        return n


class While(Base):
    """for i in range(n) -> while loop (no continue inside)"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse and self.fn:
            M = ast.Module(n.body, [])
            if any(isinstance(x, ast.Continue) for x in ast.walk(M)) or n.target.id in names(M, ast.Store) or not isinstance(it.args[0], (ast.Name, ast.Constant)) or names(it.args[0]) & names(M, ast.Store):
                return n
            i = n.target.id
            return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [it.args[0]]), n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


class Methods(Base):
    """methods: body moved to a module-level helper taking self"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                for f in list(s.body):
                    if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.vararg and not f.args.kwarg and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) and f.name != '__init__' and 'super' not in names(f):
                        doc = ast.get_docstring(f) is not None
                        body = f.body[1:] if doc else f.body
                        if not body:
                            continue
                        new = '_%s_%s' % (s.name.lower(), f.name.strip('_'))
                        out.append(ast.FunctionDef(new, ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []), body, []))
                        f.body = (f.body[:1] if doc else []) + [ast.Return(ast.Call(ast.Name(new, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args], []))]
            out.append(s)
        m.body = out
        return m


class Fold(Base):
    """np.foo(x) through a local alias: inner name for numpy functions"""
    def visit_FunctionDef(self, n):
        used = sorted({x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'np'})
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'np':
                x.func = ast.Name('np_' + x.func.attr, ast.Load())
        doc = 1 if ast.get_docstring(n) is not None else 0
        n.body = n.body[:doc] + [ast.Assign([ast.Name('np_' + u, ast.Store())], ast.Attribute(ast.Name('np', ast.Load()), u, ast.Load())) for u in used] + n.body[doc:]
        return n


T = dict(invert=Invert, flip=Flip, demorgan=DeMorgan, comp2loop=Comp2Loop, loop2comp=Loop2Comp, temps=Temps, rettemp=RetTemp, elif_=Elif, early=Early, cont=Continue, index=Index, enum=Enumerate,
         unpack=Unpack, target=Target, ifexp=IfExp, toifexp=ToIfExp, wrap=Wrap, tail=Tail, loopbody=LoopBody, rename=Rename, swap=Swap, aug=Aug, zip=Zip, while_=While, methods=Methods, fold=Fold)

if __name__ == '__main__':
    out = sys.argv[1]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(SRC, out + '/qosy')
    for dp, dn, fs in os.walk(out + '/qosy'):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                t = ast.parse(open(p).read())
                for n in sys.argv[2:]:
                    t = T[n]().visit(t)
                    ast.fix_missing_locations(t)
                open(p, 'w').write(ast.unparse(t) + '\n')
