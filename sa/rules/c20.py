"""C20: no path refers to an undefined or unassigned name, calls a library function with arguments it does
not accept, unpacks a wrong number of results or uses an attribute the object does not have."""
import ast
import builtins
import re
import symtable

from ..members import ARRAY, SPARSE
from ..stubs import Stubs
from ..types import base, targs

RULE = ('Every name of every function is resolved (symbol tables, all code); every entry point is interpreted and each '
        'internal call is bound to its signature, each unpacking compared with the arity of the value, each attribute and '
        'method with those of the class, each numpy/scipy name and keyword with the installed stubs, each format string with its arguments.')
METHODS = {'list': dir(list), 'dict': dir(dict), 'set': dir(set), 'str': dir(str), 'tuple': dir(tuple), 'int': dir(int), 'float': dir(float), 'complex': dir(complex), 'bool': dir(bool)}


def tables(t):
    yield t
    for c in t.get_children():
        yield from tables(c)


def live(body, out):
    """names loaded in statements that can be reached (nothing follows a raise/return in its block)"""
    for s in body:
        sub = [getattr(s, f, None) for f in ('body', 'orelse', 'finalbody')]
        if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            for f in ('test', 'iter', 'target', 'items'):
                x = getattr(s, f, None)
                for y in x if isinstance(x, list) else [x]:
                    if y is not None:
                        out |= {n.id for n in ast.walk(y) if isinstance(n, ast.Name)}
            for b in sub:
                if b:
                    live(b, out)
            for h in getattr(s, 'handlers', []):
                if h.type is not None:
                    out |= {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)}
                live(h.body, out)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list + getattr(s, 'bases', []):
                out |= {n.id for n in ast.walk(d) if isinstance(n, ast.Name)}
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                    out |= {n.id for n in ast.walk(d) if isinstance(n, ast.Name)}
            live(s.body, out)
        else:
            out |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        if isinstance(s, (ast.Raise, ast.Return)):
            return


NUMERIC = {'array': ARRAY | {'__class__'}, 'sparse': SPARSE | {'__class__'}}
for _b in ('int', 'float', 'complex', 'bool', 'num'):
    NUMERIC[_b] = ARRAY | {n for t in (int, float, complex, bool) for n in dir(t)}


def brace_need(s):
    fields = re.findall(r'(?<!\{)\{([0-9]*)(?:[!:][^{}]*)?\}', s.replace('{{', ''))
    return max([int(f) + 1 for f in fields if f] + [sum(1 for f in fields if not f)]) if fields else 0


def formats(ck):
    """literal format strings in all code, reached by an entry variant or not"""
    for m in ck.ctx.prog.modules.values():
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            for n in ast.walk(f):
                bad = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                    s = n.func.value.value
                    if n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
                        continue
                    need, have = brace_need(s), len(n.args)
                    bad = need > have
                elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
                    s = n.left.value
                    need, have = fmt_count(s), len(n.right.elts)
                    if need is None or any(isinstance(a, ast.Starred) for a in n.right.elts):
                        continue
                    bad = need != have
                if bad:
                    ck.bad('format', '%s.%s formats %r' % (m.name, f.name, s[:40]), 'qosy/%s.py:%d (%s.%s)' % (m.name, n.lineno, m.name, f.name),
                           'the format string has %d fields but %d values are given' % (need, have))
                elif bad is False:
                    ck.ok('format strings')


def names(ck):
    prog = ck.ctx.prog
    bi = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__spec__'}
    for m in prog.modules.values():
        top = symtable.symtable(m.src, m.path, 'exec')
        mod = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        ext = any(k == 'ext' for k, _ in m.stars)
        livenames = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                s = livenames.setdefault((n.name, n.lineno), set())
                live(n.body, s)
        for t in tables(top):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                n = s.get_name()
                if s.is_local() and t is not top and not s.is_global():
                    continue
                if s.is_free():
                    continue
                lv = [v for (nm, ln), v in livenames.items() if nm == t.get_name() and ln >= t.get_lineno()][:1]
                if t.get_type() == 'function' and lv and n not in lv[0]:
                    ck.count('names in unreachable statements')
                    continue
                if n in bi or n in mod or prog.lookup(m.name, n) is not None or ext:
                    ck.ok('global names resolved')
                else:
                    ck.bad('undefined-name', '%s.%s uses %s' % (m.name, t.get_name(), n), 'qosy/%s.py:%d (%s)' % (m.name, t.get_lineno(), t.get_name()),
                           'the name %r is not defined in this scope, its module or any import' % n)


def feasible(useguards, altguards):
    pol = {}
    for c, p in useguards:
        pol[c.key] = p
    neg = {}
    for c, p in altguards:
        if c.key in pol and pol[c.key] != p:
            return False
        if c.op == 'cmp' and c.x == 'Eq' and not p:
            for a, b in (c.args, c.args[::-1]):
                if b.op == 'const':
                    neg.setdefault(a.key, set()).add(b.key)
    for c, p in list(useguards) + list(altguards):
        if c.op == 'cmp' and c.x == 'In' and p and c.args[1].op == 'tuple' and c.args[0].key in neg:
            if all(x.key in neg[c.args[0].key] for x in c.args[1].args):
                return False
    for c, p in altguards:
        # not bound on a later pass of a loop: bound on the first one
        if c.op == 'cmp' and c.x == 'Eq' and not p and any(a.op in ('mu', 'idx') for a in c.args) and any(a.op == 'const' for a in c.args):
            return False
        # an assignment inside a conditional that also raises otherwise is fine; unknown conditions are kept
        if c.op == 'unknown' and c.x == 'except':
            return False
    return True


def fmt_count(s):
    s = s.replace('%%', '')
    if re.search(r'%\(', s) or '*' in s:
        return None
    return len(re.findall(r'%[-+ #0]*[0-9]*(?:\.[0-9]+)?[diouxXeEfFgGcrsa]', s))


# attributes that an object has on some paths only: set for Majorana strings and read for these
PARTIAL = {('OperatorString', '_labels_ab_operators')}


def initialised(ck, r):
    """what a constructor sets on one path it sets on all that end normally"""
    I, fn = r.I, r.fn
    me = I.params[fn.params()[0]]
    own = (me.key, ('v', me.key), me.uid, ('v', me.uid))
    every = {k[1] for h in I.final_heap for k in h if k[0] in own and isinstance(k[1], str)}
    for h, (v, g, node, st) in zip(I.final_heap, I.returns):
        if I.isdead(st):
            continue
        mine = {k[1]: x for k, x in h.items() if k[0] in own}
        for a in sorted(every):
            if (fn.cls.name, a) in PARTIAL:
                continue
            todo, left = [mine[a]] if a in mine else [], a not in mine
            while todo:
                x = todo.pop()
                if x.op == 'join':
                    todo += list(x.args)
                elif x.op == 'attr' and x.x == a and x.args[0].key == me.key:
                    left = True
            if left:
                ck.bad('attribute not set', '%s: %s' % (fn.qual, a), 'qosy/%s.py:%d (%s)' % (fn.module.name, fn.node.lineno, fn.qual), 'an object can leave the constructor of %s without the attribute %s' % (fn.cls.name, a))
            else:
                ck.ok('attributes set by constructors', '%s: %s' % (fn.qual, a))


def run(ck):
    names(ck)
    formats(ck)
    st = Stubs()
    prog = ck.ctx.prog
    stored = set()
    runs = list(ck.ctx.entries())
    for r in runs:
        for e in r.I.trace:
            if e.kind == 'store_attr':
                stored.add(e.x[0])
    for r in runs:
        I = r.I
        ck.count('entry points')
        if r.fn.name == '__init__' and r.fn.cls is not None and r.fn.params():
            initialised(ck, r)
        for (fn, bound, given, starred, node, fr) in I.called:
            ck.ok('internal calls bound')
        for e in I.trace:
            here = e.fn.qual if e.fn else '?'
            if e.kind == 'undefined_name':
                ck.bad('undefined-name', '%s uses %s' % (here, e.x), e.where, 'the name %r is not defined' % e.x)
            elif e.kind == 'bad_call':
                ck.bad('bad-call', '%s calls %s' % (here, e.x[0]), e.where, 'call of %s %s' % e.x)
            elif e.kind == 'maybe_undef':
                v = e.args[0]
                if v.op == 'undef':
                    if v.x != 'noreturn':
                        ck.bad('unassigned', '%s uses %s' % (here, e.x), e.where, '%r is used but never assigned on the path that reaches this use' % e.x)
                    continue
                for a, g in zip(v.args, v.x):
                    if a.op == 'undef' and g and feasible(e.guards, g):
                        ck.bad('unassigned', '%s uses %s' % (here, e.x), e.where,
                               '%r is not assigned on the path where %s' % (e.x, ' and '.join(('' if p else 'not ') + repr(c) for c, p in g)))
                        break
                else:
                    ck.ok('conditionally assigned names')
            elif e.kind == 'unpack':
                n, v = e.x, e.args[0]
                rs = [x for x in I.roots(v)]
                ar = []
                for x in rs:
                    t = I.T.ty(x)
                    if x.op == 'tuple':
                        ar.append(len(x.args))
                    elif base(t) == 'tuple' and targs(t) and not t.startswith('?'):
                        ar.append(len(targs(t)))
                    elif base(t) in ('int', 'float', 'complex', 'bool', 'none', 'Operator', 'OperatorString', 'Basis', 'sparse') and not t.startswith('?'):
                        ar.append(-1 if base(t) not in ('Operator', 'OperatorString', 'Basis') else None)
                    else:
                        ar.append(None)
                if ar and all(a is not None and a != n for a in ar):
                    ck.bad('unpack', '%s unpacks %d values' % (here, n), e.where, '%d names are unpacked from a value of %s' % (n, ['not iterable' if a < 0 else '%d elements' % a for a in ar]))
                elif ar and all(a == n for a in ar):
                    ck.ok('unpackings of known arity')
                else:
                    ck.count('unpackings of unknown arity')
            elif e.kind == 'attr_read':
                c = I.T.repo_class(I.T.ty(e.args[0]))
                if c is None or I.T.ty(e.args[0]).startswith('?'):
                    continue
                if e.x in I.T.class_attrs(c) or e.x in stored or e.x.startswith('__'):
                    ck.ok('attributes of library objects')
                else:
                    ck.bad('no-attribute', '%s reads %s.%s' % (here, c.name, e.x), e.where, 'an object of class %s has no attribute or method %r' % (c.name, e.x))
            elif e.kind == 'method':
                t = I.T.ty(e.args[0])
                b = base(t)
                if b in METHODS and not t.startswith('?'):
                    if e.x in METHODS[b] or e.x in ('append', 'add') and e.args[0].op == 'new':
                        ck.ok('methods of built-in objects')
                    elif b in ('list', 'dict', 'set', 'str', 'tuple'):
                        ck.bad('no-attribute', '%s calls %s.%s' % (here, b, e.x), e.where, 'a %s has no method %r' % (b, e.x))
                elif b in NUMERIC and not t.startswith('?') and not e.x.startswith('__'):
                    if e.x in NUMERIC[b]:
                        ck.ok('methods of arrays and numbers')
                    else:
                        ck.bad('no-attribute', '%s calls %s.%s' % (here, b, e.x), e.where, 'a value of kind %s has no method %r' % (b, e.x))
                elif t == 'none' and e.args[0].op in ('const', 'mcall'):
                    ck.bad('none-used', '%s calls %s on None' % (here, e.x), e.where, 'method %r is called on a value that is always None' % e.x)
            elif e.kind == 'call':
                n, kn = e.x
                if n.split('.')[0] in ('numpy', 'scipy', 'itertools', 'copy', 'math', 'functools', 're', 'warnings', 'matplotlib'):
                    ok = st.exists(n)
                    if ok is False:
                        ck.bad('external-name', '%s calls %s' % (here, n), e.where, '%s does not exist in the installed library' % n)
                    elif ok:
                        p = st.params(n)
                        bad = [k for k in kn if p is not None and k not in p[0] and k != '**']
                        npos = len(e.args) - len(kn)
                        if bad:
                            ck.bad('external-keyword', '%s calls %s' % (here, n), e.where, '%s does not accept the keyword %s' % (n, ', '.join(bad)))
                        elif p is not None and npos > p[1]:
                            ck.bad('external-arity', '%s calls %s' % (here, n), e.where, '%s takes at most %d positional arguments, %d given' % (n, p[1], npos))
                        elif '**' not in kn and not any(a.op in ('star', 'starred') for a in e.args) and not any(isinstance(a, ast.Starred) for c in [e.node] if isinstance(c, ast.Call) for a in c.args) and st.lacking(n, npos, kn):
                            ck.bad('external-argument', '%s calls %s' % (here, n), e.where, '%s is called without its argument %s' % (n, ', '.join(st.lacking(n, npos, kn))))
                        else:
                            ck.ok('external names found in stubs')
                    else:
                        ck.count('external names without stubs')
        seen = set()
        for e in I.trace:
            for v in list(e.args) + ([e.val] if e.val is not None else []):
                walk(ck, r, v, seen, e)
    ck.floor('global names resolved', 300)
    ck.floor('internal calls bound', 1500)
    ck.floor('attributes of library objects', 300)
    ck.floor('external names found in stubs', 300)


def walk(ck, r, v, seen, e):
    if v.uid in seen:
        return
    seen.add(v.uid)
    if v.op == 'bin' and v.x == 'Mod' and v.args[0].op == 'const' and isinstance(v.args[0].x, str):
        n = fmt_count(v.args[0].x)
        b = v.args[1]
        t = r.I.T.ty(b)
        m = len(b.args) if b.op == 'tuple' else 1 if base(t) in ('int', 'float', 'complex', 'str', 'num', 'bool') else None
        if n is not None and m is not None:
            if n != m:
                ck.bad('format', '%s formats %r' % (e.fn.qual, v.args[0].x[:40]), e.where, 'the format string has %d fields but %d values are given' % (n, m))
            else:
                ck.ok('format strings')
    if v.op == 'mcall' and v.x[0] == 'format' and v.args[0].op == 'const' and isinstance(v.args[0].x, str) and not v.x[1]:
        need = brace_need(v.args[0].x)
        if not any(a.op == 'star' for a in v.args[1:]):
            if need > len(v.args) - 1:
                ck.bad('format', '%s formats %r' % (e.fn.qual, v.args[0].x[:40]), e.where, 'the format string has %d fields but %d values are given' % (need, len(v.args) - 1))
            else:
                ck.ok('format strings')
    if v.op == 'attr' and v.args and isinstance(v.x, str) and not v.x.startswith('__'):
        t = r.I.T.ty(v.args[0])
        if base(t) in ('array', 'sparse') and not t.startswith('?'):
            if v.x in NUMERIC[base(t)]:
                ck.ok('attributes of arrays')
            else:
                ck.bad('no-attribute', '%s reads %s.%s' % (e.fn.qual, base(t), v.x), e.where, 'a value of kind %s has no attribute %r' % (base(t), v.x))
    if v.op in ('item', 'attr', 'elem') and v.args and (v.args[0].op == 'const' and v.args[0].x is None or v.args[0].op == 'mcall' and r.I.T.ty(v.args[0]) == 'none'):
        ck.bad('none-used', '%s uses None' % e.fn.qual, e.where, 'a value that is always None is indexed, iterated or read (%r)' % v)
    for a in v.args:
        walk(ck, r, a, seen, e)
    for a in v.back:
        walk(ck, r, a, seen, e)
