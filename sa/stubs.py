"""Names and parameters of external modules, read from their installed sources and stubs (nothing is imported)."""
import ast
import glob
import os
import sys

PATHS = [p for p in glob.glob('/opt/venv/lib/python3*/site-packages') + glob.glob('/usr/lib/python3*') + glob.glob('/usr/local/lib/python3*') if os.path.isdir(p)]


class Stubs:
    def __init__(self):
        self.mods = {}

    def file(self, dotted):
        parts = dotted.split('.')
        for root in PATHS:
            b = os.path.join(root, *parts)
            for f in (b + '/__init__.pyi', b + '/__init__.py', b + '.pyi', b + '.py'):
                if os.path.exists(f):
                    return f
        return None

    def load(self, dotted, seen=()):
        """(names -> set of FunctionDef or None, complete) or None when there is no readable source"""
        if dotted in self.mods:
            return self.mods[dotted]
        f = self.file(dotted)
        if f is None or dotted in seen:
            return None
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except (SyntaxError, OSError, UnicodeDecodeError):
            return None
        names, complete = {}, True
        d = os.path.dirname(f)
        pkg = os.path.basename(f).startswith('__init__')
        if pkg:
            for x in os.listdir(d):
                n = x.split('.')[0]
                if n.isidentifier():
                    names.setdefault(n, [])

        def add(n, node=None):
            names.setdefault(n, [])
            if node is not None:
                names[n].append(node)

        def scan(body):
            nonlocal complete
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    add(s.name, s)
                    if s.name == '__getattr__':
                        complete = False
                elif isinstance(s, ast.ClassDef):
                    add(s.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            add(n.id)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        add(a.asname or a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    base = dotted if pkg else dotted.rpartition('.')[0]
                    for _ in range(max(0, s.level - 1)):
                        base = base.rpartition('.')[0]
                    src = (base + '.' + s.module if s.module else base) if s.level else s.module
                    for a in s.names:
                        if a.name == '*':
                            r = self.load(src, seen + (dotted,))
                            if r is None or not r[1]:
                                complete = False
                            if r is not None:
                                for k, v in r[0].items():
                                    if not k.startswith('_'):
                                        names.setdefault(k, []).extend(v)
                        else:
                            nm = a.asname or a.name
                            r = self.load(src, seen + (dotted,)) if src and src.split('.')[0] == dotted.split('.')[0] else None
                            add(nm)
                            if r is not None and a.name in r[0]:
                                names[nm].extend(x for x in r[0][a.name] if x not in names[nm])
                elif isinstance(s, ast.If):
                    scan(s.body)
                    scan(s.orelse)
                elif isinstance(s, ast.Try):
                    scan(s.body)
                    for h in s.handlers:
                        scan(h.body)
                    scan(s.orelse)
                elif isinstance(s, ast.With):
                    scan(s.body)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                    c = ast.unparse(s.value.func)
                    if 'globals' in ast.dump(s.value):
                        complete = False
        scan(tree.body)
        if f.endswith('.pyi') and os.path.exists(f[:-1]):
            pass
        r = (names, complete)
        self.mods[dotted] = r
        return r

    def exists(self, dotted):
        """True / False / None(unknown): does `dotted` name something importable"""
        parts = dotted.split('.')
        for k in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:k])
            if self.file(m) is None:
                continue
            r = self.load(m)
            if r is None:
                return None
            n = parts[k]
            if n in r[0]:
                return True
            if not r[1]:
                return None
            # compiled or injected names: trust the stub only when it is a stub or a pure module
            return False
        return None

    def params(self, dotted):
        """parameter names of a function over all its signatures, or None"""
        m, _, n = dotted.rpartition('.')
        r = self.load(m) if m else None
        if r is None or n not in r[0] or not r[0][n]:
            return None
        ps, kw, maxpos = set(), False, 0
        for d in r[0][n]:
            a = d.args
            if d.decorator_list and not all('overload' in ast.unparse(x) for x in d.decorator_list):
                return None
            if a.kwarg:
                kw = True
            ps |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
            maxpos = max(maxpos, 10 ** 6 if a.vararg else len(a.args) + len(a.posonlyargs))
        return None if kw else (ps, maxpos)

    MATRICES = ('csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'dok_matrix', 'bsr_matrix', 'dia_matrix')

    def lacking(self, dotted, npos, kws):
        """required parameters that a call with that many positional arguments and these keywords leaves out, whichever signature is meant; [] when none or unknown"""
        m, _, n = dotted.rpartition('.')
        if m == 'scipy.sparse' and n in self.MATRICES:
            return [] if npos or 'arg1' in kws else ['arg1']
        r = self.load(m) if m else None
        if r is None or n not in r[0] or not r[0][n]:
            return []
        worst = None
        for d in r[0][n]:
            a = d.args
            if d.decorator_list and not all('overload' in ast.unparse(x) for x in d.decorator_list):
                return []
            pos = [x.arg for x in a.posonlyargs + a.args]
            need = pos[:len(pos) - len(a.defaults)]
            left = [x for i, x in enumerate(need) if i >= npos and x not in kws]
            left += [x.arg for x, df in zip(a.kwonlyargs, a.kw_defaults) if df is None and x.arg not in kws]
            if not left:
                return []
            worst = left if worst is None or len(left) < len(worst) else worst
        return worst or []
