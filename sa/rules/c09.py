"""C09: silent functions print nothing, verbosity switches are obeyed and no call touches process-wide state."""
import ast

from ..alias import Alias, mutations
from ..paths import flat
from ..types import base

RULE = ('Effect analysis: every output call reachable from an entry point must be impossible (silent modules) or guarded by the '
        'entry\'s verbosity switch; calls that change seeds, print/error settings, filters, environment or files, writes to attributes of '
        'modules, and mutations of module-level or default-argument objects are not allowed anywhere.')
SILENT = {'algebra', 'basis', 'operatorstring', 'conversion', 'transformation', 'lattice', 'symmetrization', 'diagonalization', 'tools', 'config'}
PRINTS = {'builtins.print', 'pprint.pprint', 'sys.stdout.write', 'sys.stdout.writelines', 'sys.stdout.flush', 'builtins.input', 'sys.__stdout__.write', 'os.write', 'IPython.display.display', 'logging.info'}
GLOBAL_CALLS = {
    'numpy.seterr', 'numpy.seterrcall', 'numpy.seterrobj', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.set_string_function', 'numpy.random.seed',
    'numpy.random.set_state', 'numpy.random.default_rng.seed', 'random.seed', 'random.setstate', 'warnings.filterwarnings', 'warnings.simplefilter',
    'warnings.resetwarnings', 'os.putenv', 'os.unsetenv', 'os.getenv', 'os.environ.get', 'os.environ.setdefault', 'os.environ.update', 'os.environ.pop', 'os.chdir', 'os.umask', 'os.remove',
    'os.mkdir', 'os.makedirs', 'os.rename', 'os.system', 'builtins.open', 'builtins.exec', 'builtins.eval', 'io.open', 'numpy.save', 'numpy.savetxt', 'numpy.load',
    'numpy.savez', 'numpy.loadtxt', 'numpy.fromfile', 'sys.setrecursionlimit', 'sys.settrace', 'gc.disable', 'gc.enable', 'locale.setlocale', 'random.shuffle.seed',
    'scipy.sparse.save_npz', 'scipy.sparse.load_npz', 'pickle.dump', 'pickle.load', 'signal.signal', 'time.tzset', 'matplotlib.use', 'matplotlib.rc', 'builtins.setattr.module',
    'matplotlib.pyplot.rc', 'matplotlib.rcParams.update', 'matplotlib.pyplot.rcParams.update', 'subprocess.run', 'subprocess.call', 'subprocess.check_output',
}
RESTORES = ('catch_warnings', 'errstate', 'printoptions')


def in_restoring_with(e):
    """the call sits in a `with` block that restores the setting"""
    root = e.fn.node
    for w in ast.walk(root):
        if isinstance(w, ast.With) and any(r in ast.unparse(i.context_expr) for i in w.items for r in RESTORES):
            if any(n is e.node for b in w.body for n in ast.walk(b)):
                return True
    return False


def off(v, sw, depth=0):
    """truth value of v when the switch is off: True, False or None (can be either)"""
    if depth > 12:
        return None
    if v.op == 'param' and v.x[1] in sw:
        return False
    if v.op == 'const':
        return bool(v.x)
    if v.op == 'narrow' or v.op == 'call' and v.x[0] in ('builtins.bool', 'builtins.int') and len(v.args) == 1:
        return off(v.args[0], sw, depth + 1)
    if v.op == 'un' and v.x in ('not', 'Not'):
        t = off(v.args[0], sw, depth + 1)
        return None if t is None else not t
    if v.op == 'bool' or v.op == 'bin' and v.x in ('BitAnd', 'BitOr'):
        ts = [off(a, sw, depth + 1) for a in v.args]
        stop = v.x in ('or', 'BitOr')
        if stop in ts:
            return stop
        return None if None in ts else not stop
    if v.op == 'bin' and v.x == 'Mult':
        return False if any(off(a, sw, depth + 1) is False for a in v.args) else None
    if v.op == 'join':
        ts = set()
        for a, g in zip(v.args, v.x):
            if any(off(c, sw, depth + 1) is not None and off(c, sw, depth + 1) != p for c, p in flat(g)):
                continue
            ts.add(off(a, sw, depth + 1))
        return ts.pop() if len(ts) == 1 else None
    if v.op == 'mu':
        ts = {off(a, sw, depth + 1) for a in v.args if not a.op == 'undef'} | {off(b, sw, depth + 4) for b in v.back}
        return ts.pop() if len(ts) == 1 else None
    if v.op == 'cmp':
        ks = [0 if a.op == 'param' and a.x[1] in sw else a.x if a.op == 'const' else NotImplemented for a in v.args]
        if NotImplemented not in ks and any(a.op == 'param' for a in v.args):
            a, b = ks
            try:
                return {'Eq': a == b, 'NotEq': a != b, 'Is': a is b or a == b == 0 and b is not None, 'IsNot': a is not b, 'Lt': a is not None and b is not None and a < b,
                        'Gt': a > b if None not in ks else None, 'LtE': a <= b if None not in ks else None, 'GtE': a >= b if None not in ks else None}.get(v.x)
            except TypeError:
                return None
    return None


def defaults(fn):
    """parameters whose default is one mutable object shared by all calls"""
    a = fn.node.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
    return {p.arg for p, d in pairs if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] in ('list', 'dict', 'set', 'array', 'zeros', 'Basis', 'defaultdict')}


def verbose_guarded(e, sw):
    """the output is not reached when the switch is off"""
    return any(off(c, sw) is not None and off(c, sw) != p for c, p in e.guards)


def run(ck):
    prog = ck.ctx.prog
    for m in prog.modules.values():
        for s in m.tree.body:
            for n in ([] if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ast.walk(s)):
                if isinstance(n, ast.Call):
                    t = ast.unparse(n.func)
                    head, _, rest = t.partition('.')
                    r = prog.lookup(m.name, head)
                    full = (r[1] + ('.' + rest if rest else '')) if r and r[0] in ('mod', 'ext') else ('builtins.' + t if r is None else t)
                    if full in GLOBAL_CALLS or full in PRINTS:
                        ck.bad('global-state', 'import of %s calls %s' % (m.name, full), 'qosy/%s.py:%d' % (m.name, n.lineno), 'importing the module calls %s' % full)
                    else:
                        ck.ok('module-level calls')
    for r in ck.ctx.entries():
        I = r.I
        A = Alias(I)
        sw = {p for p in I.params if p in ('verbose', 'verbosity', 'debug')}
        silent = r.fn.module.name in SILENT
        ck.count('entry points')
        if sw:
            ck.count('entry points with a verbosity switch')
        for e in I.trace:
            if e.stack == ('<module init>',) or e.fn.qual.endswith('<module>'):
                continue
            name = None
            if e.kind == 'call':
                name = e.x[0]
            elif e.kind == 'method' and e.args[0].op == 'ext':
                name = e.args[0].x + '.' + e.x
            if name in PRINTS or name and name.startswith('sys.stdout'):
                if 'file' in (e.x[1] if e.kind == 'call' else ()) and not any(a.op == 'ext' and a.x in ('sys.stdout', 'sys.__stdout__') or a.op == 'const' and a.x is None for a in e.args[-len(e.x[1]):]):
                    continue
                if e.fn.module.name in SILENT:
                    ck.bad('prints', '%s prints' % e.fn.qual, e.where, 'a function of a silent part of the library writes to standard output (reached from %s)' % r.name)
                elif silent:
                    ck.bad('prints', '%s prints through %s' % (r.fn.qual, e.fn.qual), e.where, 'entry point %s, which must be silent, reaches this output' % r.name)
                elif sw:
                    if verbose_guarded(e, sw):
                        ck.ok('guarded output calls', '%s: output at %s guarded by the switch' % (r.name, e.where))
                    else:
                        ck.bad('prints', '%s prints although %s is off' % (r.fn.qual, '/'.join(sorted(sw))), e.where, 'entry point %s reaches this output without testing its verbosity switch' % r.name)
                else:
                    ck.count('output of functions without a switch outside the silent parts')
            if name in GLOBAL_CALLS or name and (name.startswith('os.environ')):
                if not in_restoring_with(e):
                    ck.bad('global-state', '%s calls %s' % (e.fn.qual, name), e.where, '%s reads or changes process-wide state (reached from %s)' % (name, r.name))
            elif e.kind == 'call':
                ck.ok('external calls free of global effects')
            if e.kind in ('store_global',):
                ck.bad('global-state', '%s assigns global %s' % (e.fn.qual, e.x), e.where, 'module-level name %s is rebound by %s' % (e.x, r.name))
            if e.kind == 'store_attr' and e.args[0].op in ('mod', 'ext', 'repomod', 'cls', 'func'):
                ck.bad('global-state', '%s sets %s' % (e.fn.qual, e.x[0]), e.where, 'an attribute of a module, class or function is assigned')
            if e.kind in ('store_item', 'aug_item', 'del_item') and e.args[0].op == 'ext':
                ck.bad('global-state', '%s writes %s' % (e.fn.qual, e.args[0].x), e.where, 'an entry of %s is assigned' % e.args[0].x)
        kept = defaults(r.fn)
        for e, target, what in mutations(I):
            if e.stack == ('<module init>',) or e.fn.qual.endswith('<module>'):
                continue
            pts = list(A.pts(target))
            ms = [ob[1] for ob in pts if ob[0] == 'M'] + [ob[1] for ob in pts if ob[0] == 'P' and ob[1] in kept]
            if ms:
                ck.bad('module-table', '%s modifies %s' % (e.fn.qual, ms[0]), e.where, '%s on the module-level or default-argument object %s (reached from %s)' % (what, ms[0], r.name))
            else:
                ck.ok('mutations of local objects')
        # environment reads
        for e in I.trace:
            for a in e.args:
                if a.op == 'item' and a.args and a.args[0].op == 'ext' and a.args[0].x == 'os.environ':
                    ck.bad('global-state', '%s reads os.environ' % e.fn.qual, e.where, 'the environment is read')
    ck.floor('entry points', 150)
    ck.floor('entry points with a verbosity switch', 3)
    ck.floor('guarded output calls', 30)
    ck.floor('mutations of local objects', 2500)
