"""Value-flow graph nodes."""
import itertools

_intern = {}
_uid = itertools.count(1)


def reset():
    global _uid
    _intern.clear()
    _uid = itertools.count(1)


def fresh():
    return next(_uid)


FRESH_CALLS = {
    'copy.deepcopy', 'copy.copy', 'numpy.copy', 'numpy.zeros', 'numpy.ones',
    'numpy.empty', 'numpy.random.rand', 'numpy.random.random', 'numpy.random.randn',
    'numpy.zeros_like', 'numpy.empty_like', 'time.time', 'random.random',
    'builtins.object', 'numpy.full',
}


class V:
    """One abstract value.  `op` names the producing operation, `args` the
    values it is computed from, `x` static details of the operation."""
    __slots__ = ('op', 'args', 'x', 'node', 'uid', 'back', '_key', 'mod', 'tyc')

    def __init__(self, op, args=(), x=None, node=None, mod=None):
        self.op = op
        self.args = tuple(args)
        self.x = x
        self.node = node
        self.mod = mod
        self.uid = fresh()
        self.back = []
        self._key = None
        self.tyc = None

    @property
    def key(self):
        k = self._key
        if k is None:
            if self.op in ('new', 'inst', 'mu', 'unknown', 'undef', 'lambda', 'func', 'bound', 'iter'):
                if self.op == 'func':
                    t = ('func', id(self.x))
                elif self.op == 'bound':
                    t = ('bound', id(self.x), self.args[0].key)
                else:
                    t = (self.op, self.uid)
            elif self.op in ('call', 'mcall') and (self.x[0] in FRESH_CALLS or (self.op == 'mcall' and self.x[0] in ('copy', 'pop'))):
                t = (self.op, self.uid)
            elif self.op == 'const':
                t = ('const', type(self.x).__name__, repr(self.x))
            else:
                t = (self.op, _hx(self.x)) + tuple(a.key for a in self.args)
            k = _intern.get(t)
            if k is None:
                k = len(_intern) + 1
                _intern[t] = k
            self._key = k
        return k

    def __repr__(self):
        return show(self)


def _hx(x):
    if isinstance(x, V):
        return ('V', x.key)
    if isinstance(x, (tuple, list)):
        return tuple(_hx(y) for y in x)
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


def const(c, node=None):
    return V('const', (), c, node)


NONE = const(None)


def is_const(v, c=Ellipsis):
    if v.op != 'const':
        return False
    if c is Ellipsis:
        return True
    return type(v.x) is type(c) and v.x == c


def show(v, d=4):
    if d == 0:
        return '...'
    o = v.op
    a = lambda i: show(v.args[i], d - 1)
    if o == 'const':
        return repr(v.x)
    if o == 'param':
        return v.x[1]
    if o in ('bin', 'aug', 'cmp'):
        return '(%s %s %s)' % (a(0), v.x, a(1))
    if o == 'un':
        return '(%s %s)' % (v.x, a(0))
    if o == 'bool':
        return '(' + (' %s ' % v.x).join(show(x, d - 1) for x in v.args) + ')'
    if o == 'attr':
        return '%s.%s' % (a(0), v.x)
    if o == 'item':
        return '%s[%s]' % (a(0), a(1))
    if o == 'slice':
        return ':'.join('' if is_const(x, None) else show(x, d - 1) for x in v.args)
    if o == 'elem':
        return 'elem(%s)' % a(0)
    if o == 'idx':
        return 'idx(%s)' % ','.join(show(x, d - 1) for x in v.args)
    if o == 'call':
        return '%s(%s)' % (v.x[0], ', '.join(show(x, d - 1) for x in v.args))
    if o == 'mcall':
        return '%s.%s(%s)' % (a(0), v.x[0], ', '.join(show(x, d - 1) for x in v.args[1:]))
    if o in ('rcall', 'dyn'):
        return '%s(%s)' % (v.x if o == 'rcall' else a(0), ', '.join(show(x, d - 1) for x in (v.args if o == 'rcall' else v.args[1:])))
    if o == 'tuple':
        return '(' + ', '.join(show(x, d - 1) for x in v.args) + ')'
    if o == 'new':
        return '%s#%d' % (v.x, v.uid)
    if o == 'inst':
        return '%s#%d' % (v.x.name, v.uid)
    if o == 'join':
        return 'join{' + ' | '.join(show(x, d - 1) for x in v.args) + '}'
    if o == 'mu':
        return 'mu:%s' % (v.x[1],)
    if o == 'narrow':
        return a(0)
    if o in ('func', 'cls', 'ext', 'mod'):
        return str(getattr(v.x, 'qual', v.x))
    return o
