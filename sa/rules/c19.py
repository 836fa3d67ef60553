"""C19: operator types are consistent."""
import itertools

from ..summary import NONE, Unknown, bare, evaluate
from ..types import base, targs
from ..values import is_const, show
from .c06 import runs
from .c18 import where

RULE = ('Every operator, string, basis and list of strings is given the type it carries: a constant, the type of the operands, or the type that was requested. All combinations of operand type and requested type that the conditions on a path allow are '
        'enumerated. For each of them: results carry the type of their operands, or the requested type; operators that are added or multiplied agree; constant letters belong to the type; a type given next to strings that can be an empty list is '
        'the type of those strings; and an operator whose list of strings can be empty is given its type.')
ASSUME = ['the operands of one call have the same type (mixtures are rejected, C10)', 'a basis or list holds strings of one type', 'parameters named op_type, to_op_type are the requested type', 'functions given by the caller (filters) keep the type of what they are given']

NAMES = ('Pauli', 'Majorana', 'Fermion')
LETTERS = {'X': 'Pauli', 'Y': 'Pauli', 'Z': 'Pauli', 'A': 'Majorana', 'B': 'Majorana', 'D': 'Majorana', 'C': 'Fermion', 'CDag': 'Fermion'}
REQUEST = ('op_type', 'to_op_type')
OPERAND = {'OperatorString', 'Operator', 'Basis'}
SAME = {  # result (or its last component) has the type of the first argument
    'algebra.product', 'algebra.commutator', 'algebra.anticommutator', 'algebra._operation_opstring', 'algebra._operation_operator', 'algorithms._truncate_basis', 'algorithms._truncate_operator',
    'algebra.structure_constants', 'algorithms._explore', 'algebra.liouvillian_matrix', 'core.commuting_operators', 'core.invariant_operators', 'tools.remove_zeros',
}
SECOND = {'transformation.Transformation.apply', 'conversion.convert'}
PURE = {'__add__', '__iadd__', '__radd__', '__sub__', '__isub__', '__mul__', '__rmul__', '__imul__', '__neg__', '__truediv__', '__pow__', 'remove_zeros', '__getitem__', '__iter__', '__next__', 'copy', '__copy__', '__deepcopy__'}
COPY = {'copy.deepcopy', 'copy.copy', 'builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed', 'numpy.array', 'numpy.asarray', 'builtins.iter', 'builtins.set', 'builtins.enumerate'}
COMBINE = ('__add__', '__iadd__', '__sub__', '__isub__')
ALGEBRA = ('algebra.product', 'algebra.commutator', 'algebra.anticommutator', 'algebra._operation_opstring', 'algebra._operation_operator')
LIMIT = 200


def rq(v):
    return v.x[0] if isinstance(v.x, tuple) else v.x


def run(ck):
    for fn, r, S in runs(ck):
        if fn.qual == 'operatorstring.OperatorString.__init__':
            continue
        Types(ck, fn, r, S).run()
    ck.floor('operators built', 3)
    ck.floor('results', 3)


class Types:
    def __init__(self, ck, fn, r, S):
        self.ck, self.fn, self.r, self.I, self.S = ck, fn, r, r.I, S
        self.T = r.I.T
        self.memo = {}
        self.busy = {}
        self.cut = 10 ** 6
        self.over = {}

    # ---- types -----------------------------------------------------------------------------------------------------------

    def tag(self, v):
        """alternatives (conditions, type); type: name, 'IN', ('REQ', parameter) or None"""
        v = bare(v)
        k = v.uid
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            self.cut = min(self.cut, self.busy[k])
            return []
        d = len(self.busy)
        if d > 120:
            self.cut = -1
            return [((), None)]
        save, self.cut = self.cut, d
        self.busy[k] = d
        try:
            t = self.tag1(v)
        finally:
            del self.busy[k]
        out = []
        for a in t:
            if a not in out:
                out.append(a)
        if len(out) > LIMIT:
            out = [((), None)]
        if self.cut >= d:
            self.memo[k] = out
        self.cut = min(save, self.cut)
        return out

    def tag1(self, v):
        op = v.op
        none = [((), None)]
        if op == 'const':
            return [((), v.x)] if isinstance(v.x, str) and v.x in NAMES else none
        if op == 'param':
            if v.x[1] in REQUEST:
                return [((), ('REQ', v.x[1]))]
            return [((), 'IN')] if self.operand(v) else none
        if op == 'join':
            out = []
            gs = v.x if isinstance(v.x, (tuple, list)) and len(v.x) == len(v.args) else [()] * len(v.args)
            for g, a in zip(gs, v.args):
                g = tuple(g) if isinstance(g, (tuple, list)) else ()
                out += [(g + h, t) for h, t in self.tag(a)]
            return out
        if op == 'mu':
            out = [x for a in v.args for x in self.tag(a)]
            L = self.I.loops.get(v.x[0])
            for s in L.ends if L is not None else ():
                y = s.env.get(v.x[1])
                if y is not None and y.uid != v.uid:
                    out += self.tag(y)
            return out
        if op == 'attr':
            if v.x in ('op_type', 'op_strings', '_basis'):
                return self.tag(v.args[0])
            return [((), 'IN')] if self.operand(v) else none
        if op in ('item', 'elem', 'slice', 'star', 'narrow'):
            c = bare(v.args[0])
            if op == 'item' and c.op in ('rcall', 'call', 'mcall') and not (c.op == 'rcall' and self.known(c) is not None):
                return none
            if op == 'item' and not self.carrier(v):
                return none
            if op == 'item' and c.op in ('tuple',) or c.op == 'new' and op == 'item' and is_const(v.args[1]):
                xs = c.args if c.op == 'tuple' else self.I.objinit.get(c.uid) or []
                i = v.args[1].x if is_const(v.args[1]) else None
                if isinstance(i, int) and -len(xs) <= i < len(xs):
                    return self.tag(xs[i])
            if op == 'elem' and c.op == 'call' and c.x[0] == 'builtins.zip':
                return none
            if op == 'item' and v.args[1].op == 'const' and bare(v.args[0]).op == 'elem':
                z = bare(bare(v.args[0]).args[0])
                if z.op == 'call' and z.x[0] == 'builtins.zip' and isinstance(v.args[1].x, int) and v.args[1].x < len(z.args):
                    return self.tag(z.args[v.args[1].x])
                if z.op == 'call' and z.x[0] == 'builtins.enumerate' and z.args:
                    return self.tag(z.args[0]) if v.args[1].x == 1 else none
            return self.tag(v.args[0])
        if op == 'inst':
            d = self.made(v)
            if v.x.name in ('OperatorString', 'Operator'):
                t = d.get('op_type')
                if t is not None and not is_const(t, None):
                    return self.tag(t)
            if v.x.name in ('Operator', 'Basis'):
                s = d.get('op_strings')
                return self.tag(s) if s is not None and not is_const(s, None) else []
            return none
        if op == 'new':
            if v.x not in ('list', 'tuple', 'set'):
                return none
            out = []
            for x in self.I.objinit.get(v.uid) or []:
                out += self.tag(x)
            for e in self.I.byobj.get(v.uid) or ():
                if e.kind == 'method' and e.x in ('append', 'add', 'insert') and len(e.args) > 1:
                    out += [(tuple(e.guards) + h, t) for h, t in self.tag(e.args[-1])]
                elif e.kind == 'method' and e.x in ('extend', 'update') and len(e.args) > 1:
                    out += [(tuple(e.guards) + h, t) for h, t in self.tag(e.args[1])]
                elif e.kind == 'store_item':
                    out += self.tag(e.args[2] if len(e.args) > 2 else e.args[-1])
            return out
        if op == 'rcall':
            if rq(v) in ('basis.Basis.__add__', 'basis.Basis.__iadd__') and len(v.args) > 1:
                return self.tag(v.args[0]) + [x for x in self.tag(v.args[1]) if x[1] is not None or not self.tag(v.args[0])]
            k = self.known(v)
            return self.tag(k) if k is not None else none
        if op == 'dyn':
            for a in v.args[1:]:
                t = self.tag(a) if not self.numeric(a) else none
                if not t or any(x is not None for g, x in t):
                    return t
            return none
        if op == 'call':
            if v.x[0] in COPY and v.args:
                return self.tag(v.args[0])
            return none
        if op == 'mcall':
            if v.x[0] in ('copy', 'pop', 'remove_zeros') and v.args:
                return self.tag(v.args[0])
            return none
        if op in ('bin', 'aug') and v.x in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
            if self.numeric(v):
                return none
            for a in v.args[:2]:
                if self.numeric(a):
                    continue
                t = self.tag(a)
                if not t or any(x is not None for g, x in t):
                    return t
            return none
        if op == 'un':
            return self.tag(v.args[0])
        return none

    def carrier(self, v):
        """may v hold operators, strings or bases?"""
        t = self.T.ty(v)
        return base(t) not in ('array', 'float', 'int', 'complex', 'num', 'bool', 'sparse', 'dict') and not (base(t) == 'list' and targs(t) and base(targs(t)[0]) in ('float', 'int', 'complex', 'num', 'bool', 'array'))

    def numeric(self, v):
        v = bare(v)
        if v.op == 'attr' and v.x not in ('op_type', 'op_strings', '_basis'):
            return True
        if v.op == 'const':
            return not isinstance(v.x, str)
        b = base(self.T.ty(v))
        return b in ('array', 'float', 'int', 'complex', 'num', 'bool', 'sparse')

    def operand(self, v):
        t = self.T.ty(v)
        for _ in range(4):
            b = base(t)
            if b in OPERAND:
                return True
            if b == '':
                return False
            a = targs(t)
            if b not in ('list', 'tuple', 'set') or not a:
                return False
            t = a[-1]
        return False

    def known(self, v):
        """the argument whose type the result of this call has"""
        q = rq(v)
        if q in SAME and v.args:
            return v.args[0]
        if q in SECOND and len(v.args) > 1:
            return v.args[1]
        if q == 'operatorstring.opstring' and len(v.args) > 1 and not is_const(v.args[1], None):
            return v.args[1]
        c, m = q.rsplit('.', 1)
        if c in ('basis.Operator', 'basis.Basis') and m in PURE and v.args:
            return v.args[0]
        return None

    def made(self, v):
        if not hasattr(self, '_made'):
            self._made = {e.val.uid: dict(e.x[1]) for e in self.I.trace if e.kind == 'instantiate' and e.val is not None}
        return self._made.get(v.uid, {})

    # ---- combinations of types -------------------------------------------------------------------------------------------

    def requests(self):
        out = [p for p in self.fn.params() if p in REQUEST]
        return out

    def assignments(self, extra=()):
        names = ['IN'] + [('REQ', p) for p in self.requests()]
        none = {n for n, e in self.fn.defaults().items() if getattr(e, 'value', 0) is None}
        doms = [NAMES] + [NAMES + ((None,) if p in none else ()) + tuple(extra) for p in self.requests()]
        for xs in itertools.product(*doms):
            yield dict(zip(names, xs))

    def value(self, t, a):
        return a.get(t, NONE) if t == 'IN' or isinstance(t, tuple) else t

    def leaf(self, a):
        def f(v):
            if v.key in self.over:
                return self.over[v.key]
            if v.op == 'param' and v.x[1] in REQUEST or v.op == 'attr' and v.x == 'op_type':
                xs = self.pick(v, a)
                if len(xs) == 1:
                    x = next(iter(xs))
                    if x is not UNK:
                        return x
                raise Unknown('type')
            if v.op in ('const', 'tuple', 'cmp', 'bool', 'un', 'join', 'item', 'narrow'):
                return NONE
            if v.op == 'new' and v.x in ('list', 'tuple', 'set') and not self.I.byobj.get(v.uid):
                xs = self.I.objinit.get(v.uid)
                if xs and all(is_const(x) for x in xs):
                    return tuple(x.x for x in xs)
            raise Unknown('other')
        return f

    def holds(self, guards, a):
        """False: the conditions exclude this combination"""
        for g, p in guards:
            k = (g.key, tuple(sorted(map(repr, a.items()))), tuple(sorted(map(repr, self.over.items()))))
            if not hasattr(self, 'gm'):
                self.gm = {}
            if k not in self.gm:
                self.gm[k] = None
                try:
                    self.gm[k] = bool(evaluate(g, self.leaf(a)))
                except (Unknown, RecursionError):
                    pass
            if self.gm[k] is not None and self.gm[k] != bool(p):
                return False
        return True

    def pick(self, v, a):
        """the types v can have under this combination"""
        out = set()
        for g, t in self.tag(v):
            if not self.holds(g, a):
                continue
            x = self.value(t, a) if t is not None else UNK
            out.add(UNK if x is NONE else x)
        return out

    def single(self, v, a):
        xs = self.pick(v, a)
        return next(iter(xs)) if len(xs) == 1 and UNK not in xs and None not in xs else None

    def one(self, v, a):
        xs = self.pick(v, a) - {UNK, None}
        return next(iter(xs)) if len(xs) == 1 else None

    def clash(self, x, y, guards, both=True):
        """a combination of types for which x and y certainly differ"""
        for a in self.assignments():
            if not self.holds(guards, a):
                continue
            p, q = self.single(x, a), self.single(y, a)
            if (p is None) != (q is None):
                # one of them has alternatives of unknown type besides one that is known
                p = self.one(x, a) if p is None else p
                q = self.one(y, a) if q is None else q
            if p is not None and q is not None and p != q:
                return a, p, q
        return None

    # ---- rules -----------------------------------------------------------------------------------------------------------

    def bad(self, rule, e, msg):
        self.ck.bad(rule, getattr(e.fn, 'qual', self.fn.qual), where(e.fn or self.fn, e.node), msg)

    def run(self):
        I = self.I
        for e in I.trace:
            if e.kind == 'instantiate' and e.x[0] == 'basis.Operator':
                self.operator(e)
            elif e.kind == 'instantiate' and e.x[0] == 'operatorstring.OperatorString':
                self.letters(e)
            elif e.kind == 'rcall' and e.val is not None and e.args:
                q = rq(e.val)
                if q.rsplit('.', 1)[0] == 'basis.Operator' and q.rsplit('.', 1)[1] in COMBINE or q in ALGEBRA:
                    if len(e.args) > 1:
                        self.combine(e, e.args[0], e.args[1])
        self.sums()
        self.results()

    def words(self, a, p, q):
        c = ['operands of type %s' % a['IN']] + ['%s=%r' % (n[1], x) for n, x in a.items() if n != 'IN']
        return ', '.join(c)

    def sums(self):
        """sums whose operands are only known to be operators by their type tags"""
        seen = set()
        for e in self.I.trace:
            st = list(e.args) + ([e.val] if e.val is not None else [])
            while st:
                v = st.pop()
                if v.uid in seen:
                    continue
                seen.add(v.uid)
                if v.op in ('bin', 'aug') and v.x in ('Add', 'Sub') and len(v.args) > 1 and not self.numeric(v):
                    k = [bare(a) for a in v.args[:2]]
                    if any(a.op in ('inst', 'rcall', 'join', 'mu', 'param', 'item', 'elem') and base(self.T.ty(a)) == 'Operator' for a in k):
                        self.combine(e, v.args[0], v.args[1])
                st.extend(v.args)

    def combine(self, e, x, y):
        c = self.clash(x, y, e.guards)
        self.ck.count('operators combined')
        if c:
            self.bad('different types combined', e, 'for %s an operator of type %s is combined with one of type %s' % (self.words(*c), c[1], c[2]))
        else:
            self.ck.ok()

    def operator(self, e):
        d = dict(e.x[1])
        s, t = d.get('op_strings'), d.get('op_type')
        self.ck.count('operators built')
        if t is not None and is_const(t, None):
            t = None
        if s is not None and is_const(s, None):
            s = None
        if t is None:
            why = 'no strings are given' if s is None else None if self.sized(e, s) else self.empty(s)
            if why:
                self.bad('operator without a type', e, 'the list of strings can be empty (%s) and no op_type is given: constructing the zero operator fails' % why)
                return
        elif s is not None and self.empty(s):
            c = self.clash(t, s, e.guards)
            if c:
                self.bad('type of an empty operator', e, 'for %s the operator is given type %s, and its strings, if there are any, have type %s' % (self.words(*c), c[1], c[2]))
                return
        self.ck.ok()

    def sized(self, e, s):
        """the construction is guarded by a condition on how many strings or terms there are"""
        rel = {bare(s).key}
        for x in self.I.byobj.get(bare(s).uid) or ():
            for L in x.loops[-1:]:
                rel |= self.containers(L.iter)
                rel |= {y.args[0].key for y in self.I.trace if y.kind in ('method', 'store_item') and y.args and y.loops and y.loops[-1] is L and y.args[0].op == 'new'}
        for g, p in e.guards:
            st = [g]
            while st:
                v = st.pop()
                if v.key in rel:
                    return True
                st.extend(v.args)
        return False

    def containers(self, it, depth=0):
        if it is None or depth > 5:
            return set()
        it = bare(it)
        if it.op == 'call' and it.x[0] in ('builtins.zip', 'builtins.enumerate', 'builtins.range', 'builtins.len', 'numpy.arange', 'builtins.reversed', 'builtins.sorted') or it.op == 'rcall' and rq(it).endswith('__len__') or it.op == 'mcall':
            return {k for a in it.args for k in self.containers(a, depth + 1)}
        return set() if it.op == 'const' else {it.key}

    def empty(self, s, depth=0):
        """why the list of strings s can be empty (None: not shown)"""
        I = self.I
        s = bare(s)
        if depth > 8:
            return None
        if s.op == 'call' and s.x[0] in COPY and s.args:
            return self.empty(s.args[0], depth + 1)
        if s.op == 'attr' and s.x in ('op_strings', '_basis'):
            o = bare(s.args[0])
            if o.op == 'attr' and o.x == '_basis':
                o = bare(o.args[0])
            if s.x == 'op_strings' and o.op == 'rcall' and rq(o) == 'algorithms._truncate_basis':
                return 'every string may be removed by the truncation'
            if o.op == 'inst' and o.x.name == 'Basis':
                x = self.made(o).get('op_strings')
                return self.empty(x, depth + 1) if x is not None and not is_const(x, None) else None
            if base(self.T.ty(o)) == 'Operator' and o.op in ('param', 'elem', 'item', 'attr'):
                return 'the operator %s may be zero' % show(o, 3)
            if o.op == 'rcall' and rq(o) in ('basis.Operator.remove_zeros', 'algebra.commutator', 'basis.Operator.__sub__'):
                return 'the result of %s may be zero' % rq(o).split('.')[-1]
            return None
        if s.op == 'new' and s.x == 'list':
            if I.objinit.get(s.uid):
                return None
            es = [e for e in I.byobj.get(s.uid) or () if e.kind == 'method' and e.x in ('append', 'insert', 'extend')]
            if not es:
                return 'it is an empty list' if not I.byobj.get(s.uid) else None
            why = None
            for e in es:
                w = self.skipped(e, s)
                if w is None:
                    return None
                why = why or w
            return why
        return None

    def skipped(self, e, s):
        """why this append may never run"""
        if not e.loops:
            return None
        inner = e.loops[-1]
        n = len(inner.guards)
        if any(self.data(g) for g, p in e.guards[n:]):
            return 'strings are added under the condition %s' % show(e.guards[-1][0], 4)
        for L in e.loops:
            it = bare(L.iter) if L.iter is not None else None
            w = self.nothing(it)
            if w:
                return w
        return None

    def data(self, g):
        """a condition on values: certainly not on types or options"""
        vals = [g]
        seen = set()
        while vals:
            v = vals.pop()
            if v.uid in seen:
                continue
            seen.add(v.uid)
            if v.op in ('elem', 'idx', 'mu'):
                return True
            vals += list(v.args)
        return False

    def nothing(self, it, depth=0):
        if it is None or depth > 5:
            return None
        if it.op == 'call' and it.x[0] in ('builtins.zip', 'builtins.enumerate', 'builtins.range', 'builtins.len', 'numpy.arange', 'builtins.reversed', 'builtins.sorted') and it.args:
            for a in it.args:
                w = self.nothing(bare(a), depth + 1)
                if w:
                    return w
            return None
        if it.op == 'rcall' and rq(it) == 'basis.Operator.__len__':
            return self.nothing(bare(it.args[0]), depth + 1)
        if it.op in ('param', 'elem', 'item', 'attr', 'inst', 'rcall') and base(self.T.ty(it)) == 'Operator':
            return 'the operator %s may be zero' % show(it, 3)
        if it.op == 'attr' and it.x in ('coeffs', '_basis', 'op_strings'):
            o = bare(it.args[0])
            if o.op == 'attr':
                o = bare(o.args[0])
            if base(self.T.ty(o)) == 'Operator':
                return 'the operator %s may be zero' % show(o, 3)
        if it.op in ('item',) and bare(it.args[0]).op == 'call' and bare(it.args[0]).x[0] in ('numpy.where', 'numpy.nonzero') or it.op == 'call' and it.x[0] in ('numpy.flatnonzero',):
            return 'no entry may be selected by %s' % show(it, 3)
        if it.op == 'mcall' and it.x[0] in ('keys', 'values', 'items') and it.args:
            return self.nothing(bare(it.args[0]), depth + 1)
        if it.op == 'new' and it.x == 'dict' and not self.I.objinit.get(it.uid) and self.stored(it):
            for e in self.stored(it):
                w = self.skipped(e, it)
                if w is None:
                    return None
            return w
        if it.op == 'new' and it.x == 'list' and not self.I.objinit.get(it.uid):
            es = [e for e in self.I.byobj.get(it.uid) or ()]
            if es and all(e.kind == 'method' and e.x == 'append' for e in es):
                for e in es:
                    w = self.skipped(e, it)
                    if w is None:
                        return None
                return w
        return None

    def stored(self, d):
        return [e for e in self.I.byobj.get(d.uid) or () if e.kind == 'store_item']

    def letters(self, e):
        d = dict(e.x[1])
        ops, t = d.get('orbital_operators'), d.get('op_type')
        if ops is None or t is None:
            return
        for g, x in self.constants(ops):
            for a in self.assignments():
                if not self.holds(tuple(e.guards) + tuple(g), a):
                    continue
                k = self.single(t, a)
                if k is not None and LETTERS[x] != k:
                    self.bad('letter of another type', e, 'for %s the string of type %s contains the letter %r' % (self.words(a, 0, 0), k, x))
                    return
            self.ck.ok('constant letters')

    def constants(self, v, depth=0):
        v = bare(v)
        if depth > 8:
            return []
        if v.op == 'const':
            return [((), v.x)] if isinstance(v.x, str) and v.x in LETTERS else []
        if v.op == 'join':
            gs = v.x if isinstance(v.x, (tuple, list)) and len(v.x) == len(v.args) else [()] * len(v.args)
            return [(tuple(g if isinstance(g, (tuple, list)) else ()) + tuple(h), x) for g, a in zip(gs, v.args) for h, x in self.constants(a, depth + 1)]
        if v.op in ('bin', 'aug') and v.x in ('Add', 'Mult'):
            return [y for a in v.args[:2] for y in self.constants(a, depth + 1)]
        if v.op == 'tuple':
            return [y for a in v.args for y in self.constants(a, depth + 1)]
        if v.op == 'elem':
            return self.constants(v.args[0], depth + 1)
        if v.op == 'call' and v.x[0] in ('itertools.product', 'itertools.combinations', 'itertools.permutations') and v.args:
            return self.constants(v.args[0], depth + 1)
        if v.op == 'new' and v.x == 'list':
            out = [y for a in self.I.objinit.get(v.uid) or [] for y in self.constants(a, depth + 1)]
            for e in self.I.byobj.get(v.uid) or ():
                if e.kind == 'method' and e.x == 'append' and len(e.args) > 1:
                    out += [(tuple(e.guards) + tuple(h), x) for h, x in self.constants(e.args[1], depth + 1)]
            return out
        return []

    def results(self):
        fn = self.fn
        public = not fn.name.startswith('_') or fn.name.startswith('__') and fn.name != '__init__' or fn.qual in SAME or fn.module.name == 'transformation' and self.rule_like()
        if not public or fn.module.name not in ('algebra', 'basis', 'operatorstring', 'conversion', 'transformation', 'symmetrization', 'algorithms', 'core', 'diagonalization', 'tools'):
            return
        req = self.requests()
        for val, guards, node, state in self.I.returns:
            for g, v in self.parts(val):
                b = base(self.T.ty(v))
                if v.op not in ('inst', 'mu', 'join', 'rcall', 'param', 'new', 'bin', 'aug', 'item', 'elem') or b not in OPERAND and v.op != 'inst':
                    continue
                self.ck.count('results')
                for a in self.assignments():
                    if not self.holds(tuple(guards) + tuple(g), a):
                        continue
                    want = a[('REQ', req[0])] if req else a['IN'] if self.hasoperand() else None
                    got = [x for x in self.pick(v, a) if x is not UNK and x is not None and x != want]
                    t = self.made(v).get('op_type') if v.op == 'inst' else None
                    if t is not None and got:
                        # the conditions on the path may also test this very type
                        keep = []
                        for x in got:
                            self.over = {bare(t).key: x}
                            if self.holds(tuple(guards) + tuple(g), a):
                                keep.append(x)
                            self.over = {}
                        got = keep
                    if want is not None and got:
                        got = got[0]
                        self.ck.bad('type of a result', fn.qual, where(fn, node), 'for %s the result has type %s instead of %s' % (self.words(a, 0, 0), got, want))
                        break
                else:
                    self.ck.ok()

    def rule_like(self):
        """a transformation rule: passed around as a value, so it is not seen through its callers"""
        import ast
        fn = self.fn
        for f in self.I.prog.functions():
            if f.module is not fn.module:
                continue
            called = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
            for n in ast.walk(f.node):
                if (isinstance(n, ast.Name) and n.id == fn.name or isinstance(n, ast.Attribute) and n.attr == fn.name) and id(n) not in called:
                    return True
        return False

    def hasoperand(self):
        return any(base(self.r.types.get(p, '').lstrip('?')) in OPERAND or any(c in self.r.types.get(p, '') for c in OPERAND) for p in self.fn.params())

    def parts(self, v, depth=0):
        v = bare(v)
        if depth > 4:
            return []
        if v.op == 'tuple':
            return [y for a in v.args for y in self.parts(a, depth + 1)]
        if v.op == 'join':
            gs = v.x if isinstance(v.x, (tuple, list)) and len(v.x) == len(v.args) else [()] * len(v.args)
            return [(tuple(g if isinstance(g, (tuple, list)) else ()) + tuple(h), x) for g, a in zip(gs, v.args) for h, x in self.parts(a, depth + 1)]
        return [((), v)]


UNK = object()
