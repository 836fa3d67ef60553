"""C06: the i-th coefficient belongs to the i-th string."""
from ..spaces import Spaces, opaque, rq
from ..summary import bare
from ..values import V, is_const, show
from .c18 import where

RULE = ('Every basis, list, array axis and index is given the space (which basis in which version, which selection) its positions refer to. Coefficients and strings of each operator that is built must refer to the same space; '
        'lists of coefficients and strings are filled in step, each pair from the same position of the same source; an index is only used in data laid out in its own basis; coefficients that are added to '
        'existing ones are accumulated.')
ASSUME = ['different parameters, fields and results of different calls may differ in content and order', 'Basis.index and iteration agree (C05)']


def runs(ck):
    """every function with the public constructors of operators and bases kept symbolic"""
    from ..entries import variants
    prog = ck.ctx.prog
    out = getattr(ck.ctx, '_spaces', None)
    if out is not None:
        return out
    out = []
    for fn in list(prog.judged()):
        for i, tys in enumerate(variants(fn)):
            r = None
            try:
                r = ck.ctx.run_one(fn, tys, i, opaque=opaque(prog, fn))
            except Exception as e:
                from ..interp import AnalysisError
                if not isinstance(e, (AnalysisError, RecursionError)):
                    raise
                ck.ctx.failures.append('%s: %s' % (fn.qual, e))
            if r is not None:
                out.append((fn, r, Spaces(r.I, fn)))
    ck.ctx._spaces = out
    return out


def run(ck):
    for fn, r, S in runs(ck):
        P = Pairs(ck, fn, r.I, S)
        P.run(r)
    ck.floor('operators built', 3)


def at(e, fn):
    return where(getattr(e, 'fn', None) or fn, e.node)


LOOKUP = ('basis.Basis.index',)
PLAIN = {'numpy.abs', 'numpy.real', 'numpy.conj', 'numpy.conjugate', 'builtins.complex', 'builtins.float', 'numpy.complex128', 'builtins.abs', 'numpy.imag'}
ROOTS = ('atom', 'ext', 'grow', 'mu', 'sel', 'phi', 'list')
ARR = {'numpy.array', 'builtins.list', 'numpy.asarray', 'numpy.copy', 'builtins.tuple'}


class Pairs:
    def __init__(self, ck, fn, I, S):
        self.ck, self.fn, self.I, self.S = ck, fn, I, S

    def padded(self, e):
        """strings that an operator did not have get the coefficient zero"""
        names = list(e.x[1])
        pos = list(e.args[:len(e.args) - len(names)])
        kw = dict(zip(names, e.args[len(pos):]))
        mode = kw.get('mode', pos[2] if len(pos) > 2 else None)
        fill = kw.get('constant_values')
        mode = None if mode is None else bare(mode)
        if mode is not None and mode.op != 'const':
            self.ck.unsure('padding', self.fn.qual)
        elif mode is not None and mode.x != 'constant':
            self.ck.bad('coefficients of new strings', self.fn.qual, at(e, self.fn), '%s extends coefficients with the padding %r: strings that the operator did not contain get coefficients other than zero' % (self.fn.qual, mode.x))
        elif fill is not None and not (bare(fill).op == 'const' and bare(fill).x == 0):
            self.ck.unsure('padding', self.fn.qual) if bare(fill).op != 'const' else self.ck.bad('coefficients of new strings', self.fn.qual, at(e, self.fn), '%s extends coefficients with %s instead of zeros' % (self.fn.qual, show(fill, 2)))
        else:
            self.ck.ok('coefficients extended', self.fn.qual)

    def run(self, r):
        I = self.I
        for e in I.trace:
            if e.kind == 'call' and e.x[0] == 'numpy.pad' and e.args and existing(e.args[0]) is not None:
                self.padded(e)
            if e.kind == 'instantiate' and e.x[0] == 'basis.Operator':
                d = dict(e.x[1])
                c, s = d.get('coeffs'), d.get('op_strings')
                if c is not None and s is not None and not is_const(c, None) and not is_const(s, None):
                    self.pair(e, bare(c), bare(s))
            elif e.kind in ('store_item', 'aug_item') and e.args:
                self.store(e)
            elif e.kind == 'call' and e.x[0] == 'builtins.zip' and len(e.args) >= 2:
                self.zip(e)
        self.terms()
        self.shown()
        self.reads()
        self.fields(r)

    def bad(self, rule, e, msg):
        self.ck.bad(rule, getattr(e.fn, 'qual', self.fn.qual), at(e, self.fn), msg)

    # ---- identities ------------------------------------------------------------------------------------------------------

    def place(self, i, t):
        """identity of the position i of a space t"""
        i = bare(i)
        if i.op == 'idx':
            return ('loop', i.x[0])
        if i.op == 'elem':
            # an element of a list of positions
            return ('loop', i.x)
        if i.op == 'const':
            return ('const', i.x)
        if i.op == 'mu':
            L = self.I.loops.get(i.x[0])
            if L is not None and self.S.space(i) is not None:
                return ('loop', L.id)
        if i.op in ('bin', 'aug') and i.x in ('Add', 'Sub'):
            for a, b in ((i.args[0], i.args[1]), (i.args[1], i.args[0])):
                if b.op == 'const' and b.x not in (0, 0.0):
                    p = self.place(a, t)
                    if p[0] == 'loop':
                        return ('shift', p, i.x, b.x)
        return ('key', i.key)

    def atpos(self, t, i):
        """the string at position i of the basis t"""
        b = bare(i)
        if b.op == 'rcall' and rq(b) in LOOKUP or b.op == 'mcall' and b.x[0] == 'index' and len(b.args) == 2:
            r = self.S.fits(self.S.basis(b.args[0]), t)
            if r == 'diff':
                return ('at', t, ('other',))
            return self.ident(b.args[1]) or ('str', bare(b.args[1]).key)
        return ('at', t, self.place(i, t))

    def ident(self, s):
        """which string (or operator of a list) is s?"""
        S = self.S
        s = bare(s)
        if s.op == 'elem':
            b = bare(s.args[0])
            if b.op == 'new' and b.x == 'dict':
                return ('key', b.uid, ('loop', s.x))
            if b.op == 'mcall' and b.x[0] == 'keys':
                return ('key', bare(b.args[0]).uid, ('loop', s.x))
            t = S.basis(b)
            if t is None:
                a = S.axes(b)
                t = a[0] if a and len(a) == 1 else None
            return ('at', t, ('loop', s.x)) if t is not None else None
        if s.op == 'item':
            b = bare(s.args[0])
            if s.args[1].op == 'const' and s.args[1].x == 1:
                if b.op == 'elem' and S.cls(bare(b.args[0])) == 'Operator':
                    return ('at', S.basis(b.args[0]), ('loop', b.x))
                if b.op == 'rcall' and rq(b) in RESULTS:
                    return ('result', rq(b), b.key)
            if s.args[1].op not in ('slice', 'tuple'):
                t = S.basis(b)
                if t is not None and not (b.op == 'new' and b.x == 'dict'):
                    return self.atpos(t, s.args[1])
        if s.op == 'rcall' and rq(s) == 'basis.Basis.__getitem__':
            t = S.basis(s.args[0])
            return self.atpos(t, s.args[1]) if t is not None else None
        return None

    def owners(self, c, depth=0):
        """the strings that c is a coefficient of (factors: one each)"""
        S = self.S
        c = bare(c)
        if depth > 8:
            return []
        if c.op in ('bin', 'aug') and c.x in ('Mult', 'Div'):
            return self.owners(c.args[0], depth + 1) + (self.owners(c.args[1], depth + 1) if c.x == 'Mult' else [])
        if c.op == 'un':
            return self.owners(c.args[0], depth + 1)
        if c.op == 'call' and c.x[0] in PLAIN and len(c.args) == 1:
            return self.owners(c.args[0], depth + 1)
        if c.op == 'attr' and c.x in ('real', 'imag'):
            return self.owners(c.args[0], depth + 1)
        if c.op == 'elem':
            b = bare(c.args[0])
            if b.op == 'mcall' and b.x[0] == 'values':
                return [('key', bare(b.args[0]).uid, ('loop', c.x))]
            a = S.axes(b) if S.cls(b) not in ('Basis', 'Operator') else None
            if a and len(a) == 1 and a[0] is not None and a[0][0] in ROOTS and self.vector(b):
                return [('at', a[0], ('loop', c.x))]
            return []
        if c.op == 'item':
            b = bare(c.args[0])
            i = c.args[1]
            if is_const(i, 0):
                if b.op == 'elem' and S.cls(bare(b.args[0])) == 'Operator':
                    return [('at', S.basis(b.args[0]), ('loop', b.x))]
                if b.op == 'rcall' and rq(b) in RESULTS:
                    return [('result', rq(b), b.key)]
            if b.op == 'new' and b.x == 'dict':
                j = bare(i)
                if j.op == 'elem' and bare(j.args[0]).uid == b.uid:
                    return [('key', b.uid, ('loop', j.x))]
                return []
            if i.op == 'slice':
                return []
            parts = i.args if i.op == 'tuple' else (i,)
            # one column of several vectors
            if b.op == 'item' and b.args[1].op == 'tuple' and len(parts) == 1:
                return self.owners(V('item', (b.args[0], V('tuple', (i,) + tuple(b.args[1].args[1:]))), None), depth + 1) if b.args[1].args[0].op == 'slice' and all(is_const(x, None) for x in b.args[1].args[0].args) else []
            a = S.axes(b)
            if a and len(a) == len(parts) and not any(p.op == 'slice' or S.isarray(p) for p in parts):
                t = a[0]
                if t is not None and t[0] in ROOTS and self.vector(b):
                    return [self.atpos(t, parts[0])]
                if t is None and len(parts) == 2:
                    d = self.dims(b, parts[0])
                    return [d] if d else []
            elif not a and len(parts) == 2 and not any(p.op == 'slice' or S.isarray(p) for p in parts):
                d = self.dims(b, parts[0])
                return [d] if d else []
        return []

    def dims(self, b, i):
        """entry of a matrix of unknown layout: its row number"""
        p = self.place(i, None)
        return ('row', b.key, p) if p[0] == 'loop' else None

    def vector(self, b):
        """a vector of coefficients (not a list of labels)"""
        b = bare(b)
        if b.op == 'attr':
            return b.x == 'coeffs'
        if b.op == 'new':
            es = self.I.byobj.get(b.uid, ())
            return any(e.kind == 'method' and e.x == 'append' and self.owners(e.args[1]) for e in es)
        return b.op != 'param' and self.S.elems(b) is None

    def aligned(self, a, b):
        S = self.S
        if a is None or b is None:
            return None
        r = S.compare(a, b)
        if r == 'diff' and (a in S.chain(b) or b in S.chain(a)):
            return 'same'
        return r

    def agree(self, o, i):
        """owner o of a coefficient against the string i"""
        if o is None or i is None:
            return None
        if o == i:
            return 'same'
        if o[0] == i[0] == 'at':
            if o[2] == ('other',) or i[2] == ('other',):
                return 'diff'
            r = self.aligned(o[1], i[1])
            if r == 'same':
                if o[2] == i[2]:
                    return 'same'
                k = {o[2][0], i[2][0]}
                if k <= {'loop', 'const', 'shift'}:
                    return 'diff'
            elif r == 'diff' and o[2][0] == i[2][0] == 'loop':
                return 'diff'
            return None
        if o[0] == i[0] == 'result':
            return 'diff' if o[1] == i[1] and o[2] != i[2] else None
        if o[0] == i[0] == 'key':
            return 'diff' if o[1] == i[1] and o[2] != i[2] else None
        if o[0] == 'row' and i[0] == 'at' and i[2][0] == 'loop' and o[2][0] == 'loop':
            return 'same' if o[2] == i[2] else 'diff'
        return None

    def match(self, e, c, s, what='an operator'):
        os = self.owners(c)
        i = self.ident(s)
        rs = [self.agree(o, i) for o in os]
        if not rs or i is None:
            return None
        if 'same' in rs:
            self.ck.ok('coefficient and string from the same place', getattr(e.fn, 'qual', ''))
            return 'same'
        if all(r == 'diff' for r in rs):
            self.bad('coefficient of another string', e, 'in %s, the coefficient %s does not belong to the string %s it is stored with' % (what, show(bare(c), 3), show(bare(s), 3)))
            return 'diff'
        return None

    # ---- obligations -----------------------------------------------------------------------------------------------------

    def pair(self, e, c, s):
        ck, S, I = self.ck, self.S, self.I
        ck.count('operators built')
        name = getattr(e.fn, 'qual', self.fn.qual)
        xs, ys = literal(I, c), literal(I, s)
        if xs is not None and ys is not None and len(xs) == len(ys):
            for x, y in zip(xs, ys):
                self.match(e, x, y)
            return
        r, a, t = None, None, S.basis(s)
        sc, cs = self.sorts(c)
        a = S.axes(cs)
        a = a[0] if a and len(a) in (1, 2) else None
        r = S.compare(a, t)
        if sc:
            r = 'diff'
        if r != 'diff':
            k = self.instep(c, s)
            r = k or r
        if r == 'same':
            ck.ok('operators built from matching coefficients and strings', '%s: %s' % (name, S.show(t)))
        elif r == 'diff':
            self.bad('coefficients and strings of different bases', e, 'an operator is built from coefficients laid out in %s%s and the strings of %s' % (S.show(a), ' (re-ordered by value)' if sc else '', S.show(t)))
        else:
            ck.unsure('coefficients and strings', '%s: %s / %s' % (name, show(c, 3), show(s, 3)))
        if r != 'diff':
            ce, se = appended(I, c), appended(I, s)
            if ce and se:
                for p in ce:
                    for q in se:
                        if p.loops == q.loops and p.guards == q.guards:
                            self.match(e, p.args[1], q.args[1])

    def sorts(self, c):
        """values that are re-ordered without their strings"""
        b = bare(c)
        st = [b]
        for _ in range(4):
            nxt = []
            for x in st:
                x = bare(x)
                if x.op == 'call' and x.x[0] in ('numpy.sort', 'builtins.sorted', 'numpy.flip', 'builtins.reversed', 'numpy.unique', 'numpy.roll', 'numpy.random.permutation'):
                    return True, c
                if x.op in ('bin', 'un'):
                    nxt += x.args
            st = nxt
        return False, c

    def instep(self, c, s):
        """two lists that are filled by appending: in the same loops under the same conditions?"""
        ce, se = appended(self.I, c), appended(self.I, s)
        if not ce or not se:
            return None
        g = lambda es: sorted((tuple(l.id for l in e.loops), tuple(sorted({(x.key, bool(p)) for x, p in e.guards}, key=repr))) for e in es)
        a, b = g(ce), g(se)
        if a == b:
            return 'same'
        if len(a) == len(b) == 1:
            if a[0][0] == b[0][0]:
                return 'diff'
            la, lb = self.I.loops[a[0][0][-1]] if a[0][0] else None, self.I.loops[b[0][0][-1]] if b[0][0] else None
            if la is not None and lb is not None and la is not lb and a[0][1] == b[0][1] and a[0][0][:-1] == b[0][0][:-1] and la.iter is not None and lb.iter is not None:
                x, y = self.order(la.iter), self.order(lb.iter)
                if x and y and x != y and x[1] == y[1]:
                    return 'diff'
        return None

    def order(self, it):
        """(order, source) of an iteration over a dictionary or list object"""
        it = bare(it)
        o = ()
        while it.op == 'call' and it.x[0] in ('builtins.sorted', 'builtins.reversed', 'builtins.set') and it.args or it.op == 'mcall' and it.x[0] in ('keys', 'values', 'items'):
            if it.op == 'call':
                o += (it.x[0],)
            it = bare(it.args[0])
        return (o, it.uid) if it.op in ('new', 'param', 'attr') else None

    def store(self, e):
        """coefficients written to the positions of their strings"""
        ck, S = self.ck, self.S
        b, i, rhs = bare(e.args[0]), e.args[1], e.args[2]
        if b.op == 'new' and b.x == 'dict':
            self.dictionary(e, b, i, rhs)
            return
        a = S.axes(b)
        if not a:
            return
        name = getattr(e.fn, 'qual', self.fn.qual)
        parts = i.args if i.op == 'tuple' else (i,)
        t = a[0]
        if t is not None and t[0] in ROOTS and len(a) == 1 and len(parts) == 1:
            if parts[0].op != 'slice' and not S.isarray(parts[0]):
                self.use(e, parts[0], t, 'written')
                os = self.owners(rhs)
                slot = self.atpos(t, parts[0])
                rs = [self.agree(o, slot) for o in os]
                if 'same' in rs:
                    ck.ok('coefficient written at the position of its string', name)
                elif rs and all(r == 'diff' for r in rs):
                    self.bad('coefficient written to the position of another string', e, 'the value %s belongs to another string of %s' % (show(bare(rhs), 3), S.show(t)))
            elif parts[0].op != 'slice':
                r = S.fits(S.elems(parts[0]), t)
                if r == 'diff':
                    self.bad('positions of another basis', e, 'positions in %s are used in a vector laid out in %s' % (S.show(S.elems(parts[0])), S.show(t)))
                elif r == 'same':
                    ck.ok('positions of the vector\'s own basis', name)
                l, v = S.axes(parts[0]), S.axes(rhs)
                if l and v and len(l) == len(v) == 1:
                    r = S.compare(l[0], v[0])
                    if r == 'diff':
                        self.bad('coefficients written to positions of other strings', e, 'positions of %s receive values of %s' % (S.show(l[0]), S.show(v[0])))
                    elif r == 'same':
                        ck.ok('positions and values in the same order', name)
        # existing coefficients must not be overwritten by coefficients of another operator
        x = existing(b)
        if x is not None and self.coefficients(rhs, S.basis(x)):
            if e.kind == 'store_item':
                self.bad('coefficients overwritten', e, 'coefficients of an operator are written over existing ones instead of being added, so a string that both operators contain loses its coefficient')
            elif e.x in ('Add', 'Sub'):
                ck.ok('coefficients accumulated', name)

    def coefficients(self, v, own):
        """coefficients of another operator than the one with basis own"""
        b = bare(v)
        ts = []
        if b.op == 'attr' and b.x == 'coeffs':
            ts = [self.S.basis(b)]
        else:
            ts = [o[1] for o in self.owners(v) if o[0] == 'at']
        return any(t is not None and self.S.roots(self.S.root(t), self.S.root(own)) == 'diff' for t in ts)

    def dictionary(self, e, b, k, rhs):
        """coefficients collected by string"""
        i = self.ident(k)
        os = self.owners(rhs)
        if i is None or not os:
            return
        rs = [self.agree(o, i) for o in os]
        if 'same' in rs:
            self.ck.ok('coefficient collected under its own string', getattr(e.fn, 'qual', ''))
        elif all(r == 'diff' for r in rs):
            self.bad('coefficient of another string', e, 'the coefficient is collected under another string')
        if e.kind == 'store_item' and i[0] == 'result' and e.loops and 'same' in rs and not self.fresh(e, b, k) and not mentions(rhs, b):
            self.bad('coefficients overwritten', e, 'the coefficient of a string that occurs repeatedly replaces the earlier one instead of being added to it')

    def fresh(self, e, b, k):
        """is it known that the key is not in the dictionary yet?"""
        for g, p in e.guards:
            st = [g]
            while st:
                x = st.pop()
                if x.op == 'cmp' and x.x == 'In':
                    return True
                if x.op in ('un', 'bool'):
                    st.extend(x.args)
        return False

    def use(self, e, i, t, how):
        """a position used in data laid out in t"""
        S = self.S
        sp = S.space(i)
        if sp is None or sp[0] in ('const', 'expr'):
            return
        r = S.fits(sp, t)
        if r == 'diff':
            self.bad('position of another basis', e, 'a position in %s is used in a vector laid out in %s' % (S.show(sp), S.show(t)))
        elif r == 'same':
            self.ck.ok('position of the vector\'s own basis', getattr(e.fn, 'qual', ''))

    def values(self):
        """all values that appear in events and in results, with one event each"""
        seen = {}
        for e in self.I.trace:
            st = list(e.args) + ([e.val] if e.val is not None else []) + [g for g, p in e.guards]
            while st:
                v = st.pop()
                if v.uid in seen:
                    continue
                seen[v.uid] = (v, e)
                st.extend(v.args)
        return list(seen.values())

    def reads(self):
        """positions used in coefficients and eigenvectors"""
        S = self.S
        done = set()
        for v, e in self.values():
            if v.key not in done and (v.op == 'rcall' and rq(v) == 'basis.Basis.__getitem__' or v.op == 'item' and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x in ('op_strings', '_op_strings')) and v.args[1].op not in ('slice', 'tuple'):
                done.add(v.key)
                t = S.basis(v.args[0])
                sp = S.elems(v.args[1]) if S.isarray(v.args[1]) else S.space(v.args[1])
                if sp is not None and sp[0] not in ('const', 'expr') and t is not None:
                    r = S.fits(sp, t)
                    if r == 'diff':
                        self.ck.bad('position of another basis', getattr(e.fn, 'qual', self.fn.qual), Site(e, v, self.fn).where(), 'a position in %s is looked up in %s' % (S.show(sp), S.show(t)))
                    elif r == 'same':
                        self.ck.ok('position of the basis itself', getattr(e.fn, 'qual', ''))
                continue
            if v.op != 'item' or v.args[1].op == 'slice' or v.key in done:
                continue
            done.add(v.key)
            b = bare(v.args[0])
            a = S.axes(b)
            if not a or not (len(a) == 1 or a[1] is not None and S.under(a[1])[0] in ('eig', 'phi')) or S.elems(b) is not None:
                continue
            parts = v.args[1].args if v.args[1].op == 'tuple' else (v.args[1],)
            t = a[0]
            if t is None or t[0] not in ROOTS:
                continue
            p = parts[0]
            if p.op == 'slice':
                continue
            if S.isarray(p):
                sp = S.elems(p)
            else:
                sp = S.space(p)
            if sp is None or sp[0] in ('const', 'expr') or S.fits(sp, t) is None:
                continue
            r = S.fits(sp, t)
            site = Site(e, v, self.fn)
            if r == 'diff':
                self.ck.bad('position of another basis', getattr(e.fn, 'qual', self.fn.qual), site.where(), 'a position in %s is used in values laid out in %s' % (S.show(sp), S.show(t)))
            else:
                self.ck.ok('position of the vector\'s own basis', getattr(e.fn, 'qual', ''))

    def terms(self):
        """coefficient times string"""
        done = set()
        added = set()
        vs = self.values()
        for v, e in vs:
            if v.op == 'rcall' and rq(v) in ('basis.Operator.__iadd__', 'basis.Operator.__add__', 'basis.Operator.__isub__', 'basis.Operator.__sub__'):
                added |= {bare(a).uid for a in v.args}
        for v, e in vs:
            x = None
            if v.op == 'bin' and v.x == 'Mult':
                x = v.args
            elif v.op == 'rcall' and rq(v) in ('basis.Operator.__mul__', 'basis.Operator.__rmul__', 'operatorstring.OperatorString.__mul__', 'operatorstring.OperatorString.__rmul__') and len(v.args) == 2:
                x = v.args
            if x is None or v.key in done:
                continue
            done.add(v.key)
            for c, s in ((x[0], x[1]), (x[1], x[0])):
                if (v.op == 'rcall' or S_op(self.S.cls(bare(s))) or v.uid in added) and self.owners(c) and not self.owners(s):
                    if self.ident(s):
                        self.match(e, c, s, 'a term')
                    else:
                        self.derived(e, c, s)

    def derived(self, e, c, s):
        """coefficient times an operator made from a string"""
        os = [o for o in self.owners(c) if o[0] == 'at']
        if not os:
            return
        ids, st, seen = [], [bare(s)], set()
        while st and len(seen) < 400:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op == 'elem' and self.S.cls(x) not in ('OperatorString', '?OperatorString') and self.ident(x) is not None and self.ident(x)[0] == 'at' and self.S.cls(bare(x.args[0])) != 'Basis':
                st.extend(x.args)
                continue
            i = self.ident(x)
            if i is not None and i[0] == 'at':
                ids.append(i)
                continue
            if x.op == 'inst' and x.uid in self.S.created:
                st.extend(v for n, v in self.S.created[x.uid].x[1])
            if x.op == 'new':
                st.extend(y for y in self.I.objinit.get(x.uid) or () if isinstance(y, V))
                for ev in self.I.byobj.get(x.uid, ()):
                    st.extend(ev.args[1:])
            if x.op != 'mu':
                st.extend(x.args)
        ids = [i for i in dict.fromkeys(ids) if any(self.aligned(o[1], i[1]) == 'same' for o in os)]
        if len(ids) == 1:
            rs = [self.agree(o, ids[0]) for o in os]
            if 'same' in rs:
                self.ck.ok('coefficient times an operator made from its string', getattr(e.fn, 'qual', ''))
            elif all(r == 'diff' for r in rs):
                self.bad('coefficient of another string', e, 'an operator made from one string is multiplied with the coefficient of another')

    def shown(self):
        """coefficient and string written next to each other"""
        for uid, xs in self.I.objinit.items():
            if not isinstance(xs, list) or not 2 <= len(xs) <= 8 or any(not isinstance(x, V) for x in xs):
                continue
            cs = [inner(x) for x in xs]
            own = [x for x in cs if self.owners(x)]
            ids = [x for x in cs if self.ident(x) and not self.owners(x)]
            if len(own) == 1 and len(ids) == 1:
                o, i = self.owners(own[0])[0], self.ident(ids[0])
                r = self.agree(o, i)
                if r == 'same':
                    self.ck.ok('coefficient shown with its string', self.fn.qual)
                elif r == 'diff':
                    self.ck.bad('coefficient of another string', self.fn.qual, where(self.fn, own[0].node or self.fn.node), 'a coefficient is written next to another string')

    def zip(self, e):
        """coefficients and strings that are iterated together"""
        S = self.S
        ts = []
        for a in e.args:
            a = bare(a)
            c = a
            while c.op == 'call' and c.x[0] in ('builtins.sorted', 'builtins.reversed', 'numpy.sort', 'numpy.flip') and c.args:
                c = bare(c.args[0])
            if c.op == 'attr' and c.x in ('coeffs', '_basis', 'op_strings', '_op_strings') or S.cls(c) in ('Basis', 'Operator'):
                t = S.basis(c)
                ts.append(t if a is c or t is None else ('sel', (a.x[0],), t))
            elif a.op == 'new' and S.elems(a) is None:
                ts.append(S.basis(a))
        ts = [t for t in ts if t is not None]
        for x in ts[1:]:
            r = self.aligned(ts[0], x)
            if r == 'diff':
                self.bad('sequences of different bases iterated together', e, '%s and %s are iterated in step' % (S.show(ts[0]), S.show(x)))
            elif r == 'same':
                self.ck.ok('sequences iterated in step', getattr(e.fn, 'qual', self.fn.qual))

    def fields(self, r):
        """coefficients and strings of an operator when a method returns"""
        S = self.S
        for val, guards, node, state in self.I.returns:
            for k, c in list(getattr(state, 'heap', {}).items()):
                if k[-1] != 'coeffs':
                    continue
                s = state.heap.get(k[:-1] + ('_basis',))
                if s is None:
                    continue
                a = S.axes(c)
                a = a[0] if a and len(a) == 1 else None
                t = S.basis(s)
                q = S.compare(a, t)
                if q == 'same':
                    self.ck.ok('coefficients and strings of the object agree', self.fn.qual)
                elif q == 'diff':
                    self.ck.bad('coefficients and strings of different bases', self.fn.qual, where(self.fn, node or self.fn.node), 'an operator is left with coefficients laid out in %s and the strings of %s' % (S.show(a), S.show(t)))


RESULTS = ('algebra._operation_opstring', 'conversion._jordan_wigner', 'algebra.commutator', 'algebra.anticommutator', 'algebra.product')


def S_op(c):
    return c in ('OperatorString', 'Operator')


class Site:
    def __init__(self, e, v, fn):
        self.e, self.v, self.fn = e, v, fn

    def where(self):
        return where(getattr(self.e, 'fn', None) or self.fn, self.v.node or self.e.node)


def inner(x):
    x = bare(x)
    while (x.op == 'call' and x.x[0] in ('builtins.str', 'builtins.repr', 'builtins.format') or x.op == 'rcall' and rq(x).endswith('.__str__')) and len(x.args) == 1:
        x = bare(x.args[0])
    return x


def mentions(v, d):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.uid == d.uid:
            return True
        st.extend(x.args)
    return False


def literal(I, v):
    while v.op == 'call' and v.x[0] in ARR and v.args:
        v = bare(v.args[0])
    if v.op == 'new' and v.x == 'list' and not I.byobj.get(v.uid):
        return list(I.objinit.get(v.uid) or ()) or None
    return None


def appended(I, v):
    while v.op == 'call' and v.x[0] in ARR and v.args:
        v = bare(v.args[0])
    if v.op == 'new' and v.x == 'list' and not I.objinit.get(v.uid):
        es = I.byobj.get(v.uid, ())
        if es and all(x.kind == 'method' and x.x == 'append' for x in es):
            return es
    return None


def existing(v):
    """the operator's coefficients that an array holds"""
    v = bare(v)
    while v.op == 'call' and v.x[0] in ('numpy.pad', 'numpy.copy', 'numpy.array', 'numpy.concatenate', 'copy.deepcopy') and v.args:
        v = bare(v.args[0])
        if v.op == 'tuple' and v.args:
            v = bare(v.args[0])
    return v if v.op == 'attr' and v.x == 'coeffs' else None
