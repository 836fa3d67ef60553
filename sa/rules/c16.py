"""C16: the coefficient of a product, commutator or anticommutator of two strings as a function of the letters on which they differ."""
from ..common import transformation_rules  # noqa: F401
from ..entries import variants
from ..interp import Interp
from ..summary import ABS, NONE, Letters, Unknown, bare, choose, evaluate, holds
from ..values import V, const, is_const, show
from .c15 import tables, value
from .c18 import below, created, factors, fromresult, where
from .signs import sort_sign_rule

RULE = ('The function that multiplies two strings is interpreted for each string type and mode. Its loop over the labels is reduced to one affine map per kind of label (only in the first string, only in the second, '
        'in both with equal letters, in both with different letters). The coefficient it returns, a closed form in the numbers of labels of each kind, the two reordering signs and the three prefactors, must equal '
        'product K, commutator K - K\', anticommutator K + K\' for all residues. Letters and labels of the result are compared kind by kind. Where operators are multiplied, every term must contain both '
        'coefficients and the coefficient of its own pair of strings once.')
ASSUME = ['C15 for the table of single-site products', 'sort_sign returns the sign of sorting (its own counting of exchanges is checked)', 'string prefactors are 1 or i']

CORE = 'algebra._operation_opstring'
EQ = 'operatorstring.OperatorString.__eq__'
OPAQUE = {'tools.sort_sign', 'operatorstring.OperatorString.__init__', EQ}
FAMILY = {'Pauli': ('X', 'Y', 'Z'), 'Majorana': ('A', 'B', 'D')}
LABEL = 7


class Site(list):
    """a string as seen from one label: any other entry belongs to another label"""

    def __getitem__(self, i):
        return list.__getitem__(self, i) if self and i == 0 else 'another letter'


def product_table(ctx):
    for mod, name, v, ent, complete in tables(ctx):
        d = {}
        for k, w in ent.items():
            x = value(w)
            if x is not None:
                d[k] = x
        if all((a, b) in d for f in FAMILY.values() for a in f for b in f if a != b):
            return d
    return None


def run(ck):
    fn = ck.need(CORE)
    tab = product_table(ck.ctx)
    if tab is None:
        ck.unsure('product table', 'not found')
    else:
        for t in ('Pauli', 'Majorana'):
            for mode in ('product', 'commutator', 'anticommutator'):
                strings(ck, fn, t, mode, tab)
    prefactors(ck)
    operators(ck)
    sort_sign_rule(ck)
    ck.floor('formulas', 6)


def prefactors(ck):
    """the prefactor a Majorana string gets: i exactly when reversing its fermionic letters costs a sign"""
    fn = ck.need('operatorstring.OperatorString.__init__')
    ps = fn.params()
    if len(ps) < 4:
        ck.unsure('prefactor', 'parameters')
        return
    I = ck.ctx.run_one(fn, {ps[0]: 'OperatorString'}, 0, args={ps[3]: const('Majorana'), ps[4]: const(1.0)} if len(ps) > 4 else {ps[3]: const('Majorana')}).I

    def seq(v):
        v = bare(v)
        while v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple') and v.args:
            v = bare(v.args[0])
        return {ps[1]: 'op', ps[2]: 'label'}.get(v.x[1]) if v.op == 'param' else None
    classes = [{'op': 'A', 'label': LABEL}, {'op': 'B', 'label': LABEL + 1}, {'op': 'D', 'label': LABEL + 2}]

    def base(w):
        if w.op == 'call' and w.x[0] == 'builtins.len' and len(w.args) == 1 and seq(w.args[0]) and state['n'] is not None:
            return sum(state['n'])
        return NONE
    state = {'n': None}
    A = Letters(I, seq, classes, base=base)
    puts = [e for e in I.trace if e.kind == 'store_attr' and (e.x == 'prefactor' or isinstance(e.x, tuple) and e.x[0] == 'prefactor')]
    try:
        if not puts or any(e.loops for e in puts):
            raise Unknown('stores')
        for na in range(0, 5):
            for nb in range(0, 5):
                for nd in range(0, 3):
                    state['n'] = n = (na, nb, nd)
                    x = None
                    for e in puts:
                        if holds(e.guards, lambda w: A.outer(w, n)):
                            x = evaluate(bare(e.args[1]), lambda w: A.outer(w, n))
                            node = e.node
                    if x is None or not isinstance(x, (int, float, complex)):
                        raise Unknown('prefactor')
                    k = na + nb
                    want = 1j if k * (k - 1) // 2 % 2 else 1
                    if x != want:
                        ck.bad('wrong prefactor', 'Majorana strings', where(fn, node), 'a Majorana string with %d letters A or B and %d letters D gets the prefactor %s instead of %s: it is not Hermitian, and the formulas for products and conversions do not hold for it' % (k, nd, x, want))
                        return
    except Unknown as ex:
        ck.unsure('prefactor not opened', str(ex))
        return
    ck.ok('prefactors', 'Majorana strings')


def strings(ck, fn, t, mode, tab):
    pa, pb = [p for p in fn.params() if 'string' in p.lower() or p.lower().endswith(('_a', '_b'))][:2] if len(fn.params()) > 2 else fn.params()[:2]
    pm = [p for p in fn.params() if 'mode' in p]
    name = '%s of %s strings' % (mode, t)
    if not pm:
        ck.unsure('mode', name)
        return
    r = ck.ctx.run_one(fn, {pa: 'OperatorString', pb: 'OperatorString'}, 0, args={pm[0]: const(mode)}, heap={(pa, 'op_type'): const(t), (pb, 'op_type'): const(t)}, opaque=OPAQUE)
    I = r.I
    A, B = I.params[pa], I.params[pb]
    x, y, z = FAMILY[t]
    classes = [{'A': x, 'B': None}, {'A': None, 'B': y}, {'A': x, 'B': x}, {'A': x, 'B': y}, {'A': y, 'B': x}]
    for a, b in ((y, z), (z, y), (z, x), (x, z)):
        classes.append({'A': a, 'B': b})
    for a in (y, z):
        classes += [{'A': a, 'B': None}, {'A': None, 'B': a}]
    env = {}

    def side(v):
        return 'A' if v.key == A.key else 'B' if v.key == B.key else None

    def seq(v):
        """labels of one of the strings, or of both"""
        k = labelset(v, side)
        return k

    def member(s, cls):
        return any(cls[c] is not None for c in s)

    def fact(v, cls):
        """the strings as seen from one label"""
        if v.op == 'attr':
            s = side(v.args[0])
            if s:
                here = cls[s] is not None
                if v.x == 'orbital_operators':
                    return Site([cls[s]] if here else [])
                if v.x == 'orbital_labels':
                    return Site([LABEL] if here else [])
                if v.x == '_indices_orbital_labels':
                    return {LABEL: 0} if here else {}
        w = v
        while w.op == 'narrow' or w.op == 'call' and w.x[0] in ('builtins.int',) and len(w.args) == 1:
            w = w.args[0]
        if (w.op == 'elem' or w.op == 'item' and w.args[1].op == 'idx') and seq(bare(w.args[0])):
            return LABEL
        if v.op == 'new' and v.x == 'dict':
            d = {}
            for k, q in I.dict_entries(v):
                if k is None or not I.constlike(k) or value(q) is None:
                    return NONE
                d[tuple(a.x for a in k.args) if k.op == 'tuple' else k.x] = value(q)
            return d if d else NONE
        if v.op == 'call' and v.x[0] in ('builtins.set', 'builtins.frozenset') and len(v.args) == 1 and labelset(bare(v.args[0]), side):
            return fact(bare(v.args[0]), cls)
        if v.op == 'call' and v.x[0] == 'builtins.dict' and len(v.args) == 1:
            q = bare(v.args[0])
            if q.op == 'call' and q.x[0] == 'builtins.zip' and len(q.args) == 2:
                ks, vs = [evaluate(bare(a), lambda u: fact(u, cls)) for a in q.args]
                return dict(zip(ks, vs))
        return NONE

    def base(v):
        if v.op == 'attr' and v.x == 'prefactor':
            s = side(v.args[0])
            if s:
                return env['p' + s]
            if v.args[0].op == 'inst':
                return env['pC']
        if v.op == 'item' and v.args[0].op == 'rcall' and rq(v.args[0]) == 'tools.sort_sign' and is_const(v.args[1], 1):
            k = order(v.args[0].args[0], side)
            if k in env:
                return env[k]
            if k is not None and k.upper() in env:
                # reversing the fermionic labels of a string costs the sign recorded in its prefactor
                q = env[k.upper()]
                for c in k:
                    if c.islower() and env['p' + c.upper()] == 1j:
                        q = -q
                return q
            w = bare(v.args[0].args[0])
            if ordered(w) and order(unsorted(w), side) in ('AB', 'BA'):
                return 1        # labels that are in order already
            raise Unknown('sign of %s' % show(v.args[0].args[0], 4))
        if v.op == 'param' and v.x[1] == 'tol':
            return 1e-12
        if v.op == 'rcall' and rq(v) == EQ or v.op == 'cmp' and v.x == 'Eq':
            ks = {side(a) for a in v.args} if v.op == 'cmp' or len(v.args) == 2 else set()
            if ks == {'A', 'B'}:
                return env['same']
            if v.op == 'cmp' and all(a.op == 'attr' and a.x == 'name' for a in v.args) and {side(a.args[0]) for a in v.args} == {'A', 'B'}:
                return env['same']
        return NONE
    L = Letters(I, seq, classes, fact=fact, base=base, member=member)
    rets = [(v, g, n) for v, g, n, s in I.returns if not I.isdead(s)]
    bad = None
    done = 0
    results = {}
    try:
        for counts in combos(len(classes)):
            diff = sum(counts[3:9])
            alike = not diff and not (counts[0] or counts[1] or any(counts[9:]))
            k = 1
            for n, c in zip(counts, classes):
                if c['A'] and c['B'] and c['A'] != c['B']:
                    k *= tab[(c['A'], c['B'])][0] ** n
            for p1, p2, s1, s2, p3 in settings(t, alike):
                env.update(pA=p1, pB=p2, AB=s1, BA=s2, pC=p3, same=alike)
                K, R = p1 * p2 * s1 * k, p1 * p2 * s2 * k.conjugate() if isinstance(k, complex) else p1 * p2 * s2 * k
                want = (K if mode == 'product' else K - R if mode == 'commutator' else K + R) / p3
                live = []
                for v, g, n in rets:
                    if holds(g, lambda w: L.outer(w, counts)):
                        live.append((v, n))
                if len(live) != 1:
                    raise Unknown('%d returns' % len(live))
                v, n = live[0]
                while v.op == 'join':
                    v = choose(v, lambda w: L.outer(w, counts))
                if v.op != 'tuple' or len(v.args) != 2:
                    raise Unknown('result')
                c, C = v.args
                while C.op == 'join':
                    C = choose(C, lambda w: L.outer(w, counts))
                done += 1
                if is_const(C, None):
                    got = 0
                    x = L.total(c, counts)
                    if abs(x) > 1e-9:
                        got = x
                else:
                    got = complex(L.total(c, counts))
                    if C.op == 'inst':
                        results.setdefault((C.uid, alike), (C, n))
                if abs(got - want) > 1e-9:
                    bad = (counts, dict(env), got, want, n)
                    break
            if bad:
                break
    except Unknown as u:
        ck.count('formulas')
        if L.partial is not None:
            ck.bad('labels left out', name, where(fn, L.partial.node), 'the loop over the labels does not reach all labels (%s)' % show(L.partial.iter, 4))
            return
        ck.unsure('coefficient not in closed form', '%s: %s' % (name, u))
        return
    ck.count('formulas')
    if bad:
        counts, e, got, want, n = bad
        d = ', '.join('%d label%s with %s' % (m, 's' if m > 1 else '', ' and '.join('%s in %s' % (l, s) for s, l in c.items() if l)) for m, c in zip(counts, classes) if m) or 'no labels'
        ck.bad('wrong coefficient', name, where(fn, n), '%s returns the coefficient %s instead of %s for strings with %s (prefactors %s, %s, result %s; signs of sorting the labels of the A and B letters: AB %+d, BA %+d)'
               % (name, num(got), num(want), d, e['pA'], e['pB'], e['pC'], e['AB'], e['BA']))
    else:
        ck.ok('closed forms', '%s: %d cases' % (name, done))
    for (u, alike), (C, n) in results.items():
        contents(ck, fn, I, L, C, classes, tab, t, name, alike, n)


def num(c):
    c = complex(c)
    return '%g' % c.real if abs(c.imag) < 1e-12 else '%gi' % c.imag if abs(c.real) < 1e-12 else '%s' % c


def rq(v):
    return v.x[0] if isinstance(v.x, tuple) else v.x


def labelset(v, side):
    """'A', 'B' or 'AB': whose labels v lists"""
    v = bare(v)
    while v.op == 'call' and v.x[0] in ('numpy.sort', 'builtins.sorted', 'builtins.set', 'builtins.frozenset', 'numpy.unique', 'builtins.list', 'builtins.tuple', 'numpy.array') and len(v.args) >= 1 and not (v.args[0].op == 'tuple'):
        v = bare(v.args[0])
    if v.op == 'attr' and v.x in ('orbital_labels', '_indices_orbital_labels'):
        return side(v.args[0])
    if v.op == 'mcall' and v.x[0] == 'keys' and len(v.args) == 1:
        return labelset(v.args[0], side)
    parts = None
    if v.op == 'mcall' and v.x[0] == 'union':
        parts = v.args
    elif v.op in ('bin', 'aug') and v.x in ('BitOr', 'Add'):
        parts = v.args
    elif v.op == 'call' and v.x[0] in ('numpy.union1d', 'numpy.append') and len(v.args) == 2:
        parts = v.args
    elif v.op == 'call' and v.x[0] in ('numpy.concatenate', 'numpy.hstack', 'itertools.chain') and v.args:
        parts = v.args[0].args if v.args[0].op == 'tuple' else v.args
    if parts:
        ks = [labelset(p, side) for p in parts]
        if None in ks:
            return None
        return ''.join(sorted(set(''.join(ks))))
    return None


def ordered(v):
    v = bare(v)
    while v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple', 'numpy.array') and len(v.args) == 1:
        v = bare(v.args[0])
    return v.op == 'call' and v.x[0] in ('numpy.sort', 'builtins.sorted', 'numpy.unique', 'numpy.union1d')


def unsorted(v):
    v = bare(v)
    while v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple', 'numpy.array', 'numpy.sort', 'builtins.sorted', 'numpy.unique') and len(v.args) == 1:
        v = bare(v.args[0])
    if v.op == 'call' and v.x[0] == 'numpy.union1d' and len(v.args) == 2:
        return V('bin', v.args, 'Add', v.node)
    return v


def order(v, side):
    """concatenation of the labels of the A and B letters: 'AB' or 'BA'; small letters for reversed labels"""
    v = bare(v)
    if v.op == 'item' and v.args[1].op == 'slice' and all(a.op == 'const' for a in v.args[1].args) and [a.x for a in v.args[1].args] == [None, None, -1] \
            or v.op == 'call' and v.x[0] in ('numpy.flip', 'numpy.flipud', 'builtins.reversed') and len(v.args) == 1:
        k = order(v.args[0], side)
        return k[::-1].swapcase() if k else None
    if v.op == 'attr' and v.x == '_labels_ab_operators':
        return side(v.args[0])
    parts = None
    if v.op == 'call' and v.x[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'itertools.chain') and v.args:
        parts = v.args[0].args if v.args[0].op == 'tuple' else v.args
    elif v.op in ('bin', 'aug') and v.x == 'Add':
        parts = v.args
    elif v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple') and len(v.args) == 1:
        return order(v.args[0], side)
    if parts:
        ks = [order(p, side) for p in parts]
        return None if None in ks else ''.join(ks)
    return None


def combos(n):
    out = []
    for rest in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 1), (0, 0, 2)):
        for i in range(5):
            for j in range(3):
                out.append(rest + (i, j) + (0,) * (n - 5))
    for k in range(5, n):
        for m in (1, 2):
            z = [0] * n
            z[k] = m
            out.append(tuple(z))
            z[3] = 1
            out.append(tuple(z))
    return out


def settings(t, alike):
    if t == 'Pauli':
        yield 1, 1, 1, 1, 1
        return
    if alike:
        # the square of a string is the identity
        yield 1, 1, 1, 1, 1
        yield 1j, 1j, -1, -1, 1
        return
    for p1 in (1, 1j):
        for p2 in (1, 1j):
            for s1 in (1, -1):
                for s2 in (1, -1):
                    for p3 in (1, 1j):
                        yield p1, p2, s1, s2, p3


def contents(ck, fn, I, L, C, classes, tab, t, name, alike, n):
    """letters and labels of the result string, kind by kind"""
    d, e = created(I, C)
    if d is None:
        ck.unsure('result string', name)
        return
    ops, labs, typ = d.get('orbital_operators'), d.get('orbital_labels'), d.get('op_type')
    if typ is not None and typ.op == 'const' and typ.x != t:
        ck.bad('wrong type of the result', name, where(fn, e.node), 'the result string has type %s' % typ.x)
    ops, labs = bare(ops or const(None)), bare(labs or const(None))
    if not all(x.op == 'new' or x.op == 'tuple' for x in (ops, labs)):
        ck.unsure('result string', '%s: %s' % (name, show(ops, 3)))
        return
    if ops.op == 'tuple' or labs.op == 'tuple' or not I.byobj.get(ops.uid) and not I.objinit.get(ops.uid):
        if not alike:
            ck.unsure('result string', '%s: constant' % name)
            return
        if (ops.op == 'tuple' and ops.args) or I.objinit.get(ops.uid):
            ck.bad('wrong result string', name, where(fn, e.node), 'the square of a string is not the identity string')
        else:
            ck.ok('result strings', '%s: identity' % name)
        return
    oe, le = I.byobj.get(ops.uid, ()), I.byobj.get(labs.uid, ())
    if any(x.kind != 'method' or x.x != 'append' or len(x.loops) != 1 for x in tuple(oe) + tuple(le)) or I.objinit.get(ops.uid) or I.objinit.get(labs.uid):
        ck.unsure('result string', '%s: not built by appending' % name)
        return
    loops = {x.loops[0] for x in tuple(oe) + tuple(le)}
    if len(loops) == 1:
        lp = next(iter(loops))
        if L.seq(bare(lp.iter)) and not ordered(lp.iter) and t == 'Majorana':
            ck.bad('labels out of order', name, where(fn, lp.node), 'the labels of the result are not sorted although the sign is that of sorting them')
    for cls in classes:
        if alike and (cls['A'] != cls['B']):
            continue
        try:
            got = []
            for evs in (oe, le):
                xs = []
                for x in evs:
                    lp = x.loops[0]
                    if L.walks(lp) is not True:
                        raise Unknown('loop')
                    if L.inloop(lp, cls) and holds(x.guards[len(lp.guards):], lambda v: L.leaf(v, cls)):
                        xs.append(evaluate(x.args[1], lambda v: L.leaf(v, cls)))
                got.append(xs)
        except Unknown as u:
            ck.unsure('result string', '%s: %s' % (name, u))
            return
        a, b = cls['A'], cls['B']
        if a is None or b is None:
            want = [[a or b], [LABEL]]
        elif a == b:
            want = [[], []]
        else:
            want = [[tab[(a, b)][1]], [LABEL]]
        if got != want:
            what = 'a label that carries %s' % ' and '.join('%s in %s' % (l, {'A': 'the first string', 'B': 'the second'}[s]) for s, l in cls.items() if l)
            ck.bad('wrong result string', name, where(fn, e.node), 'for %s the result gets the letters %s and %d label(s) instead of %s' % (what, got[0], len(got[1]), want[0]))
            return
    ck.ok('result strings', name)


def operators(ck):
    """products of operators"""
    ctx = ck.ctx
    helper = 'algebra._operation_operator'
    for mode in ('product', 'commutator', 'anticommutator'):
        fn = ck.need('algebra.' + mode)
        ps = fn.params()[:2]
        for t in ('OperatorString', 'Operator'):
            r = ctx.run_one(fn, {p: t for p in ps}, 0, opaque={CORE, helper})
            calls = [e for e in r.I.trace if e.kind == 'rcall' and rq(e.val) in (CORE, helper)]
            if not calls:
                ck.unsure('named operation', fn.qual)
            for e in calls:
                target = ctx.prog.find(rq(e.val))
                given = dict(zip(target.params(), e.args))
                modes = [v for k, v in given.items() if 'mode' in k]
                xs = [a.key for a in e.args[:2]]
                want = [r.I.params[p].key for p in ps]
                if modes and modes[0].op == 'const' and modes[0].x != mode:
                    ck.bad('wrong mode', fn.qual, where(fn, e.node), '%s computes the %s' % (fn.qual, modes[0].x))
                elif xs == want[::-1]:
                    ck.bad('factors exchanged', fn.qual, where(fn, e.node), '%s multiplies its arguments in the reverse order' % fn.qual)
                elif xs == want and modes and modes[0].op == 'const':
                    ck.ok('named operation', '%s of %ss' % (mode, t))
                else:
                    ck.unsure('named operation', fn.qual)
    fn = ck.need('algebra._operation_operator')
    ops = [p for p in fn.params() if 'operator' in p.lower()][:2] or fn.params()[:2]
    r = ctx.run_one(fn, {p: 'Operator' for p in ops}, 0, opaque={CORE, 'basis.Operator.__init__'})
    I = r.I
    A, B = I.params[ops[0]], I.params[ops[1]]
    calls = [e for e in I.trace if e.kind == 'rcall' and rq(e.val) == CORE] if True else []
    if not calls:
        ck.unsure('operator product', 'no call of %s' % CORE)
        return
    for e in calls:
        xs = [('A' if fromresult(a, A) == 'op_strings' else 'B' if fromresult(a, B) == 'op_strings' else None) for a in e.args[:2]]
        if None in xs:
            ck.unsure('operator product', 'arguments of %s' % CORE)
        elif xs == ['B', 'A']:
            ck.bad('factors exchanged', fn.qual, where(fn, e.node), 'the strings of the two operators are multiplied in the reverse order')
        elif xs != ['A', 'B']:
            ck.bad('one factor twice', fn.qual, where(fn, e.node), 'strings of the same operator are multiplied with each other')
        else:
            ck.ok('operator product', 'order of the factors')
        md = e.args[2] if len(e.args) > 2 else None
        if md is not None and md.op == 'const':
            pm = [p for p in fn.params() if 'mode' in p]
            if pm:
                ck.bad('mode not passed on', fn.qual, where(fn, e.node), 'the mode %s is used instead of the one requested' % show(md, 2))
    cid = {e.val.uid: e for e in calls}

    def what(x):
        while x.op == 'narrow':
            x = x.args[0]
        if fromresult(x, A) == 'coeffs':
            return 'A'
        if fromresult(x, B) == 'coeffs':
            return 'B'
        if x.op == 'item' and x.args[0].uid in cid and is_const(x.args[1], 0):
            return 'C'
        if is_const(x, 1.0):
            return ''
        return None
    terms = []
    for e in I.trace:
        if e.kind == 'store_item' and string(e.args[1], cid):
            terms.append((e, e.args[1], e.args[2]))
        elif e.kind == 'aug_item' and string(e.args[1], cid):
            terms.append((e, e.args[1], e.args[2]))
    seen = set()
    for e, k, v in terms:
        for x in parts(v):
            fac = factors(x)
            if fac is None:
                if any(y.uid in cid for y in below(x)):
                    ck.unsure('operator product', 'coefficient %s' % show(x, 4))
                continue
            fs = [what(y) for y in fac]
            if None in fs:
                # something that was stored before
                if not any(f in ('A', 'B', 'C') for f in fs):
                    continue
                ck.unsure('operator product', 'coefficient %s' % show(x, 4))
                continue
            fs = sorted(f for f in fs if f)
            if fs != ['A', 'B', 'C']:
                ck.bad('wrong coefficient', fn.qual, where(fn, e.node), 'the coefficient of a term is %s: it must contain the coefficients of both operators and of the product of the two strings once' % show(x, 4))
            else:
                ck.ok('operator product', 'coefficient of a term')
                seen.add(e.kind)
    if not seen:
        ck.unsure('operator product', 'terms')


def parts(v):
    """summands"""
    while v.op == 'narrow':
        v = v.args[0]
    if v.op in ('bin', 'aug') and v.x == 'Add':
        return [y for a in v.args for y in parts(a)]
    return [v]


def string(k, cid):
    while k.op == 'narrow':
        k = k.args[0]
    return k.op == 'item' and k.args[0].uid in cid and is_const(k.args[1], 1)
