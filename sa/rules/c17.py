"""C17: factors of the letter replacements, signs and prefactors in the conversions between representations."""
from ..entries import variants
from ..summary import NONE, Letters, Unknown, bare, choose, evaluate, holds
from ..values import V, const, is_const, show
from .c16 import num, rq
from .c18 import below, created, fromresult, where
from .signs import sort_sign_rule

RULE = ('convert() is interpreted for each pair of string types. In the expansions between Majorana and fermion strings the loop over the letters is reduced to one factor, the appended letters and labels and '
        'the counter increments per letter and choice of term; as a set these must be the two terms of the defining relation. The coefficient that is stored must be the accumulated factor times the prefactor of the '
        'source, the sign of sorting exactly the listed labels and the inverse of the prefactor of the string it is stored with (doubled with the Hermitian conjugate). In the Jordan-Wigner transformation the '
        'replacement of each letter is evaluated as a function of its label and the factors must be multiplied in order. Conversions of operators multiply the coefficient of the same string.')
ASSUME = ['sort_sign returns the sign of sorting', 'term choices enumerate all combinations (itertools.product)', 'strings hold only letters of their type (C10)']

OPAQUE = {'tools.sort_sign', 'tools.compare', 'algebra.product', 'operatorstring.OperatorString.__init__', 'basis.Operator.__init__', 'operatorstring.OperatorString.__eq__'}
EPS = 2.3e-16


def run(ck):
    fn = ck.need('conversion.convert')
    p = fn.params()[0]
    to = [x for x in fn.params() if 'type' in x] or fn.params()[1:2]

    def go(a, b, operator=False, opaque=OPAQUE):
        heap = {(p, 'op_type'): const(a)}
        return ck.ctx.run_one(fn, {p: 'Operator' if operator else 'OperatorString'}, 0, args={to[0]: const(b)}, heap=heap, opaque=opaque)
    majorana(ck, fn, go('Majorana', 'Fermion').I, p)
    fermion(ck, fn, go('Fermion', 'Majorana').I, p)
    wigner(ck, fn, go('Pauli', 'Majorana').I, p, {'X': ('D', 'A'), 'Y': ('D', 'B'), 'Z': (None, 'D')}, 'Pauli to Majorana')
    wigner(ck, fn, go('Majorana', 'Pauli').I, p, {'A': ('Z', 'X'), 'B': ('Z', 'Y'), 'D': (None, 'Z')}, 'Majorana to Pauli')
    chain(ck, fn, go('Fermion', 'Pauli').I, 'Fermion to Pauli')
    chain(ck, fn, go('Pauli', 'Fermion').I, 'Pauli to Fermion')
    operators(ck, fn, p, to)
    for t in ('Pauli', 'Majorana', 'Fermion'):
        unchanged(ck, fn, go(t, t).I, p, t)
    sort_sign_rule(ck)
    ck.floor('expansions', 2)
    ck.floor('replacements', 2)


def unchanged(ck, fn, I, p, t):
    """a string of the type asked for is returned as it is"""
    for x, d, e, n in results(I):
        for k, good in ('coeffs', lambda v: evaluate(v, lambda w: NONE) == 1), ('op_strings', lambda v: bare(v).key == I.params[p].key):
            xs = None
            try:
                xs = single(I, d.get(k))
                if len(xs) == 1 and good(xs[0]):
                    ck.ok('strings of the type asked for', '%s: %s' % (t, k))
                elif k == 'coeffs' or len(xs) != 1:
                    ck.bad('string changed', '%s to %s' % (t, t), where(fn, e.node), 'a string that has the type asked for already is returned with the %s %s' % (k, ' '.join(show(y, 3) for y in xs)))
                else:
                    ck.unsure('string of the type asked for', t)
            except Unknown:
                x = bare(xs[0]) if xs and len(xs) == 1 else None
                while x is not None and x.op in ('call', 'un', 'mcall') and len(x.args) == 1:
                    x = bare(x.args[0])
                if k == 'coeffs' and x is not None and x.op == 'attr' and x.x == 'prefactor' and bare(x.args[0]).key == I.params[p].key:
                    ck.bad('string changed', '%s to %s' % (t, t), where(fn, e.node), 'a string that has the type asked for already is returned with its own prefactor as coefficient')
                else:
                    ck.unsure('string of the type asked for', t)


def single(I, v):
    v = bare(v) if v is not None else None
    if v is None:
        raise Unknown('missing')
    while v.op == 'call' and v.x[0] in ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple') and v.args:
        v = bare(v.args[0])
    if v.op == 'tuple':
        return list(v.args)
    if v.op == 'call' and v.x[0] == 'numpy.ones' and v.args and is_const(v.args[0], 1):
        return [const(1.0)]
    if v.op == 'new' and v.x == 'list' and not I.byobj.get(v.uid) and I.objinit.get(v.uid):
        return list(I.objinit[v.uid])
    raise Unknown('list')


def results(I):
    """the operators that are returned: (inst, instantiate event, return node)"""
    out = []
    for v, g, n, s in I.returns:
        if I.isdead(s):
            continue
        st = [v]
        while st:
            x = bare(st.pop())
            if x.op == 'join':
                st.extend(x.args)
                continue
            d, e = created(I, x)
            if d is not None:
                out.append((x, d, e, n))
    return out


def looplist(I, v):
    """a list that is filled by appending inside of loops"""
    v = bare(v)
    if v.op == 'new' and not I.objinit.get(v.uid):
        evs = I.byobj.get(v.uid, ())
        if evs and all(e.kind == 'method' and e.x == 'append' and e.loops for e in evs):
            return v, list(evs)
    return None, None


def expansion(ck, I, what):
    """coefficients and strings appended term by term: (outer loop, [(coefficient event, string event)])"""
    best = None
    for x, d, e, n in results(I):
        if d.get('coeffs') is None or d.get('op_strings') is None:
            continue
        cl, ce = looplist(I, d['coeffs'])
        sl, se = looplist(I, d['op_strings'])
        if cl is None or sl is None:
            continue
        pairs = []
        for c in ce:
            m = [s for s in se if s.loops == c.loops and [(g.key, p) for g, p in s.guards] == [(g.key, p) for g, p in c.guards]]
            if len(m) != 1:
                pairs = None
                break
            pairs.append((c, m[0]))
        if pairs and len(pairs) == len(se):
            best = (x, pairs)
    if best is None:
        ck.count('expansions')
        ck.unsure('expansion', '%s: the terms are not appended in step' % what)
    return best


class Terms(Letters):
    """the loop over the letters of one term"""

    def walks(self, L):
        w = Letters.walks(self, L)
        return True if w is None else w


def choiceseq(v):
    """one combination of term choices"""
    if v.op == 'elem':
        w = bare(v.args[0])
        if w.op == 'call' and w.x[0] == 'itertools.product':
            return True
    return False


def choices(I, loops):
    for L in loops:
        if L.iter is None:
            continue
        w = bare(L.iter)
        if w.op == 'call' and w.x[0] == 'itertools.product' and w.args:
            a = bare(w.args[0])
            xs = a.args if a.op == 'tuple' else I.objinit.get(a.uid) if a.op == 'new' else None
            if a.op == 'call' and a.x[0] == 'builtins.range' and len(a.args) == 1 and a.args[0].op == 'const':
                return list(range(a.args[0].x)), L
            if xs and all(x.op == 'const' for x in xs):
                return [x.x for x in xs], L
    return None, None


def mus(v):
    return {x.uid: x for x in below(v) if x.op == 'mu'}


def signcalls(v):
    return {x.uid: x for x in below(v) if x.op == 'rcall' and rq(x) == 'tools.sort_sign'}


def majorana(ck, fn, I, p):
    what = 'Majorana to Fermion'
    S = I.params[p]
    got = expansion(ck, I, what)
    if got is None:
        return
    inst, pairs = got
    loops = pairs[0][0].loops
    vals, outer = choices(I, loops)
    ms = {}
    for c, s in pairs:
        ms.update(mus(c.args[1]))
    inner = [m for m in ms.values() if (I.loops.get(m.x[0]) or outer) is not outer]
    if vals is None or len(inner) != 1:
        ck.count('expansions')
        ck.unsure('expansion', '%s: %d accumulated factors' % (what, len(inner)))
        return
    m = inner[0]
    L = I.loops[m.x[0]]
    calls = {}
    for c, s in pairs:
        calls.update(signcalls(c.args[1]))

    def mine(v):
        return bare(v).key == S.key

    def seq(v):
        if v.op == 'attr' and mine(v.args[0]):
            return {'orbital_operators': 'op', 'orbital_labels': 'label'}.get(v.x)
        return 'choice' if choiceseq(v) else None
    top = {'max': 7, 'len': 3}

    def base(v):
        if v.op == 'call' and v.x[0] in ('numpy.max', 'builtins.max', 'numpy.amax') and len(v.args) == 1 and seq(bare(v.args[0])) == 'label' or v.op == 'mcall' and v.x[0] == 'max' and seq(bare(v.args[0])) == 'label':
            return top['max']
        if v.op == 'call' and v.x[0] in ('numpy.maximum', 'builtins.max') and len(v.args) == 2:
            return max(evaluate(v.args[0], base), evaluate(v.args[1], base))
        if v.op == 'call' and v.x[0] == 'builtins.len' and seq(bare(v.args[0])) in ('op', 'label'):
            return top['len']
        if v.op == 'attr' and v.x == 'prefactor' and mine(v.args[0]):
            return top.get('p', NONE)
        return NONE
    classes = [{'op': o, 'choice': c, 'label': 5} for o in 'ABD' for c in vals]
    A = Terms(I, seq, classes, base=base)
    maps = A.affine(m)
    if maps is None:
        if A.partial is not None:
            ck.count('expansions')
            ck.bad('letters left out', what, where(L.fn, L.node), 'the loop over the letters does not reach all letters (%s)' % show(L.iter, 4))
            return
        ck.count('expansions')
        ck.unsure('expansion', '%s: factor not in closed form' % what)
        return
    # the labels that are sorted
    T = None
    if len(calls) == 1:
        t = bare(next(iter(calls.values())).args[0])
        tl, te = looplist(I, t)
        if tl is not None and all(L in e.loops for e in te):
            T = te
    table = {}
    try:
        for cls, mp in zip(classes, maps):
            if mp is None or abs(mp[1]) > 1e-9:
                raise Unknown('factor')
            toks = []
            for e in T or ():
                if holds(e.guards[len(L.guards):], lambda v: A.leaf(v, cls)):
                    x = evaluate(e.args[1], lambda v: A.leaf(v, cls))
                    toks.append('CDag' if x == cls['label'] else 'C')
            table.setdefault(cls['op'], []).append((complex(mp[0]), tuple(toks) if T is not None else None))
    except Unknown as u:
        ck.count('expansions')
        ck.unsure('expansion', '%s: %s' % (what, u))
        return
    want = {'A': [(1, ('CDag',)), (1, ('C',))], 'B': [(1j, ('CDag',)), (-1j, ('C',))], 'D': [(-2, ('CDag', 'C')), (1, ())]}
    compare(ck, I, L, what, table, want, T is not None, {'CDag': 'c^dagger', 'C': 'c'})
    if T is None:
        if not calls:
            ck.bad('sign of reordering missing', what, where(L.fn, pairs[0][0].node), 'the coefficient does not contain the sign of bringing the fermionic operators into normal order')
        else:
            ck.unsure('labels that are sorted', what)
    else:
        encode(ck, I, A, L, T, what, top, m, pairs, outer)
    # what is stored
    emission(ck, I, what, pairs, m, L, A, top, outer, lambda total, lex: emitted(total, lex), 'lex')


def compare(ck, I, L, what, table, want, tokens, names):
    for o, terms in want.items():
        have = table.get(o)
        if have is None:
            ck.unsure('expansion', '%s: letter %s' % (what, o))
            continue
        h, w = list(have), list(terms)
        if not tokens:
            h, w = [(a, None) for a, b in h], [(a, None) for a, b in w]
        ok = len(h) == len(w)
        for a, b in w:
            hit = [x for x in h if abs(x[0] - a) < 1e-9 and x[1] == b]
            if not hit:
                ok = False
                break
            h.remove(hit[0])

        def text(xs):
            return ' + '.join('(%s)%s' % (num(a), ' ' + ' '.join(names.get(y, y) for y in b) if b else ' I' if b is not None else '') for a, b in xs)
        if not ok:
            ck.bad('wrong replacement of a letter', '%s: %s' % (what, o), where(L.fn, L.node), '%s is replaced by %s instead of %s' % (names.get(o, o), text(have), text(terms)))
        else:
            ck.ok('replacement of a letter', '%s: %s = %s' % (what, o, text(have)))
    ck.count('expansions')


def encode(ck, I, A, L, T, what, top, m, pairs, outer):
    """labels of annihilation operators are stored above those of the creation operators, in descending order, and decoded again"""
    enc = None
    try:
        for M in (0, 1, 2, 7, 1000003):
            top['max'] = M
            top['len'] = min(M + 1, 3)
            seen = {}
            labs = sorted(x for x in {0, 1, 2, M // 2, M - 1, M} if 0 <= x <= M)
            for lab in labs:
                cls = {'op': 'D', 'label': lab, 'choice': None}
                for ch in {c['choice'] for c in A.classes}:
                    cls = dict(cls, choice=ch)
                    for e in T:
                        if holds(e.guards[len(L.guards):], lambda v: A.leaf(v, cls)):
                            x = evaluate(e.args[1], lambda v: A.leaf(v, cls))
                            if x != lab or e.args[1].op == 'bin':
                                seen[lab] = x
                                enc = e.args[1]
            if len(seen) == len(labs):
                if min(seen.values()) <= M:
                    ck.bad('labels of creation and annihilation operators overlap', what, where(L.fn, L.node), 'with largest label %d, c is sorted with %d, among the creation operators' % (M, min(seen.values())))
                    return
                if M and not all(seen[i] > seen[j] for i, j in zip(labs, labs[1:])):
                    ck.bad('wrong order of annihilation operators', what, where(L.fn, L.node), 'the annihilation operators are not sorted in descending order of their labels')
                    return
    except Unknown as u:
        ck.unsure('encoding of labels', '%s: %s' % (what, u))
        return
    finally:
        top['max'] = 7
        top['len'] = 3
    ck.ok('order of the operators', '%s: creation operators ascending, annihilation operators descending' % what)
    # slices of the sorted labels
    large = None
    if enc is not None:
        for x in below(enc):
            if x.op == 'bin' and x.x in ('Add', 'Sub'):
                large = [y for y in x.args]
                break
    sorts = {}

    def desc(v, depth=0):
        """(kind, direction) of a list of labels"""
        if v.op == 'narrow' or v.op == 'call' and v.x[0] in ('numpy.copy', 'numpy.array', 'builtins.list', 'numpy.asarray', 'builtins.tuple') and len(v.args) == 1:
            return desc(v.args[0])
        if v.op == 'call' and v.x[0] in ('builtins.reversed', 'numpy.flip') and len(v.args) == 1:
            d = desc(v.args[0])
            return d and (d[0], -d[1])
        if v.op == 'item' and v.args[1].op == 'slice':
            lo, hi, st = v.args[1].args
            if is_const(lo, None) and is_const(hi, None) and is_const(st, -1):
                d = desc(v.args[0])
                return d and (d[0], -d[1])
            b = v.args[0]
            if b.op == 'item' and b.args[0].op == 'rcall' and rq(b.args[0]) == 'tools.sort_sign' and is_const(b.args[1], 0) and (is_const(st, None) or is_const(st, 1)):
                n1, n2 = bound(lo), bound(hi)
                if n1 == 0 and n2 == 'n':
                    return ('cdag', 1)
                if n1 == 'n' and n2 is None:
                    return ('coded c', 1)
            return None
        if v.op == 'bin' and v.x == 'Sub':
            d = desc(v.args[1])
            if d and d[0] == 'coded c' and large is not None and any(v.args[0].key == y.key for y in large):
                return ('c', -d[1])
        return None

    def bound(v):
        if is_const(v, None):
            return None
        if is_const(v, 0):
            return 0
        if v.op == 'mu':
            mp = A.affine(v)
            if mp is None:
                return '?'
            ok = True
            for cls, q in zip(A.classes, mp):
                n = 0
                try:
                    for e in T:
                        if holds(e.guards[len(L.guards):], lambda w: A.leaf(w, cls)) and evaluate(e.args[1], lambda w: A.leaf(w, cls)) == cls['label']:
                            n += 1
                except Unknown:
                    return '?'
                if q is None or q[0] != 1 or q[1] != n:
                    ok = False
                    ck.bad('creation operators miscounted', what, where(L.fn, L.node), 'for the letter %s the count of creation operators changes by %s instead of %d' % (cls['op'], q and q[1], n))
                    return '?'
            return 'n' if ok and is_const(v.args[0], 0) else '?'
        return '?'
    for c, s in pairs:
        d, e = created(I, bare(s.args[1]))
        if d is None:
            ck.unsure('strings of the result', what)
            continue
        labs = bare(d.get('orbital_labels') or const(None))
        parts = None
        if labs.op == 'call' and labs.x[0] in ('numpy.concatenate', 'numpy.hstack') and labs.args and labs.args[0].op == 'tuple':
            parts = labs.args[0].args
        elif labs.op == 'bin' and labs.x == 'Add':
            parts = labs.args
        ops = letters_of(I, d.get('orbital_operators'))
        if not parts or len(parts) != 2 or ops is None or len(ops) != 2:
            ck.unsure('strings of the result', what)
            continue
        ds = [desc(x) for x in parts]
        os = [(l, desc(x)) for l, x in ops]
        if None in ds or any(x is None for l, x in os):
            ck.unsure('strings of the result', '%s %s' % (what, ds))
            continue
        if ds == [('cdag', 1), ('c', -1)] and [(l, x[0]) for l, x in os] == [('CDag', 'cdag'), ('C', 'c')]:
            ck.ok('order of the operators', 'strings of the result')
        else:
            ck.bad('wrong order of the operators', what, where(e.fn if hasattr(e.fn, 'qual') else L.fn, e.node), 'the string is built from %s with the labels %s; the sign belongs to ascending creation and descending annihilation operators'
                   % (', '.join('%s for %s' % (l, x[0]) for l, x in os), ', '.join('%s %s' % (k, 'ascending' if r > 0 else 'descending') for k, r in ds)))
            return
    for e in I.trace:
        if e.kind == 'rcall' and rq(e.val) == 'tools.compare' and len(e.args) >= 2:
            ds = [desc(x) for x in e.args[:2]]
            if None in ds:
                continue
            if ds == [('cdag', 1), ('c', 1)]:
                ck.ok('order of the operators', 'comparison of the two lists of labels')
            else:
                ck.bad('wrong comparison', what, where(L.fn, e.node), 'the comparison that selects the terms is made between %s' % ' and '.join('%s %s' % (k, 'ascending' if r > 0 else 'descending') for k, r in ds))


def letters_of(I, v):
    """['CDag']*len(x) + ['C']*len(y) as [('CDag', x), ('C', y)]"""
    v = bare(v) if v is not None else None
    if v is None:
        return None
    if v.op == 'bin' and v.x == 'Add':
        a, b = letters_of(I, v.args[0]), letters_of(I, v.args[1])
        return None if a is None or b is None else a + b
    if v.op == 'bin' and v.x == 'Mult':
        for a, b in (v.args, v.args[::-1]):
            if a.op in ('new', 'tuple') and b.op == 'call' and b.x[0] == 'builtins.len':
                xs = a.args if a.op == 'tuple' else I.objinit.get(a.uid)
                if xs and len(xs) == 1 and xs[0].op == 'const':
                    return [(xs[0].x, b.args[0])]
    return None


def emitted(total, lex):
    """(coefficient times prefactor, prefactor) of the stored term, or None"""
    if lex < 0:
        return None
    return total


def emission(ck, I, what, pairs, m, L, A, top, outer, spec, how):
    env = {}
    n0 = len(outer.guards)

    def leaf(v):
        if v.op == 'mu' and v.uid == m.uid:
            return evaluate(m.args[0], leaf) * env['m']
        if v.op == 'item' and v.args[0].op == 'rcall' and rq(v.args[0]) == 'tools.sort_sign' and is_const(v.args[1], 1):
            return env['s']
        if v.op == 'rcall' and rq(v) == 'tools.compare':
            return env['lex']
        if v.op == 'attr' and v.x == 'eps':
            return EPS
        if v.op == 'attr' and v.x == 'prefactor':
            if v.args[0].op == 'inst':
                return env['pM']
            return env['p']
        if v.op == 'call' and v.x[0] == 'builtins.len':
            w = bare(v.args[0])
            if w.op == 'new' and any(L in e.loops for e in I.byobj.get(w.uid, ())):
                return 1
        if v.op == 'cmp' and v.x == 'Eq' and 'herm' in env:
            ls = [bare(a) for a in v.args]
            if all(l.op == 'call' and l.x[0] == 'builtins.len' and l.args for l in ls):
                ks = [filtered(I, l.args[0]) for l in ls]
                if None not in ks and {k for k, d in ks} == {'CDag', 'C'}:
                    raise Wrong('the test for a Hermitian string compares only the numbers of creation and annihilation operators; strings with as many of both on different labels have a Hermitian conjugate as well', v)
        if v.op == 'cmp' and v.x == 'Eq' and all(bare(a).op in ('new', 'item', 'call', 'mcall') and not is_const(a) for a in v.args) and 'herm' in env:
            ks = [filtered(I, a) for a in v.args]
            if None not in ks and {k for k, d in ks} == {'CDag', 'C'}:
                dd = dict(ks)
                if dd['CDag'] == dd['C']:
                    raise Wrong('the test for a Hermitian string compares the creation labels with the annihilation labels in the same order; a Hermitian string has them in opposite orders', v)
                return env['herm']
        if v.op == 'call' and v.x[0] in ('numpy.array_equal', 'builtins.all', 'numpy.all') and 'herm' in env:
            raise Unknown('test')
        return NONE
    count = 0
    ss = (1, -1)
    try:
        for x in (1, -1, 1j, -1j, 0.5, -2, 0.25j):
            for s in ss:
                for p in (1, 1j):
                    for pm in (1, 1j) if how == 'herm' else (1,):
                        for extra in ((-1, 0, 1) if how == 'lex' else (True, False)):
                            env.update(m=x, s=s, p=p, pM=pm)
                            env[how] = extra
                            total = x * s * p / pm
                            if how == 'lex' and extra == 0 and abs(complex(total).imag) > 1e-12:
                                continue
                            if how == 'herm' and extra and abs(complex(total).imag) > 1e-12:
                                continue
                            active = []
                            for c, t in pairs:
                                if holds(c.guards[n0:], leaf) and not skipped(outer, c, leaf):
                                    active.append((c, t))
                            want = spec(total, extra)
                            count += 1
                            desc = 'accumulated factor %s, sign %+d, prefactors %s and %s, %s' % (num(x), s, num(p), num(pm), ('comparison %d' % extra) if how == 'lex' else 'Hermitian string' if extra else 'string with Hermitian conjugate')
                            if want is None:
                                if active:
                                    raise Wrong('a term is stored that must be left out (%s)' % desc, active[0][0])
                                continue
                            if len(active) != 1:
                                raise Wrong('a term is %s (%s)' % ('stored %d times' % len(active) if active else 'not stored', desc), active[0][0] if active else pairs[0][0])
                            c, t = active[0]
                            v = c.args[1]
                            while v.op == 'join':
                                v = choose(v, leaf)
                            got = complex(evaluate(v, leaf))
                            if how == 'lex':
                                d, e = created(I, bare(t.args[1]))
                                if d is None or d.get('prefactor') is None:
                                    raise Unknown('prefactor of the string')
                                got = got * complex(evaluate(d['prefactor'], leaf))
                            if abs(got - want) > 1e-9:
                                raise Wrong('the coefficient stored is %s instead of %s (%s)' % (num(got), num(want), desc), c)
    except Wrong as w:
        node = getattr(w.args[1], 'node', None)
        ck.bad('wrong coefficient', what, where(L.fn, node or outer.node), w.args[0])
        return
    except Unknown as u:
        ck.unsure('stored coefficient', '%s: %s' % (what, u))
        return
    ck.ok('stored coefficients', '%s: %d cases' % (what, count))


def skipped(outer, e, leaf):
    """does an iteration end (continue) before it reaches the event e?"""
    n = len(outer.guards)
    have = {(g.key, p) for g, p in e.guards}
    for s in outer.ends:
        g = s.guards[n:]
        if g and not {(c.key, p) for c, p in g} <= have and g[-1][0].uid < e.uid0 and holds(g, leaf):
            return True
    return False


class Wrong(Exception):
    pass


def filtered(I, v):
    """labels of the letters of one kind in the order of the string: (letter, direction)"""
    if v.op == 'narrow' or v.op == 'call' and v.x[0] in ('numpy.copy', 'numpy.array', 'builtins.list', 'numpy.asarray', 'builtins.tuple') and len(v.args) == 1:
        return filtered(I, v.args[0])
    if v.op == 'call' and v.x[0] in ('builtins.reversed', 'numpy.flip') and len(v.args) == 1:
        d = filtered(I, v.args[0])
        return d and (d[0], -d[1])
    if v.op == 'item' and v.args[1].op == 'slice' and is_const(v.args[1].args[0], None) and is_const(v.args[1].args[1], None) and is_const(v.args[1].args[2], -1):
        d = filtered(I, v.args[0])
        return d and (d[0], -d[1])
    if v.op == 'new':
        evs = I.byobj.get(v.uid, ())
        if len(evs) == 1 and evs[0].kind == 'method' and evs[0].x == 'append' and len(evs[0].loops) == 1 and not I.objinit.get(v.uid):
            e = evs[0]
            g = e.guards[len(e.loops[0].guards):]
            x = e.args[1]
            while x.op == 'narrow' or x.op == 'call' and x.x[0] == 'builtins.int':
                x = x.args[0]
            if x.op == 'elem' and x.args[0].op == 'attr' and x.args[0].x == 'orbital_labels' or x.op == 'item' and x.args[1].op == 'idx' and x.args[0].op == 'attr' and x.args[0].x == 'orbital_labels':
                if len(g) == 1 and g[0][0].op == 'cmp' and g[0][0].x == 'Eq':
                    c = [a.x for a in g[0][0].args if a.op == 'const']
                    o = [a for a in g[0][0].args if any(y.op == 'attr' and y.x == 'orbital_operators' for y in below(a))]
                    if len(c) == 1 and len(o) == 1:
                        k = c[0]
                        if not g[0][1]:
                            k = {'C': 'CDag', 'CDag': 'C'}.get(k)
                        return (k, 1) if k else None
    return None


def fermion(ck, fn, I, p):
    what = 'Fermion to Majorana'
    S = I.params[p]
    got = expansion(ck, I, what)
    if got is None:
        return
    inst, pairs = got
    vals, outer = choices(I, pairs[0][0].loops)
    ms = {}
    for c, s in pairs:
        ms.update(mus(c.args[1]))
    inner = [m for m in ms.values() if I.loops.get(m.x[0]) is not None and I.loops[m.x[0]] not in pairs[0][0].loops and I.loops[m.x[0]].parent is outer]
    if vals is None or len(inner) != 1:
        ck.count('expansions')
        ck.unsure('expansion', '%s: %d accumulated factors' % (what, len(inner)))
        return
    m = inner[0]
    L = I.loops[m.x[0]]
    # the kind of the current letter
    kinds = ('CDag', 'C', 'CDagC')
    keys = {}
    n = len(L.guards)
    pool = [g for s in L.ends for g in s.guards[n:]] + [g for e in I.trace if L in e.loops for g in e.guards[n:]]
    for s in L.ends:
        st = [s.env.get(m.x[1], m)]
        for x in below(st[0]):
            if x.op == 'join':
                pool += [g for gs in x.x for g in gs]
    for c, q in pool:
        for x in below(c):
            if x.op == 'cmp' and x.x == 'Eq':
                for a, b in (x.args, x.args[::-1]):
                    if b.op == 'const' and b.x in kinds and a.op != 'const':
                        keys[a.key] = a
    if len(keys) != 1:
        ck.count('expansions')
        ck.unsure('expansion', '%s: kind of a letter' % what)
        return
    kk, letter = next(iter(keys.items()))

    def seq(v):
        return 'choice' if choiceseq(v) else None

    def fact(v, cls):
        if v.key == kk:
            return cls['kind']
        return NONE
    classes = [{'kind': o, 'choice': c} for o in kinds for c in vals]
    A = Terms(I, seq, classes, fact=fact)
    maps = A.affine(m)
    if maps is None:
        ck.count('expansions')
        ck.unsure('expansion', '%s: factor not in closed form' % what)
        return
    d, e = created(I, bare(pairs[0][1].args[1]))
    ol, oe = looplist(I, d['orbital_operators']) if d else (None, None)
    ll, le = looplist(I, d['orbital_labels']) if d else (None, None)
    tok = ol is not None and ll is not None and all(L in x.loops for x in oe + le)
    table = {}
    try:
        for cls, mp in zip(classes, maps):
            if mp is None or abs(mp[1]) > 1e-9:
                raise Unknown('factor')
            toks, labs = [], 0
            for x in (oe if tok else ()):
                if holds(x.guards[n:], lambda v: A.leaf(v, cls)):
                    toks.append(evaluate(x.args[1], lambda v: A.leaf(v, cls)))
            for x in (le if tok else ()):
                if holds(x.guards[n:], lambda v: A.leaf(v, cls)):
                    labs += 1
            if tok and labs != len(toks):
                ck.bad('letters and labels separated', '%s: %s' % (what, cls['kind']), where(L.fn, L.node), 'for %s, %d letters but %d labels are appended' % (cls['kind'], len(toks), labs))
            table.setdefault(cls['kind'], []).append((complex(mp[0]), tuple(toks) if tok else None))
    except Unknown as u:
        ck.count('expansions')
        ck.unsure('expansion', '%s: %s' % (what, u))
        return
    compare(ck, I, L, what, table, {'CDag': [(0.5, ('A',)), (-0.5j, ('B',))], 'C': [(0.5, ('A',)), (0.5j, ('B',))], 'CDagC': [(-0.5, ('D',)), (0.5, ())]}, tok, {'CDag': 'c^dagger', 'C': 'c', 'CDagC': 'c^dagger c', 'A': 'a', 'B': 'b', 'D': 'd'})
    # the sign
    calls = {}
    for c, s in pairs:
        calls.update(signcalls(c.args[1]))
    if not calls:
        ck.bad('sign of reordering missing', what, where(L.fn, pairs[0][0].node), 'the coefficient does not contain the sign of sorting the labels')
    for k in calls.values():
        ps = summands(k.args[0])
        ds = [filtered(I, x) for x in ps]
        if len(ps) == 1 and bare(ps[0]).op == 'attr' and bare(ps[0]).x == 'orbital_labels' or ds == [('CDag', 1), ('C', 1)]:
            ck.ok('order of the operators', '%s: the sign is that of sorting the labels in the order of the string' % what)
        elif None in ds or len(ds) != 2:
            ck.unsure('labels that are sorted', '%s %s' % (what, ds))
        else:
            ck.bad('sign of the wrong order', what, where(L.fn, k.node), 'the sign is that of sorting %s, which is not the order of the operators in the string' % ' followed by '.join('the %s labels %s' % (a, 'as they stand' if b > 0 else 'reversed') for a, b in ds))
    # kinds of letters
    for x in below(letter):
        if x.op == 'new' and x.x == 'list':
            for e in I.byobj.get(x.uid, ()):
                for y in e.args[1:]:
                    for z in below(y):
                        if z.op == 'new' and z.x == 'dict':
                            kindtable(ck, I, z, what, L)
        elif x.op == 'new' and x.x == 'dict':
            kindtable(ck, I, x, what, L)

    def spec(total, herm):
        if herm:
            return total
        return 2 * total if abs(complex(total).imag) < 1e-12 else None
    emission(ck, I, what, pairs, m, L, A, {}, outer, spec, 'herm')


def kindtable(ck, I, d, what, L):
    """which letters stand at a label"""
    steps = []
    for e in I.byobj.get(d.uid, ()):
        if e.kind != 'store_item' or len(e.loops) != 1 or e.args[2].op != 'const':
            return
        k = filtered(I, e.loops[0].iter)
        if k is None or not (e.args[1].op == 'elem'):
            return
        g = e.guards[len(e.loops[0].guards):]
        cond = None
        if len(g) == 1 and g[0][0].op == 'cmp' and g[0][0].x == 'In' and g[0][0].args[1].uid == d.uid:
            cond = g[0][1]
        elif g:
            return
        steps.append((k[0], cond, e.args[2].x, e))
    for has in (('CDag',), ('C',), ('CDag', 'C')):
        val = None
        for k, cond, x, e in sorted(steps, key=lambda s: s[3].seq):
            if k in has and (cond is None or cond == (val is not None)):
                # one loop runs at most one of its alternative branches for a label
                if not any(k2 == k and e2.loops == e.loops and e2.seq < e.seq and c2 is not None and cond is not None for k2, c2, x2, e2 in done(steps, val, e)):
                    val = x
        want = {('CDag',): 'CDag', ('C',): 'C', ('CDag', 'C'): 'CDagC'}[has]
        if val is not None and val != want and steps:
            # alternatives of one loop may be listed in any order: evaluate again loop by loop
            val = None
            for loop in sorted({s[3].loops[0] for s in steps}, key=lambda q: min(s[3].seq for s in steps if s[3].loops[0] is q)):
                before = val
                for k, cond, x, e in steps:
                    if e.loops[0] is loop and k in has and (cond is None or cond == (before is not None)):
                        val = x
            if val != want:
                ck.bad('wrong kind of letter', '%s: %s' % (what, ' '.join(has)), where(L.fn, steps[0][3].node), 'a label that carries %s is treated as %s' % (' and '.join(has), val))
                return
    if steps:
        ck.ok('kinds of letters', what)


def done(steps, val, e):
    return steps if val is not None else ()


def summands(v):
    v = bare(v)
    if v.op in ('bin', 'aug') and v.x == 'Add':
        return [y for a in v.args for y in summands(a)]
    if v.op == 'call' and v.x[0] in ('numpy.concatenate', 'numpy.hstack') and v.args and v.args[0].op == 'tuple':
        return [y for a in v.args[0].args for y in summands(a)]
    return [v]


def wigner(ck, fn, I, p, rules, what):
    S = I.params[p]
    prods = [e for e in I.trace if e.kind == 'rcall' and rq(e.val) == 'algebra.product' and e.loops]
    if len(prods) != 1:
        ck.count('replacements')
        ck.unsure('Jordan-Wigner', '%s: %d products' % (what, len(prods)))
        return
    e = prods[0]
    L = e.loops[-1]
    f = L.fn
    a, b = e.args[:2]
    jw, acc = (b, a) if bare(a).op == 'mu' else (a, b)
    if bare(acc).op != 'mu':
        ck.count('replacements')
        ck.unsure('Jordan-Wigner', '%s: accumulated string' % what)
        return
    if (bare(a).op != 'mu') != backwards(L.iter):
        ck.bad('factors exchanged', what, where(f, e.node), 'the replacements of the letters are multiplied in the wrong direction, so the letters of the string are multiplied in the reverse order')
    else:
        ck.ok('order of the factors', what)
    acc = bare(acc)
    if L.iter is not None:
        w = bare(L.iter)
        A = Letters(I, lambda v: {'orbital_operators': 'op', 'orbital_labels': 'label'}.get(v.x) if v.op == 'attr' and bare(v.args[0]).key == S.key else None, [{}])
        c = A.covers(w)
        if c is False:
            ck.bad('letters left out', what, where(f, L.node), 'the loop over the letters does not reach all letters (%s)' % show(w, 4))
    d, ev = created(I, bare(jw))
    if d is None:
        ck.count('replacements')
        ck.unsure('Jordan-Wigner', '%s: replacement' % what)
        return
    other = what.split(' to ')[1]
    bad = False
    try:
        for letter, (tail, head) in rules.items():
            for lab in (0, 1, 2, 5):
                def leaf(v):
                    w = v
                    while w.op == 'narrow' or w.op == 'call' and w.x[0] in ('builtins.int', 'builtins.str') and len(w.args) == 1:
                        w = w.args[0]
                    while w.op in ('elem', 'item') and (w.op == 'elem' or w.args[1].op in ('idx', 'elem')) and (w.args[0].op == 'item' and w.args[0].args[1].op == 'slice' or w.args[0].op == 'call' and w.args[0].x[0] in ('builtins.reversed', 'builtins.list')):
                        w = V('elem', (w.args[0].args[0],), 0)
                    if (w.op == 'elem' or w.op == 'item' and w.args[1].op in ('idx', 'elem')) and bare(w.args[0]).op == 'attr' and bare(bare(w.args[0]).args[0]).key == S.key:
                        k = bare(w.args[0]).x
                        if k == 'orbital_operators':
                            return letter
                        if k == 'orbital_labels':
                            return lab
                    if v.op == 'new' and v.x == 'list' and not I.byobj.get(v.uid):
                        return [evaluate(x, leaf) for x in I.objinit.get(v.uid) or ()]
                    if v.op == 'new' and v.x == 'list' and len(I.byobj.get(v.uid, ())) == 1 and not I.objinit.get(v.uid):
                        q = I.byobj[v.uid][0]
                        if q.kind == 'method' and q.x == 'append' and q.loops and q.loops[-1].iter is not None and L in q.loops[:-1] + (q.loops[-1].parent,):
                            it = evaluate(q.loops[-1].iter, leaf)
                            return [evaluate(q.args[1], lambda z: y if z.op in ('elem', 'idx') and (z.x == q.loops[-1].id or isinstance(z.x, tuple) and z.x[0] == q.loops[-1].id) else leaf(z)) for y in it]
                    if v.op == 'item' and v.args[0].op == 'new' and v.args[0].x == 'dict':
                        k = evaluate(v.args[1], leaf)
                        for kk, vv in I.dict_entries(v.args[0]):
                            if kk is not None and kk.op == 'const' and kk.x == k:
                                return evaluate(vv, leaf)
                        raise Unknown('dict')
                    if v.op == 'call' and v.x[0] in ('numpy.arange', 'builtins.range'):
                        return list(range(*[evaluate(x, leaf) for x in v.args]))
                    if v.op == 'call' and v.x[0] in ('builtins.list', 'numpy.array', 'builtins.tuple', 'numpy.asarray') and len(v.args) == 1:
                        return list(evaluate(v.args[0], leaf))
                    return NONE
                ops = list(evaluate(d['orbital_operators'], leaf))
                labs = list(evaluate(d['orbital_labels'], leaf))
                want = ([tail] * lab + [head], list(range(lab + 1))) if tail else ([head], [lab])
                if sorted(zip(ops, labs)) != sorted(zip(*want)) or len(ops) != len(labs):
                    bad = (letter, lab, ops, labs, want)
                    break
            if bad:
                break
        t = evaluate(d['op_type'], leaf) if d.get('op_type') is not None else other
        if not bad and t != other:
            bad = ('', '', t, [], [other])
    except Unknown as u:
        ck.count('replacements')
        ck.unsure('Jordan-Wigner', '%s: %s' % (what, u))
        return
    ck.count('replacements')
    if bad:
        ck.bad('wrong replacement of a letter', '%s: %s' % (what, bad[0]), where(f, ev.node), '%s at label %s is replaced by the letters %s with labels %s instead of %s' % (bad[0], bad[1], ''.join(bad[2]), bad[3], ''.join(bad[4][0])))
    else:
        ck.ok('replacement of a letter', '%s: %s' % (what, ', '.join(rules)))
    # accumulated coefficient
    if acc.args[0].op == 'inst':
        d0, e0 = created(I, acc.args[0])
        o = bare(d0.get('orbital_operators') or const(None)) if d0 else None
        if o is not None and (o.op == 'new' and (I.objinit.get(o.uid)) or o.op == 'tuple' and o.args):
            ck.bad('product does not start at the identity', what, where(f, e0.node), 'the product starts from a string that is not the identity')
    for s in L.ends:
        end = s.env.get(acc.x[1], acc)
        if not (end.op == 'item' and end.args[0].uid == e.val.uid and is_const(end.args[1], 1)):
            ck.bad('string of the product dropped', what, where(f, e.node), 'the accumulated string is not replaced by the product') if end.key == acc.key else ck.unsure('Jordan-Wigner', 'string')
    cs = []
    for x, d1, e1, n1 in results(I):
        from .c18 import elems
        xs, ys = elems(I, d1.get('coeffs') or const(None)), elems(I, d1.get('op_strings') or const(None))
        if xs and ys and len(xs) == 1 and len(ys) == 1 and any(y.op == 'mu' and y.x[0] == L.id for y in below(ys[0])):
            cs.append((xs[0], e1))
    if not cs:
        ck.unsure('Jordan-Wigner', '%s: result' % what)
    for c, e1 in cs:
        env = {}

        def leaf(v):
            if v.op == 'attr' and v.x == 'prefactor':
                return env['p'] if bare(v.args[0]).key == S.key else env['r']
            if v.op == 'mu' and v.x[0] == L.id:
                x = evaluate(v.args[0], leaf)
                for q in env['f']:
                    vals = set()
                    for s in L.ends:
                        def step(w):
                            if w.uid == v.uid:
                                return x
                            if w.op == 'item' and w.args[0].uid == e.val.uid and is_const(w.args[1], 0):
                                return q
                            if w.op == 'mu':
                                raise Unknown('another loop variable')
                            return leaf(w)
                        vals.add(evaluate(s.env.get(v.x[1], v), step))
                    if len(vals) != 1:
                        raise Unknown('factor')
                    x = vals.pop()
                return x
            return NONE
        try:
            wrong = None
            for pp in (1, 1j):
                for fs in ((), (1j,), (-1,), (-1j, 1j), (1j, 1j, -1)):
                    env.update(p=pp, f=fs, r=1)
                    want = pp
                    for q in fs:
                        want *= q
                    got = complex(evaluate(c, leaf))
                    if abs(got - want) > 1e-9:
                        wrong = (pp, fs, got, want)
            if wrong:
                ck.bad('wrong coefficient', what, where(f, e1.node), 'with prefactor %s and coefficients %s of the products the result has the coefficient %s instead of %s' % (num(wrong[0]), [num(q) for q in wrong[1]], num(wrong[2]), num(wrong[3])))
            else:
                ck.ok('stored coefficients', what)
        except Unknown as u:
            ck.unsure('stored coefficient', '%s: %s' % (what, u))


def backwards(v):
    """does an iteration over the letters start at the last one?"""
    v = bare(v) if v is not None else None
    if v is None:
        return False
    if v.op == 'call' and v.x[0] in ('builtins.reversed', 'numpy.flip'):
        return not backwards(v.args[0])
    if v.op == 'call' and v.x[0] in ('builtins.list', 'builtins.tuple') and len(v.args) == 1:
        return backwards(v.args[0])
    if v.op == 'call' and v.x[0] == 'builtins.zip' and v.args:
        return backwards(v.args[0])
    if v.op == 'call' and v.x[0] == 'builtins.range' and len(v.args) == 3:
        return is_const(v.args[2], -1)
    if v.op == 'item' and v.args[1].op == 'slice' and is_const(v.args[1].args[2], -1):
        return not backwards(v.args[0])
    return False


def pieces(v):
    """factors of a product, looking through alternatives that are all alike"""
    v = bare(v)
    if v.op in ('bin', 'aug') and v.x == 'Mult':
        a, b = pieces(v.args[0]), pieces(v.args[1])
        return None if a is None or b is None else a + b
    if v.op == 'join':
        ks = [pieces(a) for a in v.args]
        if any(k is None for k in ks):
            return None
        names = {tuple(sorted(x[0] for x in k)) for k in ks}
        return ks[0] if len(names) == 1 else None
    if v.op == 'attr' and v.x == 'coeffs' or v.op in ('elem', 'item') and bare(v.args[0]).op == 'attr' and bare(v.args[0]).x == 'coeffs':
        return [('coefficients of the first conversion', v)]
    if v.op == 'mu':
        return [('coefficient of the Jordan-Wigner transformation', v)]
    if v.op == 'item' and v.args[0].op == 'rcall':
        return [('coefficient of the Jordan-Wigner transformation', v)]
    if v.op == 'const':
        return [] if v.x == 1 else None
    return None


def chain(ck, fn, I, what):
    """conversions in two steps: both coefficients are multiplied"""
    for x, d, e, n in results(I):
        c = d.get('coeffs')
        if c is None:
            continue
        c = bare(c)
        cl, ce = looplist(I, c)
        vals = [(q.args[1], q) for q in ce] if cl is not None else [(c, e)]
        for v, q in vals:
            fs = pieces(v)
            if fs is None or not fs:
                ck.unsure('two-step conversion', '%s: %s' % (what, show(v, 3)))
                continue
            names = sorted(a for a, b in fs)
            if names == ['coefficient of the Jordan-Wigner transformation', 'coefficients of the first conversion']:
                ck.ok('two-step conversions', what)
            else:
                ck.bad('wrong coefficient', what, where(fn, q.node), 'the coefficient of a term is built from %s only' % ' and '.join(names))


def operators(ck, fn, p, to):
    """each string's conversion is multiplied by its own coefficient"""
    q = [f.qual for f in ck.ctx.prog.functions() if f.module.name == 'conversion' and f.name == '_convert_operator_string']
    if not q:
        ck.unsure('conversion of operators', 'helper not found')
        return
    r = ck.ctx.run_one(fn, {p: 'Operator'}, 0, opaque=OPAQUE | set(q))
    I = r.I
    op = I.params[p]
    calls = [e for e in I.trace if e.kind == 'rcall' and rq(e.val) == q[0]]
    for e in calls:
        arg = e.args[0]
        if fromresult(arg, op) != 'op_strings':
            ck.unsure('conversion of operators', 'argument')
            continue
        used = [x for x in I.trace if x.kind == 'instantiate' and x.x[0] == 'basis.Operator' and dict(x.x[1]).get('coeffs') is not None and any(y.uid == e.val.uid for y in below(dict(x.x[1])['coeffs']))]
        ok = False
        for x in used:
            fs = [y for y in mult(dict(x.x[1])['coeffs'])]
            cs = [y for y in fs if fromresult(y, op) == 'coeffs']
            if len(cs) == 1 and index(cs[0]) == index(arg):
                ok = True
            elif len(cs) == 1 and not definite(cs[0], arg):
                continue
            elif len(cs) == 1:
                ck.bad('coefficient of another string', 'conversion of operators', where(fn, x.node), 'the converted string is multiplied by the coefficient %s' % show(cs[0], 4))
                ok = None
            elif cs:
                ck.bad('wrong coefficient', 'conversion of operators', where(fn, x.node), 'the converted string is multiplied by %d coefficients' % len(cs))
                ok = None
        if ok:
            ck.ok('conversion of operators', 'each converted string is multiplied by its own coefficient')
        elif ok is False:
            direct = [x for x in I.trace if x.kind in ('icall', 'rcall') and str(x.x[0]).endswith(('__iadd__', '__add__')) and any(a.uid == e.val.uid for a in x.args)]
            if direct:
                ck.bad('coefficient dropped', 'conversion of operators', where(fn, direct[0].node), 'the converted string is added without its coefficient')
            else:
                ck.unsure('conversion of operators', 'sum')


def definite(a, b):
    """do the two entries certainly come from different positions?"""
    i, j = position(a), position(b)
    if i is None or j is None:
        return False
    if i.op == 'const' or j.op == 'const':
        return True
    return any(x.op == 'bin' and x.x in ('Add', 'Sub') and y.key in (x.args[0].key, x.args[1].key) for x, y in ((i, j), (j, i)))


def position(v):
    while v.op == 'narrow':
        v = v.args[0]
    if v.op == 'item' and v.args[0].op != 'elem':
        return v.args[1]
    return v if v.op in ('elem', 'item') else None


def mult(v):
    v = bare(v)
    if v.op in ('bin', 'aug') and v.x == 'Mult':
        return [y for a in v.args for y in mult(a)]
    return [v]


def index(v):
    while v.op == 'narrow':
        v = v.args[0]
    if v.op == 'elem':
        return ('loop', v.x)
    if v.op == 'item' and v.args[1].op == 'idx':
        return ('loop', v.args[1].x[0])
    if v.op == 'item' and v.args[0].op == 'elem':
        return ('loop', v.args[0].x)
    return ('key', v.args[1].key) if v.op == 'item' else None
