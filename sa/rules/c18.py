"""C18: signs of the symmetry transformations as functions of how many letters of each kind a string has."""
from ..common import transformation_rules
from ..entries import variants
from ..paths import flat
from ..summary import NONE, Letters, Unknown, bare, evaluate, holds, residues
from ..values import V, const, is_const, show
from .signs import sort_sign_rule

RULE = ('The rule function of each transformation is reduced to the coefficient it returns, as a closed form in the numbers of letters of each kind (loop bodies become one affine map per kind of letter). '
        'The closed form is compared with the defining sign for all residues of these numbers; the string must be returned unchanged. For permutations every letter and label must be moved together and '
        'the coefficient must be the sign of sorting the permuted labels of the fermionic letters. Composition must apply both rules in order to the strings the first one produces and multiply both coefficients.')
ASSUME = ['parity formulas have period dividing 4 in each count (counts up to 4, and up to 7 for each kind alone, are compared)', 'strings hold only letters of their type (C10)',
          'Majorana strings carry the prefactor that their constructor computes']

OPAQUE = {'tools.sort_sign', 'tools.sign', 'basis.Operator.__init__', 'operatorstring.OperatorString.__init__', 'basis.Basis.__init__'}


def where(fn, node):
    return 'qosy/%s.py:%d (%s)' % (fn.module.name, getattr(node, 'lineno', 0), fn.qual)


def created(I, v):
    """{parameter: value} with which the object v was constructed"""
    for e in I.trace:
        if e.kind == 'instantiate' and e.val is not None and e.val.uid == v.uid:
            return dict(e.x[1]), e
    return None, None


def elems(I, v):
    """elements of a literal list/tuple/array"""
    v = bare(v)
    if v.op == 'tuple':
        return list(v.args)
    if v.op == 'new' and v.x == 'list' and not I.byobj.get(v.uid):
        return I.objinit.get(v.uid)
    if v.op == 'new' and v.x == 'list' and all(e.kind == 'method' and e.x == 'append' and not e.loops and not e.guards for e in I.byobj.get(v.uid)):
        return list(I.objinit.get(v.uid) or []) + [e.args[1] for e in I.byobj.get(v.uid)]
    return None


def sequences(S):
    def seq(v):
        if v.op == 'attr' and v.args[0].key == S.key:
            return {'orbital_operators': 'op', 'orbital_labels': 'label'}.get(v.x)
        return None
    return seq


def run(ck):
    ctx = ck.ctx
    rules = transformation_rules(ctx)
    by = {}
    for q, (f, uses) in rules.items():
        for c, info, r, e in uses:
            by.setdefault(c, []).append((f, info, r, e))
    tr = [(f, i, r, e) for f, i, r, e in by.get('transformation.time_reversal', ())]
    seen = set()
    for f, info, r, e in tr:
        if not is_const(info, None) or f.qual in seen:
            continue
        seen.add(f.qual)
        letters(ck, f, 'Majorana', [{'op': x} for x in 'ABD'], lambda n: (-1) ** (n[1] + (n[0] + n[1]) * (n[0] + n[1] - 1) // 2), 'time reversal', {})
        letters(ck, f, 'Pauli', [{'op': x} for x in 'XYZ'], lambda n: (-1) ** sum(n), 'time reversal', {})
    for c in ('transformation.particle_hole', 'transformation.charge_conjugation'):
        for f, info, r, e in by.get(c, ()):
            if f.qual not in seen:
                seen.add(f.qual)
                letters(ck, f, 'Majorana', [{'op': x} for x in 'ABD'], lambda n: (-1) ** (n[1] + n[2]), 'particle-hole', {})
    for f, info, r, e in by.get('transformation.spin_parity_symmetry', ()):
        if f.qual in seen:
            continue
        seen.add(f.qual)
        spinparity(ck, f, info, r)
    for c in ('transformation.label_permutation',):
        for f, info, r, e in by.get(c, ()):
            if f.qual not in seen:
                seen.add(f.qual)
                permutation(ck, f)
    composition(ck)
    apply(ck)
    power(ck)
    spinful(ck)
    spacegroup(ck)
    sort_sign_rule(ck)
    ck.floor('sign formulas', 3)


def letters(ck, f, t, classes, spec, what, args, fact=None):
    ps = f.params()
    tys = {ps[0]: 'OperatorString'}
    r = ck.ctx.run_one(f, tys, 0, args=args, heap={(ps[0], 'op_type'): const(t)}, opaque=OPAQUE)
    I = r.I
    S = I.params[ps[0]]
    name = '%s on %s strings' % (what, t)
    state = {'n': None}

    def ab(n):
        return sum(x for x, c in zip(n, classes) if c['op'] in 'AB')

    def base(v):
        if v.op == 'attr' and v.x == 'prefactor' and v.args[0].key == S.key and state['n'] is not None:
            k = ab(state['n']) if t == 'Majorana' else 0
            return 1j if k * (k - 1) // 2 % 2 else 1.0
        if v.op == 'attr' and v.x == '_labels_ab_operators' and v.args[0].key == S.key:
            return NONE
        if v.op == 'call' and v.x[0] == 'builtins.len' and v.args and state['n'] is not None:
            w = bare(v.args[0])
            if w.op == 'attr' and w.x == '_labels_ab_operators' and w.args[0].key == S.key:
                return ab(state['n'])
        return NONE
    A = Letters(I, sequences(S), classes, fact=fact, base=base)
    rets = []
    for v, g, n, s in I.returns:
        if I.isdead(s):
            continue
        rets.append((v, g, n))
    bad = None
    count = 0
    try:
        for counts in residues(len(classes)):
            state['n'] = counts
            live = [(v, n) for v, g, n in rets if holds(g, lambda w: A.outer(w, counts))]
            if len(live) != 1:
                raise Unknown('returns')
            v, n = live[0]
            if v.op == 'join':
                from ..summary import choose
                v = choose(v, lambda w: A.outer(w, counts))
            d, e = created(I, v)
            if d is None:
                raise Unknown('result')
            cs, ss = elems(I, d.get('coeffs') or const(None)), elems(I, d.get('op_strings') or const(None))
            if cs is None or ss is None or len(cs) != 1 or len(ss) != 1:
                raise Unknown('result')
            same = ss[0].key == S.key
            if not same:
                d2, e2 = created(I, ss[0])
                if d2 and all(sequences(S)(bare(d2.get(k, const(None)))) == x for k, x in (('orbital_operators', 'op'), ('orbital_labels', 'label'))):
                    same = True
            if not same:
                raise Unknown('string')
            c = A.total(cs[0], counts)
            count += 1
            if abs(complex(c) - spec(counts)) > 1e-9:
                bad = (counts, c, n)
                break
    except Unknown as u:
        if A.partial is not None:
            ck.bad('letters left out', name, where(f, A.partial.node), 'the loop over the letters in %s does not reach all letters of the string (%s)' % (f.qual, show(A.partial.iter, 4)))
        else:
            ck.count('sign formulas')
            ck.unsure('sign not in closed form', '%s: %s' % (name, u))
        return
    if bad is None:
        ck.ok('sign formulas', '%s: %d combinations of letter counts (%s)' % (name, count, f.qual))
    else:
        counts, c, n = bad
        ck.count('sign formulas')
        ck.bad('wrong sign', name, where(f, n), '%s multiplies a string with %s by %s instead of %+d' % (f.qual, describe(counts, classes), num(c), spec(counts)))


def num(c):
    c = complex(c)
    return '%+g' % c.real if not c.imag else '%s' % c


def describe(counts, classes):
    return ', '.join('%d %s' % (n, ' '.join(str(x) if k == 'op' else ('in ' if x else 'not in ') + k for k, x in c.items())) for n, c in zip(counts, classes) if n) or 'no letters'


def spinparity(ck, f, info, r):
    """the set of labels that was filtered by the name of the down spin"""
    I = r.I
    names = {I.params[p].key: p for p in ('up_name', 'dn_name') if p in I.params}

    def sets(v):
        w = bare(v)
        while w.op == 'call' and w.x[0] in ('builtins.set', 'builtins.frozenset', 'builtins.sorted') and w.args:
            w = bare(w.args[0])
        if w.op == 'new':
            found = set()
            for e in I.byobj.get(w.uid, ()):
                for c, p in flat(e.guards):
                    if c.op == 'cmp' and c.x in ('In', 'Eq') and p:
                        for a in c.args:
                            if a.key in names:
                                found.add(names[a.key])
            if len(found) == 1:
                return found.pop()
        return None
    ps = f.params()
    if info.op == 'tuple':
        parts = [sets(a) for a in info.args]
        syms = [V('param', (), (f.qual, 'labels %s' % p, 'set')) for p in parts]
        arg = V('tuple', syms)
    else:
        parts = [sets(info)]
        syms = [V('param', (), (f.qual, 'labels %s' % parts[0], 'set'))]
        arg = syms[0]
    if 'dn_name' not in parts or None in parts:
        ck.count('sign formulas')
        ck.unsure('sets of labels of spin parity', show(info, 4))
        return
    keys = {s.key: {'up_name': 'up', 'dn_name': 'down'}[p] for s, p in zip(syms, parts)}

    def fact(v, cls):
        if v.op == 'cmp' and v.x == 'In' and bare(v.args[1]).key in keys:
            a = v.args[0]
            while a.op == 'narrow' or a.op == 'call' and a.x[0] == 'builtins.int':
                a = a.args[0]
            if a.op == 'elem' and a.args[0].op == 'attr' and a.args[0].x == 'orbital_labels' or a.op == 'item' and bare(a.args[0]).op == 'attr' and bare(a.args[0]).x == 'orbital_labels' and a.args[1].op == 'idx':
                return bool(cls[keys[bare(v.args[1]).key]])
        return NONE
    classes = [{'op': x, 'up': u, 'down': d} for x in 'ABD' for u, d in ((0, 0), (1, 0), (0, 1))]
    letters(ck, f, 'Majorana', classes, lambda n: (-1) ** sum(k for k, c in zip(n, classes) if c['down'] and c['op'] in 'AB'), 'spin parity', {ps[1]: arg}, fact)


def permutation(ck, f):
    ps = f.params()
    for t in ('Majorana', 'Pauli'):
        r = ck.ctx.run_one(f, {ps[0]: 'OperatorString'}, 0, heap={(ps[0], 'op_type'): const(t)}, opaque=OPAQUE)
        I = r.I
        S, P = I.params[ps[0]], I.params[ps[1]]
        name = 'permutation of %s strings' % t
        seq = sequences(S)
        for v, g, n, s in I.returns:
            d, e = created(I, v)
            if d is None:
                ck.unsure('permutation result', name)
                continue
            cs, ss = elems(I, d.get('coeffs') or const(None)), elems(I, d.get('op_strings') or const(None))
            if not cs or not ss or len(cs) != 1 or len(ss) != 1:
                ck.unsure('permutation result', name)
                continue
            d2, e2 = created(I, ss[0])
            if d2 is None:
                ck.unsure('permutation result', name)
                continue
            pairing(ck, I, f, n, name, d2, seq, P)
            if t == 'Majorana':
                permsign(ck, I, f, n, name, cs[0], ss[0], S, P, seq)
            else:
                try:
                    c = evaluate(cs[0], lambda w: 1.0 if w.op == 'attr' and w.x == 'prefactor' else NONE)
                    if abs(complex(c) - 1) > 1e-9:
                        ck.bad('wrong sign', name, where(f, n), '%s multiplies the relabelled Pauli string by %s' % (f.qual, num(c)))
                    else:
                        ck.ok('sign formulas', name)
                except Unknown as u:
                    ck.count('sign formulas')
                    ck.unsure('permutation coefficient', '%s %s' % (name, show(cs[0], 4)))


def per_letter(I, v, seq, P):
    """what the i-th entry of v is: ('op'|'label'|'new', index term) with index term 'i' (same letter) or the key of an index array"""
    w = bare(v)
    k = seq(w)
    if k:
        return (k, 'i')
    if w.op == 'item' and w.args[1].op != 'idx' and not is_const(w.args[1]):
        a = per_letter(I, w.args[0], seq, P)
        if a and a[1] == 'i':
            ix = bare(w.args[1])
            k = per_letter(I, ix, seq, P)
            if k == ('label', 'i') and bare(w.args[0]).key == bare(P).key:
                return ('new', 'i')
            return (a[0], ix.key)
        if a is None and bare(w.args[0]).key == bare(P).key and per_letter(I, w.args[1], seq, P) == ('label', 'i'):
            return ('new', 'i')
        return None
    if w.op == 'new' and w.x == 'list' and not I.objinit.get(w.uid):
        evs = I.byobj.get(w.uid, ())
        if len(evs) == 1 and evs[0].kind == 'method' and evs[0].x == 'append' and len(evs[0].loops) == 1:
            e = evs[0]
            L = e.loops[0]
            if [1 for c, p in e.guards[len(L.guards):]]:
                return None
            return entry(I, e.args[1], seq, P)
    return None


def entry(I, x, seq, P):
    """a per-iteration value: which sequence it comes from and through which index"""
    while x.op == 'narrow' or x.op == 'call' and x.x[0] in ('builtins.int', 'builtins.str') and len(x.args) == 1:
        x = x.args[0]
    if x.op == 'elem':
        return per_letter(I, x.args[0], seq, P)
    if x.op == 'item':
        if bare(x.args[0]).key == bare(P).key:
            return ('new', 'i') if entry(I, x.args[1], seq, P) == ('label', 'i') else None
        i = x.args[1]
        a = per_letter(I, x.args[0], seq, P)
        if a is not None and i.op == 'idx':
            return a
        if a is None or a[1] != 'i':
            return None
        if i.op == 'elem':
            return (a[0], bare(i.args[0]).key)
        if i.op == 'item' and i.args[1].op == 'idx':
            return (a[0], bare(i.args[0]).key)
    return None


def inverted(I, v, P, seq, d=0):
    """labels mapped by argsort(permutation)"""
    w = bare(v)
    if d > 6:
        return False
    if w.op == 'item':
        b = bare(w.args[0])
        if b.op == 'call' and b.x[0] == 'numpy.argsort' and len(b.args) == 1 and bare(b.args[0]).key == bare(P).key:
            return True
        return inverted(I, w.args[0], P, seq, d + 1)
    if w.op == 'new' and w.x == 'list' and not I.objinit.get(w.uid):
        evs = I.byobj.get(w.uid, ())
        return len(evs) == 1 and evs[0].x == 'append' and inverted(I, evs[0].args[1], P, seq, d + 1)
    return False


def pairing(ck, I, f, n, name, d2, seq, P):
    a = per_letter(I, d2.get('orbital_operators', const(None)), seq, P)
    b = per_letter(I, d2.get('orbital_labels', const(None)), seq, P)
    if b is None and inverted(I, d2.get('orbital_labels', const(None)), P, seq):
        ck.bad('wrong relabelling', name, where(f, n), 'the labels are mapped by the inverse of the permutation given')
        return
    if a is None or b is None:
        ck.unsure('relabelled string', '%s %s %s' % (name, show(d2.get('orbital_operators'), 3), show(d2.get('orbital_labels'), 3)))
        return
    if a[0] == 'op' and b[0] == 'new' and a[1] == b[1]:
        ck.ok('letters and labels moved together', name)
    elif a[1] != b[1]:
        ck.bad('letters and labels separated', name, where(f, n), 'the letters and the permuted labels of the new string are put into different orders')
    else:
        ck.bad('wrong relabelling', name, where(f, n), 'the new string is not built from the letters and the permuted labels of the old one')


def permsign(ck, I, f, n, name, c, B, S, P, seq):
    """coefficient = sign of sorting the new labels of the fermionic letters, prefactors equal"""
    calls = {}
    unknown = []

    def leafs(s, p):
        def leaf(v):
            if v.op == 'item' and v.args[0].op in ('rcall', 'call') and ssign(v.args[0]) and is_const(v.args[1], 1):
                calls[v.args[0].uid] = v.args[0]
                return s
            if v.op == 'attr' and v.x == 'prefactor':
                return p
            return NONE
        return leaf
    try:
        for s in (1, -1):
            for p in (1.0, 1j):
                x = evaluate(c, leafs(s, p))
                if abs(complex(x) - s) > 1e-9:
                    ck.count('sign formulas')
                    ck.bad('wrong sign', name, where(f, n), 'the coefficient %s of a permuted Majorana string is %s when sorting its labels gives the sign %+d and the prefactors are %s' % (show(c, 5), num(x), s, p))
                    return
    except Unknown as u:
        ck.count('sign formulas')
        ck.unsure('permutation coefficient', '%s %s' % (name, show(c, 5)))
        return
    ck.ok('sign formulas', name)
    for k in calls.values():
        x = bare(k.args[0])
        a = ablabels(I, x, seq, P)
        if a is True:
            ck.ok('sorted labels', name)
        elif a is None:
            ck.unsure('sorted labels', '%s %s' % (name, show(x, 3)))
        else:
            ck.bad('sign of the wrong order', name, where(f, n), 'the sign is computed from %s' % a)


def ssign(v):
    return v.op == 'rcall' and (v.x[0] if isinstance(v.x, tuple) else v.x) in ('tools.sort_sign',)


def ablabels(I, x, seq, P):
    """are these the permuted labels of the A and B letters in their old order?"""
    if x.op == 'new' and x.x == 'list' and not I.objinit.get(x.uid):
        evs = I.byobj.get(x.uid, ())
        if len(evs) != 1 or evs[0].kind != 'method' or evs[0].x != 'append' or len(evs[0].loops) != 1:
            return None
        e = evs[0]
        L = e.loops[0]
        classes = [{'op': t} for t in 'ABD']
        A = Letters(I, seq, classes)
        if A.walks(L) is False:
            return 'only some of the letters'
        kept = []
        for cls in classes:
            try:
                if holds(e.guards[len(L.guards):], lambda v: A.leaf(v, cls)):
                    kept.append(cls['op'])
            except Unknown:
                return None
        if kept != ['A', 'B']:
            return 'the labels of the letters %s' % ', '.join(kept)
        k = entry(I, e.args[1], seq, P)
        if k == ('new', 'i'):
            return True
        if k == ('label', 'i'):
            return 'the old labels'
        if k and k[0] == 'new':
            return 'labels that are sorted already'
        return None
    k = per_letter(I, x, seq, P)
    if k and k[0] in ('new', 'label'):
        return 'the labels of all letters'
    if x.op == 'attr' and x.x == '_labels_ab_operators':
        return 'the old labels'
    if x.op == 'item' and bare(x.args[0]).key == bare(P).key and bare(x.args[1]).op == 'attr' and bare(x.args[1]).x == '_labels_ab_operators':
        return True
    return None


def composition(ck):
    """C*D applies D first"""
    ctx = ck.ctx
    mul = ck.need('transformation.Transformation.__mul__')
    r = ctx.run_one(mul, variants(mul)[0], 0, opaque=OPAQUE)
    I = r.I
    me, other = I.params[mul.params()[0]], I.params[mul.params()[1]]
    for v, g, n, s in I.returns:
        d, e = created(I, v)
        if d is None or d.get('rule') is None or d['rule'].op != 'func' or d.get('info') is None:
            ck.unsure('composition', show(v, 3))
            continue
        rule, info = d['rule'].x, d['info']
        ps = rule.params()
        tys = {ps[0]: 'OperatorString'}
        r2 = ctx.run_one(rule, tys, 0, args={ps[1]: info}, opaque=OPAQUE)
        J = r2.I
        S = J.params[ps[0]]
        dyn = [e for e in J.trace if e.kind in ('dyncall', 'icall', 'method') and e.val is not None and e.val.op == 'dyn' and e.args and e.args[0].op == 'attr' and e.args[0].x == 'rule']
        if len({e.val.uid for e in dyn}) != 2:
            ck.bad('composition', 'number of rules', where(rule, rule.node), 'the rule of a composed transformation calls %d rules instead of 2' % len(dyn)) if dyn and len(dyn) == 1 else ck.unsure('composition', '%d rule calls' % len(dyn))
            continue
        a, b = dyn[0], dyn[1]

        def owner(e):
            w = e.args[0].args[0]
            return 'second factor' if w.key == other.key else 'first factor' if w.key == me.key else None

        def infook(e):
            w = e.args[2] if len(e.args) > 2 else None
            return w is None or not (w.op == 'attr' and w.x == 'info') or w.args[0].key == e.args[0].args[0].key
        for e in (a, b):
            if not infook(e):
                ck.bad('composition', 'info of the wrong factor', where(rule, e.node), 'the rule of the %s is called with the info of the other one' % owner(e))
        if owner(a) is None or owner(b) is None:
            ck.unsure('composition', 'owner of the rules')
            continue
        if owner(a) == owner(b):
            ck.bad('composition', 'one factor twice', where(mul, n), 'the product of two transformations applies the %s twice' % owner(a))
            continue
        if owner(a) != 'second factor':
            ck.bad('composition', 'order', where(mul, n), 'the product C*D applies C to a string first and D afterwards')
        else:
            ck.ok('composition', 'order of the factors')
        if a.args[1].key != S.key:
            ck.bad('composition', 'input of the first rule', where(rule, a.node), 'the rule applied first does not get the string') if b.args[1].key == S.key else ck.unsure('composition', 'input of the first rule')
        src = fromresult(b.args[1], a.val)
        if src == 'op_strings':
            ck.ok('composition', 'the second rule gets the strings produced by the first')
        elif b.args[1].key == S.key:
            ck.bad('composition', 'input of the second rule', where(rule, b.node), 'the second rule is applied to the original string instead of the strings produced by the first one')
        else:
            ck.unsure('composition', 'input of the second rule %s' % show(b.args[1], 4))
        # the terms of the result
        for e in J.trace:
            if e.kind != 'instantiate' or e.x[0] != 'basis.Operator':
                continue
            d = dict(e.x[1])
            cs, ss = elems(J, d.get('coeffs') or const(None)), elems(J, d.get('op_strings') or const(None))
            if not cs or not ss or len(cs) != 1 or len(ss) != 1:
                continue
            f1 = fromresult(ss[0], b.val)
            if f1 != 'op_strings':
                if fromresult(ss[0], a.val) == 'op_strings':
                    ck.bad('composition', 'strings of the result', where(rule, e.node), 'the result holds the strings produced by the first rule')
                else:
                    ck.unsure('composition', 'strings of the result')
                continue
            fac = factors(cs[0])
            if fac is None:
                c = bare(cs[0])
                if c.op == 'un' and c.x == 'USub' and factors(c.args[0]) or c.op == 'bin' and c.x in ('Add', 'Sub', 'Div', 'Pow', 'FloorDiv', 'Mod') and len(c.args) == 2 \
                        and {fromresult(bare(x), y.val) for x, y in ((c.args[0], a), (c.args[1], b))} | {fromresult(bare(x), y.val) for x, y in ((c.args[0], b), (c.args[1], a))} <= {'coeffs', None} \
                        and ({fromresult(bare(x), y.val) for x, y in ((c.args[0], a), (c.args[1], b))} == {'coeffs'} or {fromresult(bare(x), y.val) for x, y in ((c.args[0], b), (c.args[1], a))} == {'coeffs'}):
                    ck.bad('composition', 'coefficient', where(rule, e.node), 'the coefficient of a composed transformation is %s instead of the product of the coefficients of the two rules' % show(cs[0], 4))
                    continue
                ck.unsure('composition', 'coefficient %s' % show(cs[0], 4))
                continue
            have = [('first' if fromresult(x, a.val) == 'coeffs' else 'second' if fromresult(x, b.val) == 'coeffs' else None) for x in fac if not is_const(x, 1.0)]
            if None in have:
                ck.unsure('composition', 'coefficient %s' % show(cs[0], 4))
            elif sorted(have) != ['first', 'second']:
                ck.bad('composition', 'coefficient', where(rule, e.node), 'the coefficient of a composed transformation is %s: it must contain the coefficient of each of the two rules once' % show(cs[0], 4))
            else:
                ck.ok('composition', 'both coefficients are multiplied')


def fromresult(x, call):
    """x is an entry of the operator returned by call: 'coeffs' or 'op_strings'"""
    while x.op == 'narrow':
        x = x.args[0]
    if x.op == 'elem':
        a = bare(x.args[0])
        if a.op == 'attr' and a.x == 'coeffs' and bare(a.args[0]).key == call.key:
            return 'coeffs'
        if a.op == 'attr' and a.x in ('op_strings', '_basis'):
            b = bare(a.args[0])
            if b.key == call.key or b.op == 'attr' and b.x == '_basis' and bare(b.args[0]).key == call.key:
                return 'op_strings'
        return None
    if x.op == 'item':
        if x.args[0].op == 'elem' and x.args[1].op == 'const':
            a = bare(x.args[0].args[0])
            if a.key == call.key:
                return {0: 'coeffs', 1: 'op_strings'}.get(x.args[1].x)
            return None
        a = bare(x.args[0])
        if x.args[1].op in ('idx', 'const', 'bin'):
            return fromresult(V('elem', (a,), 0), call)
    return None


def factors(v):
    v = bare(v)
    if v.op in ('bin', 'aug') and v.x == 'Mult':
        a, b = factors(v.args[0]), factors(v.args[1])
        return None if a is None or b is None else a + b
    if v.op in ('bin', 'aug', 'un', 'join', 'call'):
        return None
    return [v]


def products(v):
    v = bare(v)
    if v.op in ('bin', 'aug') and v.x == 'Mult':
        return products(v.args[0]) + products(v.args[1])
    return [v]


def apply(ck):
    fn = ck.need('transformation.Transformation.apply')
    for i, tys in enumerate(variants(fn)):
        if tys.get('operator') != 'Operator':
            continue
        r = ck.ctx.run_one(fn, tys, i, opaque=OPAQUE)
        I = r.I
        op = I.params['operator']
        me = I.params['self']
        dyn = [e for e in I.trace if e.val is not None and e.val.op == 'dyn' and e.args and e.args[0].op == 'attr' and e.args[0].x == 'rule']
        if not dyn:
            ck.unsure('apply', 'no rule call')
            continue
        for e in dyn:
            for v, g, n, st in I.returns:
                if (bare(v).uid == e.val.uid or bare(v).op == 'call' and bare(v).x[0] in ('copy.copy', 'copy.deepcopy') and bare(v).args and bare(bare(v).args[0]).uid == e.val.uid) and fromresult(e.args[1], op) != 'self' and not any(fromresult(y, op) == 'coeffs' or y.op == 'attr' and y.x == 'coeffs' for c, p in g for y in below(c)) and any(y.op == 'attr' and y.x in ('op_strings', '_basis') or fromresult(y, op) == 'op_strings' for y in below(e.args[1])):
                    ck.bad('apply', 'coefficient dropped', where(fn, n), 'the image of a string of the operator is returned without the coefficient of the string')
            if fromresult(e.args[1], op) != 'op_strings':
                ck.unsure('apply', 'argument of the rule')
                continue
            scaled = [x for x in I.trace if x.kind == 'instantiate' and x.x[0] == 'basis.Operator' and any(y.uid == e.val.uid for y in below(dict(x.x[1]).get('coeffs')))]
            used = False
            for x in scaled:
                fac = factors(dict(x.x[1])['coeffs'])
                if fac is None:
                    used = None
                    changed = [y for y in products(dict(x.x[1])['coeffs']) if y.op in ('call', 'mcall') and y.x[0].split('.')[-1] in ('conj', 'conjugate', 'abs', 'absolute', 'real', 'imag', 'real_if_close') and y.args and fromresult(bare(y.args[0]), op) == 'coeffs' or y.op == 'attr' and y.x in ('real', 'imag') and fromresult(bare(y.args[0]), op) == 'coeffs']
                    if changed:
                        ck.bad('apply', 'coefficient changed', where(fn, x.node), 'the image of each string is multiplied by %s instead of the coefficient of the string' % show(changed[0], 3))
                    continue
                cs = [y for y in fac if fromresult(y, op) == 'coeffs']
                if cs:
                    if len(cs) == 1 and cs[0].op == 'elem' and e.args[1].op == 'elem' and cs[0].x == e.args[1].x or len(cs) == 1:
                        used = True
            if used:
                ck.ok('composition', 'apply multiplies each image by the coefficient of its string')
            elif used is None or scaled:
                ck.unsure('apply', 'coefficient')
            elif all(z.op != 'unknown' for z in [e.val]):
                agg = [x for x in I.trace if x.kind in ('icall', 'rcall') and any(a.uid == e.val.uid for a in x.args)]
                direct = [x for x in agg if x.x and str(x.x[0]).endswith('__iadd__')]
                if direct:
                    ck.bad('apply', 'coefficient dropped', where(fn, direct[0].node), 'the image of each string is added without the coefficient of the string')
                else:
                    ck.unsure('apply', 'coefficient')


def below(v):
    if v is None:
        return
    st, seen = [v], set()
    while st:
        w = st.pop()
        if w.uid in seen:
            continue
        seen.add(w.uid)
        yield w
        st.extend(w.args)


def power(ck):
    """U**n multiplies n copies"""
    fn = ck.need('transformation.Transformation.__pow__')
    r = ck.ctx.run_one(fn, variants(fn)[0], 0, opaque=OPAQUE)
    I = r.I
    me, num_ = I.params[fn.params()[0]], I.params[fn.params()[1]]
    for v, g, n, s in I.returns:
        while v.op == 'narrow':
            v = v.args[0]
        if v.op != 'mu':
            ck.unsure('power', show(v, 3))
            continue
        L = I.loops.get(v.x[0])
        init = v.args[0]
        if L is None or L.kind != 'for' or L.iter is None or not (L.iter.op == 'call' and L.iter.x[0] == 'builtins.range'):
            ck.unsure('power', 'loop')
            continue
        if init.key == me.key:
            k0 = 1
        else:
            ck.unsure('power', 'start')
            continue
        a = L.iter.args
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0].x if a[0].op == 'const' else None, a[1]) if len(a) == 2 else (None, None)
        off = 0
        while hi is not None and hi.op == 'bin' and hi.x in ('Add', 'Sub') and hi.args[1].op == 'const':
            off += hi.args[1].x if hi.x == 'Add' else -hi.args[1].x
            hi = hi.args[0]
        if hi is None or lo is None or bare(hi).key != num_.key:
            ck.unsure('power', 'range')
            continue
        muls = [e for e in I.trace if e.kind in ('icall', 'rcall') and str(e.x[0] if isinstance(e.x, tuple) else e.x).endswith('Transformation.__mul__') and L in e.loops]
        if not muls and v.back and all(bare(a).key == me.key for a in v.back):
            ck.bad('wrong power', fn.qual, where(fn, L.node), 'each pass starts again from the transformation itself, so every power of it is the transformation itself')
            continue
        if len(muls) != 1 or muls[0].guards[len(L.guards):]:
            ck.unsure('power', 'body')
            continue
        ks = {x.key for x in muls[0].args}
        if ks == {v.key}:
            ck.bad('wrong power', fn.qual, where(fn, muls[0].node), 'each pass squares the result instead of multiplying by the transformation')
            continue
        total = k0 + off - lo
        if total != 0:
            ck.bad('wrong power', fn.qual, where(fn, L.node), 'the transformation raised to the power n is applied n%+d times' % total)
        else:
            ck.ok('composition', 'U**n applies U n times')


def flatten(I, v):
    """the sequence of (rule, info) a transformation applies, first to last"""
    d, e = created(I, v)
    if d is None:
        return None
    return flat2(d.get('rule'), d.get('info'))


def flat2(rule, info):
    if rule is None or rule.op != 'func':
        return None
    if rule.x.qual == 'transformation.Transformation._product_rule':
        if info.op != 'tuple' or len(info.args) != 4:
            return None
        a, b = flat2(info.args[0], info.args[1]), flat2(info.args[2], info.args[3])
        return None if a is None or b is None else a + b
    return [(rule.x.qual, info)]


def spinful(ck):
    """spinful time reversal: complex conjugation, and spin flip after spin parity"""
    fn = ck.need('transformation.time_reversal')
    for i, tys in enumerate(variants(fn)):
        if tys.get('spin_info') in (None, 'none'):
            continue
        r = ck.ctx.run_one(fn, tys, i, opaque=OPAQUE)
        for v, g, n, s in r.I.returns:
            alts = v.args if v.op == 'join' else [v]
            for a in alts:
                seq = flatten(r.I, a)
                if seq is None:
                    ck.unsure('spinful time reversal', show(a, 3))
                    continue
                q = [x.split('.')[-1] for x, _ in seq]
                if len(q) == 1:
                    continue
                want = {'_time_reversal_rule': 1, '_sz_rule': 1, '_permutation_rule': 1}
                if any(x not in want for x in q):
                    ck.unsure('spinful time reversal', ', '.join(q))
                    continue
                miss = [x for x in want if q.count(x) != want[x]]
                if miss:
                    ck.bad('wrong composition', 'spinful time reversal', where(fn, n), 'time reversal with spin applies %s' % ', '.join(q))
                elif q.index('_sz_rule') > q.index('_permutation_rule'):
                    ck.bad('wrong composition', 'spinful time reversal', where(fn, n), 'time reversal with spin flips the spins before it gives the down spins their sign, so the up spins get the sign')
                else:
                    ck.ok('composition', 'spinful time reversal: %s' % ', '.join(q))


def spacegroup(ck):
    """r -> R r + d with the same orbital name"""
    fn = ck.need('transformation.space_group_symmetry')
    r = ck.ctx.run_one(fn, variants(fn)[0], 0, opaque=OPAQUE | {'lattice.Lattice.index'})
    I = r.I
    R, D, L = (I.params[p] for p in ('R', 'd', 'lattice'))
    for e in I.trace:
        if e.kind != 'rcall' or (e.x[0] if isinstance(e.x, tuple) else e.x) != 'lattice.Lattice.index':
            continue
        pos, orb = e.args[1], e.args[2] if len(e.args) > 2 else None
        t = moved(pos, R, D)
        if t is True:
            ck.ok('image of a position', 'R r + d')
        elif t is None:
            ck.unsure('image of a position', show(pos, 5))
        else:
            ck.bad('wrong image of a position', fn.qual, where(fn, e.node), 'a space group symmetry sends a position to %s, %s' % (show(pos, 5), t))


def moved(v, R, D):
    v = bare(v)
    if v.op == 'bin' and v.x in ('Add', 'Sub'):
        a, b = bare(v.args[0]), bare(v.args[1])
        if v.x == 'Add' and a.key == D.key:
            a, b = b, a
        if b.key != D.key:
            return None
        if v.x == 'Sub':
            return 'subtracting d'
        if a.op == 'call' and a.x[0] in ('numpy.dot', 'numpy.matmul') and len(a.args) == 2:
            x, y = bare(a.args[0]), bare(a.args[1])
        elif a.op == 'bin' and a.x == 'MatMult':
            x, y = bare(a.args[0]), bare(a.args[1])
        elif a.op == 'mcall' and a.x[0] == 'dot' and len(a.args) == 2:
            x, y = bare(a.args[0]), bare(a.args[1])
        else:
            return None
        t = False
        while x.op == 'attr' and x.x == 'T' or x.op == 'call' and x.x[0] == 'numpy.transpose' and len(x.args) == 1:
            t = not t
            x = bare(x.args[0])
        if x.key == R.key:
            return 'using the transpose of R' if t else True
        if y.key == R.key:
            return 'using the transpose of R'
        return None
    if v.op == 'call' and v.x[0] in ('numpy.dot', 'numpy.matmul') and bare(v.args[0]).key == R.key:
        return 'leaving out d'
    return None
