"""C15: the module-level code is evaluated abstractly (constants folded, loops over
literal tuples unrolled); every module-level dictionary keyed by pairs of letters is
compared entry by entry with the algebra of two anticommuting generators."""
from ..interp import Interp

RULE = ('Rule: for the letters (a, b, c) of a family, table[x, y] = (s, z) with z the third letter, s = +i for the cyclic products x*y = a*b, b*c, c*a (X Y = iZ, A B = iD) and -i for the reversed ones, table[y, x] = (-s, z); '
        ' all six ordered pairs of each family are present and no key mixes families.')
ASSUME = ['the families are X, Y, Z with X Y = i Z and A, B, D with D = -i A B, whatever the order in which the source lists them']

FAMILIES = (('X', 'Y', 'Z'), ('A', 'B', 'D'))


def tables(ctx):
    out = []
    I = Interp(ctx.prog)
    for m in ctx.prog.modules.values():
        for name in m.consts:
            if name in m.funcs or name in m.classes:
                continue
            v = I.global_value(m.name, name, m.tree)
            if v.op == 'new' and v.x == 'dict':
                out.append((m.name, name, v))
    # class level tables and tables local to functions are looked at where products are formed (C16)
    res = []
    for mod, name, v in out:
        ent = {}
        ok = True
        for k, w in I.dict_entries(v):
            if k is None or not I.constlike(k):
                ok = False
                continue
            ks = tuple(a.x for a in k.args) if k.op == 'tuple' else k.x
            ent[ks] = w
        if any(isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, str) for x in k) for k in ent):
            res.append((mod, name, v, ent, ok))
    return res


def value(w):
    if w.op == 'tuple' and len(w.args) == 2 and w.args[0].op == 'const' and w.args[1].op == 'const':
        try:
            return complex(w.args[0].x), w.args[1].x
        except (TypeError, ValueError):
            return None
    if w.op == 'const' and isinstance(w.x, tuple) and len(w.x) == 2:
        return complex(w.x[0]), w.x[1]
    return None


def run(ck):
    ts = tables(ck.ctx)
    ck.count('product tables', len(ts))
    ck.floor('product tables', 1)
    fam_of = {l: i for i, f in enumerate(FAMILIES) for l in f}
    for mod, name, v, ent, complete in ts:
        where = 'qosy/%s.py:%d (%s)' % (mod, getattr(v.node, 'lineno', 0), name)
        T = '%s.%s' % (mod, name)
        vals = {}
        for k, w in ent.items():
            d = value(w)
            if d is None:
                ck.unsure('entry not constant', '%s[%s]' % (T, k))
                continue
            vals[k] = d
            if not all(x in fam_of for x in k) or len(k) != 2 or fam_of[k[0]] != fam_of[k[1]] or d[1] not in fam_of or fam_of[d[1]] != fam_of[k[0]]:
                ck.bad('mixed families', '%s[%s]' % (T, k), where, 'entry %r -> %r of %s mixes letters of different families' % (k, d, T))
        for fam in FAMILIES:
            signs = []
            for i in range(3):
                a, b, c = fam[i], fam[(i + 1) % 3], fam[(i + 2) % 3]
                for x, y in ((a, b), (b, a)):
                    k = (x, y)
                    if k not in ent:
                        if complete:
                            ck.bad('missing entry', '%s[%s]' % (T, k), where, 'the product %s*%s is not in %s' % (x, y, T))
                        else:
                            ck.unsure('entry not found', '%s[%s]' % (T, k))
                        continue
                    if k not in vals:
                        continue
                    s, z = vals[k]
                    if z != c:
                        ck.bad('wrong letter', '%s[%s]' % (T, k), where, 'the product %s*%s is stored as %s times %s; it must be a multiple of %s' % (x, y, s, z, c))
                    elif s == (-1j if (x, y) == (a, b) else 1j):
                        ck.bad('wrong orientation', '%s[%s]' % (T, k), where, 'the product %s*%s is stored as %s times %s; with %s = -i %s %s it is %s times %s' % (x, y, s, z, fam[2], fam[0], fam[1], -s, z))
                    elif s not in (1j, -1j):
                        ck.bad('wrong phase', '%s[%s]' % (T, k), where, 'the product %s*%s carries the factor %s, which is not +i or -i' % (x, y, s))
                    else:
                        ck.ok('entries', '%s*%s = %s*%s' % (x, y, s, z))
                if (a, b) in vals and (b, a) in vals:
                    if vals[(a, b)][0] != -vals[(b, a)][0]:
                        ck.bad('sign does not flip', '%s[%s%s]' % (T, a, b), where, 'reversing %s*%s does not change the sign' % (a, b))
                    else:
                        ck.ok('reversals', '%s*%s = -%s*%s' % (a, b, b, a))
                if (a, b) in vals:
                    signs.append(((a, b), vals[(a, b)][0]))
            if len({s for _, s in signs}) > 1:
                odd = [k for k, s in signs if sum(t == s for _, t in signs) == 1]
                ck.bad('cyclic signs differ', '%s %s' % (T, '/'.join(''.join(k) for k in odd)), where, 'the cyclic products %s do not carry one sign' % ', '.join('%s*%s: %s' % (k[0], k[1], s) for k, s in signs))
            elif len(signs) == 3:
                ck.ok('cyclic products', '%s: %s' % (''.join(fam), signs[0][1]))
    ck.floor('entries', 12)
