"""C02: operators and bases created by a call share no container with its arguments."""
from ..alias import Alias
from ..entries import is_public
from ..types import base

FIELDS = {'Operator': ('coeffs', '_basis'), 'Basis': ('op_strings', '_indices')}
# constructors keep what they are given (documented for Operator(basis); Basis stores the list it is built from)
SKIP = {'basis.Basis.__init__', 'core.SymmetricOperatorGenerator.__init__', 'basis.Basis.__iter__', 'basis.Operator.__iter__'}
INPLACE = {'basis.Operator.__iadd__', 'basis.Operator.__isub__', 'basis.Basis.__iadd__'}
# results that are documented to be (or contain) the argument itself
RETURNS_ARG = {'basis.Operator.__iadd__', 'basis.Operator.__isub__', 'basis.Basis.__iadd__'}
MUST = ['basis.Operator.__add__', 'basis.Operator.__sub__', 'basis.Operator.__mul__', 'basis.Operator.__rmul__', 'basis.Operator.__neg__',
        'basis.Operator.remove_zeros', 'basis.Basis.__add__', 'conversion.convert', 'algebra.product', 'algebra.commutator', 'algebra.anticommutator',
        'transformation.Transformation.apply', 'basis.cluster_basis', 'basis.distance_basis', 'algorithms._truncate_basis', 'algorithms._truncate_operator',
        'symmetrization.symmetrize_basis', 'diagonalization.to_operator', 'algebra.generate_lie_algebra', 'algebra.structure_constants']


def insts(I, A, v, seen, depth=0):
    """Operator/Basis instances created in the call and reachable from v"""
    if v.uid in seen or depth > 6:
        return
    seen.add(v.uid)
    for r in I.roots(v):
        while r.op == 'narrow':
            r = r.args[0]
        if r.op == 'inst':
            yield r
            for h in I.final_heap:
                for k, w in list(h.items()):
                    if k[0] == 'inst' and k[1] == r.uid and k[2] == '_basis':
                        yield from insts(I, A, w, seen, depth + 1)
        elif r.op == 'tuple':
            for a in r.args:
                yield from insts(I, A, a, seen, depth + 1)
        elif r.op == 'new':
            for c in I.contents(r):
                yield from insts(I, A, c, seen, depth + 1)
        elif r.op in ('item', 'elem') and r.args:
            for c in I.contents(r.args[0]):
                yield from insts(I, A, c, seen, depth + 1)


def run(ck):
    ctor = ck.need('basis.Operator.__init__')
    for q in MUST:
        ck.need(q)
    seen_must = set()
    for r in ck.ctx.entries(private=False):
        if r.fn.qual in SKIP:
            continue
        I = r.I
        A = Alias(I)
        if r.fn.qual == ctor.qual:
            # lists and arrays handed to Operator() are copied
            selfv = I.params[r.fn.params()[0]]
            for h in I.final_heap:
                for f in FIELDS['Operator']:
                    w = h.get(I.hkey(selfv, f))
                    if w is None:
                        continue
                    vals = [(f, w)]
                    for i in I.roots(w):
                        if i.op == 'inst':
                            vals += [(f + '.' + k[2], x) for k, x in h.items() if k[0] == 'inst' and k[1] == i.uid]
                    for name, x in vals:
                        for ob in A.pts(x):
                            if ob[0] == 'P' and ob[1] in ('coeffs', 'op_strings') and base(r.types.get(ob[1], '')) != 'Basis':
                                ck.bad('container-shared', 'Operator() keeps the caller\'s %s as %s' % (ob[1], name), 'qosy/basis.py (%s)' % r.fn.qual,
                                       'Operator.__init__ stores the argument %r itself in field %s; later in-place changes to either show up in both' % (ob[1], name))
                                break
                        else:
                            ck.ok('field obligations', 'Operator(%s).%s is a copy' % (r.types.get('op_strings'), name))
            continue
        made = []
        for (v, g, node, st) in I.returns:
            made += list(insts(I, A, v, set()))
            t = base(I.T.ty(v))
            if t in FIELDS and r.fn.qual not in RETURNS_ARG:
                al = [ob for ob in A.pts(v) if ob[0] == 'P']
                where = 'qosy/%s.py:%d (%s)' % (r.fn.module.name, getattr(node, 'lineno', 0), r.fn.qual)
                if al:
                    ck.bad('argument-returned', '%s returns its argument %s' % (r.fn.qual, al[0][1]), where,
                           'entry %s returns an %s that is (part of) its argument %r' % (r.name, t, al[0][1]))
                else:
                    ck.ok('returned objects')
        done = set()
        for o in made:
            if o.uid in done or o.x.name not in FIELDS:
                continue
            done.add(o.uid)
            seen_must.add(r.fn.qual)
            for f in FIELDS[o.x.name]:
                for h in I.final_heap:
                    w = h.get(('inst', o.uid, f))
                    if w is None:
                        continue
                    al = [ob for ob in A.pts(w) if ob[0] == 'P']
                    where = 'qosy/%s.py:%d' % (o.mod.name if o.mod else r.fn.module.name, getattr(o.node, 'lineno', 0))
                    if al:
                        ck.bad('container-shared', '%s: field %s of the resulting %s is taken from argument %s' % (r.fn.qual, f, o.x.name, al[0][1]), where,
                               'entry %s: the %s created at %s has %s = %s, which is (part of) argument %r, not a copy' % (r.name, o.x.name, where, f, w, al[0][1]))
                    else:
                        ck.ok('field obligations', '%s: %s.%s fresh' % (r.name, o.x.name, f))
        if r.fn.qual in INPLACE:
            me = r.fn.params()[0]
            for e in I.trace:
                if e.kind == 'store_attr' and any(ob[0] == 'P' and ob[1] == me for ob in A.pts(e.args[0])):
                    al = [ob for ob in A.pts(e.args[1]) if ob[0] == 'P' and ob[1] != me]
                    if al and I.T.mutable(e.args[1]) or al and base(I.T.ty(e.args[1])) == 'unknown':
                        ck.bad('container-shared', '%s stores a container of its operand %s' % (r.fn.qual, al[0][1]), e.where,
                               '%s: field %s is set to an object of argument %r; the two operands then share storage' % (e.where, e.x[0], al[0][1]))
                    else:
                        ck.ok('in-place stores')
    for q in MUST:
        if q not in seen_must and q != 'transformation.Transformation.apply':
            ck.unsure('anchor creates no Operator/Basis instance', q)
    ck.counts['entries creating operators or bases'] = len(seen_must)
    ck.floor('entries creating operators or bases', 18)
    ck.floor('field obligations', 60)
