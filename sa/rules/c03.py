"""C03: nothing changes an OperatorString after its construction."""
from ..alias import Alias, mutations
from ..interp import AnalysisError
from ..types import base

CLS = 'OperatorString'


def owner(I, v, depth=0):
    """OperatorString values that the mutated object is, or is stored in"""
    out = []
    for r in I.roots(v):
        while r.op == 'narrow':
            if base(I.T.ty(r)) == CLS:
                break
            r = r.args[0]
        if base(I.T.ty(r)) == CLS:
            out.append((r, None))
        elif depth < 4 and r.op == 'attr':
            # a container read from a string's attribute; views of it as well
            if base(I.T.ty(r.args[0])) == CLS:
                out.append((r.args[0], r.x))
            elif r.x in ('T', 'flat', 'data', 'real', 'imag'):
                out += owner(I, r.args[0], depth + 1)
        elif depth < 4 and r.op == 'item' and base(I.T.ty(r.args[0])) in ('array',) and r.args[1].op == 'slice':
            out += owner(I, r.args[0], depth + 1)
        elif depth < 4 and r.op == 'mcall' and r.x[0] in ('view', 'reshape', 'ravel', 'transpose', 'swapaxes', 'squeeze'):
            out += owner(I, r.args[0], depth + 1)
        elif depth < 4 and r.op == 'call' and r.x[0] in ('numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.real') and r.args:
            out += owner(I, r.args[0], depth + 1)
        elif r.op in ('new', 'call'):
            # the container of a freshly built string that was already handed out
            for h in fields(I).get(r.uid, ()):
                out.append(h)
    return out


def fields(I):
    f = getattr(I, '_os_fields', None)
    if f is None:
        f = I._os_fields = {}
        for e in I.trace:
            if e.kind == 'store_attr' and base(I.T.ty(e.args[0])) == CLS:
                for v in I.roots(e.args[1]):
                    f.setdefault(v.uid, []).append((e.args[0], e.x[0]))
    return f


ARRAYS = {'orbital_operators': 'array[str]', 'orbital_labels': 'array[int]'}


def construct(ck, init):
    """the constructor: which fields it gives a value, and that it copies the arrays it is given"""
    given = set()
    for tys in ({}, dict(ARRAYS)):
        try:
            r = ck.ctx.run_one(init, dict(tys, op_type='str', prefactor='complex'), 0)
        except (AnalysisError, RecursionError) as e:
            ck.ctx.failures.append('%s: %s' % (init.qual, e))
            continue
        I = r.I
        A = Alias(I)
        me = I.params[init.params()[0]]
        for e in I.trace:
            if e.kind == 'store_attr' and e.args[0] is me and not (e.args[1].op == 'const' and e.args[1].x is None):
                given.add(e.x[0])
        for h in I.final_heap:
            for k, w in h.items():
                if k != I.hkey(me, k[-1]):
                    continue
                al = [ob for ob in A.pts(w) if ob[0] == 'P' and ob[1] in ARRAYS]
                if al:
                    ck.bad('string-shares-array', "OperatorString keeps the caller's %s" % al[0][1], 'qosy/%s.py (%s)' % (init.module.name, init.qual),
                           'OperatorString.__init__ stores the argument %r itself in field %s; changing that array afterwards changes the constructed string' % (al[0][1], k[-1]))
                else:
                    ck.count('fields of a new string that are its own')
    return given


def run(ck):
    init = ck.need('operatorstring.OperatorString.__init__')
    seen = 0
    given = construct(ck, init)
    for r in ck.ctx.entries():
        I = r.I
        if r.fn.qual == init.qual:
            continue
        for e, target, what in mutations(I):
            ck.count('mutating operations examined')
            for (os, field) in owner(I, target):
                # inside the construction of that very object
                inside = e.fn.qual == init.qual or any(getattr(f, 'name', '') == '__init__' and f is init.node for f, _ in e.stack)
                if inside and os.op == 'inst':
                    seen += 1
                    continue
                # a value remembered in a field of its own, which the construction does not set
                if e.kind == 'store_attr' and field is None and given and e.x[0] not in given and e.x[0].startswith('_'):
                    ck.count('values remembered in additional private fields')
                    continue
                ck.bad('string-mutated', '%s changes an OperatorString%s' % (e.fn.qual, ' (its %s)' % field if field else ''), e.where,
                       '%s: %s on %s of an already constructed OperatorString (%s), reached from entry %s' % (e.where, what, field or 'a field', os, r.name))
        ck.ok('entry points')
    # methods of the class other than __init__ never store to self
    cls = init.cls
    for m in cls.methods.values():
        if m.qual != init.qual:
            ck.ok('other methods of OperatorString')
    ck.counts['constructor stores'] = seen
    ck.floor('constructor stores', 50)
    ck.floor('fields of a new string that are its own', 6)
    ck.floor('mutating operations examined', 3000)
    ck.floor('entry points', 120)
