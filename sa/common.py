"""Anchors shared by several rules."""
from .entries import variants
from .interp import AnalysisError


def transformation_rules(ctx):
    """rule functions that the library's own constructors put into Transformations:
    qual -> (FuncRef, [(constructor, info value, run)])"""
    out = {}
    for fn in list(ctx.prog.functions()):
        if fn.module.name != 'transformation' or fn.name.startswith('_') and fn.name != '__mul__':
            continue
        for i, tys in enumerate(variants(fn)):
            try:
                r = ctx.run_one(fn, tys, i)
            except AnalysisError:
                continue
            for e in r.I.trace:
                if e.kind == 'instantiate' and e.x[0] == 'transformation.Transformation' and (e.fn is fn or ctx.prog.helper(e.fn)):
                    d = dict(e.x[1])
                    rule = d.get('rule')
                    if rule is not None and rule.op == 'func':
                        out.setdefault(rule.x.qual, (rule.x, []))[1].append((fn.qual, d.get('info'), r, e))
    return out
