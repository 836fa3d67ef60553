#!/usr/bin/env python3
"""check.py <ID> [--repo DIR]: decide one property from the source of /repo.

exit 0  the property held on everything analysed (known findings are listed)
        (a line UNDECIDED says what the rules could not be applied to: code they no longer match)
exit 1  VIOLATION property=<id> replay=<file>
exit 2  the analysis itself failed (unparsable package, missing entry point, internal error)"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from sa.entries import Context            # noqa: E402
from sa.interp import AnalysisError       # noqa: E402
from sa.report import Broken, Check       # noqa: E402

TRUST = ['CPython ast module', 'abstract interpreter sa/interp.py (assignments, calls, loops, containers, heap fields)',
         'parameter types of sa/entries.py (read from the docstrings)', 'library model of numpy/scipy calls in sa/types.py and sa/alias.py']


def known(pid):
    """findings accepted as known: lines 'known: property=<id> key=<rule | construct> -- <what fails>'"""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                key, _, what = line.split(' key=', 1)[1].partition(' -- ')
                out[key.strip()] = what.strip()
    return out


def main():
    pid = sys.argv[1]
    root = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else '/repo'
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    err = None
    part = None
    ck = None
    mod = importlib.import_module('sa.rules.' + pid.lower())
    try:
        ctx = Context(root)
        ck = Check(pid, ctx)
        mod.run(ck)
        if ctx.failures:
            part = 'analysis incomplete: ' + '; '.join(ctx.failures[:5])
        elif ck.floors:
            part = 'rule matched too little: ' + '; '.join(ck.floors)
    except (Broken, AnalysisError, SyntaxError) as e:
        err = '%s: %s' % (type(e).__name__, e)
    except Exception:
        err = traceback.format_exc()
    kn = known(pid)
    new, old = {}, {}
    if ck is not None:
        for k, f in ck.findings.items():
            (old if k in kn else new)[k] = f
    cov = {'explanation': (mod.__doc__ or '').strip() + ' Decided on the source of %s/qosy; nothing of it is executed. %s' % (root, getattr(mod, 'RULE', '').strip())}
    if ck is not None:
        cov.update({'rule_instances': ck.obligations, 'instances_satisfied': ck.discharged, 'counts': ck.counts,
                    'modules_parsed': len(ck.ctx.prog.modules), 'functions_in_package': sum(1 for _ in ck.ctx.prog.functions()),
                    'entry_points_interpreted': sum(1 for r in ck.ctx.cache.values() if r is not None),
                    'value_flow_events': sum(len(r.I.trace) for r in ck.ctx.cache.values() if r is not None),
                    'undecided': {k: v for k, v in sorted(ck.undecided.items())},
                    'samples': ck.samples, 'known_findings_present': sorted(old), 'findings': list(new.values()), 'trusted_base': TRUST})
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUME', ['arguments have the types the docstrings give them', 'numpy and scipy behave as documented'])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if err or part:
        ev['coverage']['error' if err else 'not_decided'] = err or part
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k, f in old.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k] or f['message']))
    if new:
        rep = os.path.join(HERE, 'evidence', pid + '.violations.json')
        json.dump(list(new.values()), open(rep, 'w'), indent=1, default=str)
        for k, f in new.items():
            print('%s: %s' % (f['where'][0] if f['where'] else '?', f['message']))
            for p in f['path']:
                print('      ' + str(p))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if err:
        print('ERROR property=%s %s' % (pid, err))
        return 2
    if part:
        print('UNDECIDED property=%s %s' % (pid, part))
    print('OK property=%s instances=%d undecided=%d wall=%.1fs' % (pid, ck.obligations, ck.obligations - ck.discharged, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
