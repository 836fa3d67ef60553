"""writes MANIFEST.json from properties.jsonl and the rules present"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
import sys
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(here, 'tools'))
from manifest_text import TECH, NOTE, NA
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'sa', 'rules', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i, 'technique': TECH[i], 'level': 'other', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of /repo/qosy written for this codebase; they need only python3. Exit 2 means the analysis could not answer.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
