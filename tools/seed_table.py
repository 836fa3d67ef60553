"""writes the table of planted bugs into DESIGN.md"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- planted -->', '| id | needs | breaks |', '|----|-------|--------|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    p = os.path.join(here, 'seeded', d, 'meta.json')
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
rows.append('<!-- end -->')
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- planted -->.*?<!-- end -->', lambda m: t, s, flags=re.S)
open(f, 'w').write(s)
