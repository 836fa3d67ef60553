import sys,time,importlib,json
sys.path.insert(0,'/verif')
from sa.entries import *
from sa.report import Check
t=time.time()
c=Context(sys.argv[2] if len(sys.argv)>2 else '/repo')
for pid in sys.argv[1].split(','):
    ck=Check(pid.upper(),c)
    importlib.import_module('sa.rules.'+pid).run(ck)
    for k,f in ck.findings.items(): print('BAD',k,f['where'],'\n     ',f['message'])
    print(pid,'counts',ck.counts,'floors',ck.floors,'obl',ck.obligations,ck.discharged)
    for k,v in ck.undecided.items(): print('  undecided',k,len(v),v[:6])
    if '-s' in sys.argv: print(ck.samples)
print(time.time()-t,c.failures)
