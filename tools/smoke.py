import sys,time
sys.path.insert(0,'/verif')
from sa.interp import *
P=Program()
for f in P.functions():
    t0=time.time()
    I=Interp(P)
    tys={}
    if f.cls: tys['self']=f.cls.name
    for p in f.params():
        for k,t in (('op_string','OperatorString'),('operator','Operator'),('basis','Basis'),('lattice','Lattice'),('other',f.cls.name if f.cls else None),('transform','Transformation'),('H','Operator')):
            if p==k or (p.startswith(k) and k!='H' and p!='operators' and 'size' not in p): tys.setdefault(p,t)
    try:
        r=I.run(f,types=tys)
        print('%-55s ev=%5d ret=%d unk=%d %.2fs'%(f.qual,len(I.trace),len(r),len(I.unknowns),time.time()-t0), [u for u in I.unknowns if not str(u[0]).startswith('except')][:4])
        for e in I.trace:
            if e.kind in('undefined_name','bad_call'): print('     ',e, e.x)
    except Exception as ex:
        import traceback; traceback.print_exc(limit=-4); print('FAIL',f.qual,repr(ex)[:200])
