"""plant.py SPEC [ids]: '## id PROP' / 'needs: ..' / 'breaks: ..' / blocks '---- file' old ==== new / '---- DEMO' python code"""
import sys,os,re,shutil,subprocess,json
from concurrent.futures import ThreadPoolExecutor
spec=sys.argv[1]; only=sys.argv[2:]
base=json.load(open('/opt/vp/BASELINE.json'))
def stable():
    for k in ('stable','passed','tests','stable_pass'):
        if k in base: return base[k]
    return None
env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',MPLBACKEND='Agg',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',PYTHONHASHSEED='0')
DEMO='''#!/bin/bash
# usage: cd <checkout of qosy>; bash demo.sh      exit 0: property holds, nonzero: broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def one(b):
    head,body=b.split('\n',1); bid,prop=head.split()
    if only and bid not in only: return ''
    needs=re.search(r'^needs: (.*)$',body,re.M).group(1); brk=re.search(r'^breaks: (.*)$',body,re.M).group(1)
    d='/tmp/plantw/'+bid; shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/plantw',exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    parts=re.split(r'^---- (\S+)\n',body,flags=re.M)
    demo=None
    for f,e in zip(parts[1::2],parts[2::2]):
        if f=='DEMO': demo=e; continue
        old,new=e.split('\n====\n') if '\n====\n' in e else (e.split('\n====')[0],'')
        old=old.rstrip('\n').lstrip('\n');new=new.rstrip('\n').lstrip('\n')
        p=d+'/qosy/'+f; s=open(p).read()
        if s.count(old)!=1: return '%s: %d occurrences of %r\n'%(bid,s.count(old),old[:60])
        open(p,'w').write(s.replace(old,new))
    out='/verif/seeded/'+bid; os.makedirs(out,exist_ok=True)
    patch=subprocess.run(['git','-C',d,'diff'],capture_output=True,text=True).stdout
    open(out+'/patch.diff','w').write(patch)
    open(out+'/demo.sh','w').write(DEMO); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo.py','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':brk},open(out+'/meta.json','w'),indent=1)
    e=dict(env,PYTHONPATH=d)
    good=subprocess.run(['bash',out+'/demo.sh'],cwd='/repo',capture_output=True,text=True,env=env,timeout=300)
    badr=subprocess.run(['bash',out+'/demo.sh'],cwd=d,capture_output=True,text=True,env=env,timeout=300)
    t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--tb=line','tests'],cwd=d,capture_output=True,text=True,env=e)
    ft=[l for l in t.stdout.splitlines() if l.startswith(('FAILED','ERROR')) and 'majumdar' not in l]
    chk=subprocess.run(['python3','/verif/check.py',prop,'--repo',d],capture_output=True,text=True,cwd='/verif')
    caught='CAUGHT' if chk.returncode==1 else 'missed(rc %d)'%chk.returncode
    ok=good.returncode==0 and badr.returncode!=0 and not ft
    r='%s %s %s good=%d bad=%d failedtests=%d %s\n'%('OK ' if ok else 'NOT',bid,prop,good.returncode,badr.returncode,len(ft),caught)
    if not ok: r+='   '+(good.stderr[-300:] if good.returncode else '')+' | '+badr.stderr[-200:]+' | '+str(ft[:3])+'\n'
    r+='     '+'\n     '.join(l[:230] for l in chk.stdout.splitlines() if 'VIOL' in l or chk.returncode not in (0,1))[:700]+'\n'
    shutil.rmtree(d,ignore_errors=True)
    if not ok: shutil.rmtree(out)
    return r
blocks=re.split(r'^## ',open(spec).read(),flags=re.M)[1:]
with ThreadPoolExecutor(4) as ex:
    for o in ex.map(one,blocks): print(o,end='',flush=True)
