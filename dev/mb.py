"""mb.py RULES SPEC: spec blocks  '## name [Q|B] file' / old / ==== / new ; several edits: '---- file' separators. run in parallel"""
import sys,os,shutil,subprocess,re
from concurrent.futures import ThreadPoolExecutor
rules,spec=sys.argv[1:3]; only=sys.argv[3:] 
txt=open(spec).read()
blocks=re.split(r'^## ',txt,flags=re.M)[1:]
def one(b):
    head,body=b.split('\n',1)
    name,exp,f=head.split()
    if only and name not in only: return ''
    d='/tmp/mbw/%s'%name
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copytree('/repo/qosy',d+'/qosy')
    parts=re.split(r'^---- *(\S*)\n',body,flags=re.M)
    edits=[(f,parts[0])]+list(zip(parts[1::2],parts[2::2]))
    for g,e in edits:
        g=g or f
        old,new=e.strip('\n').split('\n====\n') if '\n====\n' in e else (e.strip('\n').split('\n====')[0],'')
        new=new.rstrip('\n'); old=old.rstrip('\n')
        p=d+'/qosy/'+g; s=open(p).read()
        if old not in s: return '%s: NOT FOUND %r\n'%(name,old[:60])
        s=s.replace(old,new,1); open(p,'w').write(s)
        r=subprocess.run(['/opt/venv/bin/python','-W','ignore','-m','py_compile',p],capture_output=True,text=True)
        if r.returncode: return '%s: SYNTAX %s\n'%(name,r.stderr[-200:])
    r=subprocess.run(['python3','-W','ignore','/tmp/rt.py',rules,d],capture_output=True,text=True)
    out=r.stdout+r.stderr
    bad=[l[:260] for l in out.splitlines() if l.startswith(('BAD','      '))]
    got='B' if bad else 'Q'
    if 'Traceback' in out: got='E'; bad=[l[:200] for l in out.splitlines()[-4:]]
    und=[l[:300] for l in out.splitlines() if 'undecided' in l]
    if os.environ.get('KEEP'): return '%s kept %s got %s\n'%(name,d,got)
    shutil.rmtree(d,ignore_errors=True)
    return '%s %s (want %s got %s)\n'%('ok  ' if got==exp else 'FAIL',name,exp,got)+''.join('     %s\n'%l for l in (bad[:4] if got!=exp or True else [])+(und if got!=exp else []))
with ThreadPoolExecutor(8) as ex:
    for o in ex.map(one,blocks): print(o,end='',flush=True)
