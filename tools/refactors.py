#!/usr/bin/env python3
"""Apply behaviour-preserving rewrites to scratch copies of /repo and confirm
that the checks stay quiet.  usage: refactors.py [-p C01,C02] [-n] [name...]"""
import sys,subprocess,shutil,os,tempfile,time
from concurrent.futures import ThreadPoolExecutor
R={}
def ref(name,*edits,**kw):
    assert name not in R,name
    R[name]=edits
for f in ('refactor_defs.py','refactor_gen_defs.py'):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),f)).read())
DEF={'g':'C15,C16,C19','h':'C15','st':'C15,C16','p':'C17'}
RUNTIME='C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C21'
props=None;binp='/verif/bin/zpv'
a=sys.argv[1:];names=[]
while a:
    x=a.pop(0)
    if x=='-p': props=a.pop(0).split(',')
    elif x=='-b': binp=a.pop(0)
    else: names.append(x)
def one(name):
    d=tempfile.mkdtemp(prefix='ref',dir='/tmp'); r=d+'/repo'
    try:
        shutil.copytree('/repo',r,symlinks=True,ignore=shutil.ignore_patterns('.git'))
        e=R[name]
        for i in range(0,len(e),3):
            f=r+'/'+e[i];s=open(f).read()
            if e[i+1].startswith('ALL:'):
                open(f,'w').write(s.replace(e[i+1][4:],e[i+2])); continue
            if s.count(e[i+1])!=1: return '%s: EDIT %d matches %d times\n'%(name,i//3,s.count(e[i+1]))
            open(f,'w').write(s.replace(e[i+1],e[i+2]))
        t=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... && go vet -unsafeptr=false . && go test ./... 2>&1 | grep -E "^(---|FAIL|panic)" | grep -v gogo| head -12'%r,shell=True,capture_output=True,text=True)
        out='%s: %s %s\n'%(name,t.stdout[-300:].replace('\n',' '),t.stderr[-600:])
        for p in props or DEF.get(name.split('-')[0],RUNTIME).split(','):
            t0=time.time()
            t=subprocess.run([binp,'-repo',r,'-noevidence',p],capture_output=True,text=True)
            if t.returncode!=0:
                out+='   %s rc=%d %.0fs\n%s'%(p,t.returncode,time.time()-t0,''.join('      '+l[:int(os.environ.get("LW","230"))]+'\n' for l in t.stdout.split('\n')+t.stderr.split('\n') if l and not l.startswith('    '))[:int(os.environ.get("W","1400"))])
            elif time.time()-t0>100: out+='   %s slow %.0fs\n'%(p,time.time()-t0)
        return out
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex:
    for o in ex.map(one,names or [n for n in R if not os.environ.get('K') or n.startswith(os.environ['K'])]):
        print(o,end='',flush=True)
