#!/usr/bin/env python3
"""Development aid (not used by any check): applies small mutants of the code under test to a scratch
copy of /repo, sees whether the package's own tests survive, and whether the property's check notices.
mut.py LIST.py [name-substring...]   LIST.py defines M = [(name, prop, [(file, old, new)...])]"""
import os, subprocess, sys, shutil, concurrent.futures as cf, threading, queue
S=os.environ.get('MUT_DIR','/tmp/mut')
N=int(os.environ.get('MUT_N','3'))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
def setup(i):
    d=f'{S}/{i}'
    if not os.path.exists(d+'/repo'):
        os.makedirs(d,exist_ok=True)
        sh(f'cp -a /repo {d}/repo')
    sh(f'git -C {d}/repo checkout -q -- . && git -C {d}/repo fetch -q /repo HEAD && git -C {d}/repo reset -q --hard FETCH_HEAD')
    sh(f'rm -rf {d}/verif; mkdir -p {d}/verif; cd /verif && git ls-files -z --cached --others --exclude-standard | grep -zv ^seeded | xargs -0 cp --parents -t {d}/verif')
    sh(f"sed -i 's#/verif#{d}/verif#g; s#/repo#{d}/repo#g' {d}/verif/env.sh")
    return d
def run(d,m):
    name,prop,edits=m[:3]
    R=d+'/repo'
    sh(f'git -C {R} checkout -q -- .')
    pk=set()
    for f,o,n in edits:
        p=f'{R}/{f}'; s=open(p).read()
        if s.count(o)!=1: return f'{name}: BAD-EDIT {f} count={s.count(o)}'
        open(p,'w').write(s.replace(o,n)); pk.add('./'+os.path.dirname(f))
    env=dict(os.environ,VERIF_REPO=R)
    env0=". /verif/env.sh; cd %s; cp /verif/gomod/go.mod /dev/null 2>/dev/null; "%R
    t=sh(f'{env0} go vet -modfile={MODF} {" ".join(pk)} >/dev/null 2>&1; go test -modfile={MODF} -vet=off -timeout 300s {" ".join(pk)}')
    up='survives' if t.returncode==0 else 'KILLED-UPSTREAM' 
    if t.returncode and 'build failed' in t.stdout+t.stderr: return f'{name}: BUILD {t.stdout[-600:]}{t.stderr[-600:]}'
    out=[]
    for pr in prop.split(','):
        c=subprocess.run(['python3',f'{d}/verif/check.py',pr],capture_output=True,text=True,errors='replace',env=env)
        out.append(f"{pr}:{'CAUGHT' if c.returncode==1 else 'MISSED' if c.returncode==0 else 'RC%d'%c.returncode}")
        open(f'{S}/{name}.log','w').write(c.stdout+c.stderr)
    sh(f'git -C {R} checkout -q -- .')
    return f'{name}: {up} {" ".join(out)}'
sys.path.insert(0,'/verif')
import check
os.makedirs(S+'/mod',exist_ok=True); check.prepare(S+'/mod'); MODF=S+'/mod/go.mod'
ns={}; exec(open(sys.argv[1]).read(),ns)
M=[m for m in ns['M'] if len(sys.argv)<3 or any(x in m[0] for x in sys.argv[2:])]
q=queue.Queue(); [q.put(m) for m in M]
def w(i):
    d=setup(i)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        try: r=run(d,m)
        except Exception as e: r=f'{m[0]}: EXC {e!r}'
        print(r,flush=True)
ts=[threading.Thread(target=w,args=(i,)) for i in range(min(N,len(M)))]
[t.start() for t in ts]; [t.join() for t in ts]
