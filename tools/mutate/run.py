#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl [MAX] [WORKERS]: builds and tests each mutant in a scratch copy of /repo and runs the
checks that concern its file until one catches it."""
import json,os,random,shutil,subprocess,sys,threading,queue,hashlib
MUT,OUT=sys.argv[1:3]
MAX=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
W=int(sys.argv[4]) if len(sys.argv)>4 else 3
MAP=[('xproto/any.go','C01 C03 C02 C04 C22 C07 C15 C24'),('xproto/expr.go','C02 C05 C03 C06 C09 C08'),('xproto/scalar','C01 C02 C03 C24'),('xproto/protobuf','C01 C02 C03 C24 C07 C08 C09 C12'),
('xproto/authentication','C24 C18'),('xproto/expect','C12 C11 C15'),('xproto/insert','C08 C15'),('xproto/prepare','C07'),('xproto/update','C09'),('xproto/xproto','C07 C08 C09 C12 C24 C10 C15'),('xproto/','C07 C08 C09 C24'),
('slice/','C22 C01 C05'),('types/','C21 C01'),('collation/','C23'),('netx/connection/','C16 C17 C19'),('netx/connector/authentication','C18'),('netx/connector','C19'),('netx/pool','C20'),
('expr.go','C06 C05 C03'),('crud.go','C08 C09 C10 C13 C11 C12 C14 C15'),('builder.go','C07 C08 C09 C10 C11 C12 C13 C14 C15'),('xpipe.go','C10 C13 C14')]
def props(f):
    r=f[len('/repo/'):]
    for p,l in MAP:
        if r.startswith(p): return l.split()
    return []
muts=[json.loads(l) for l in open(MUT)]
random.Random(int(os.environ.get('SEED','7'))).shuffle(muts)
done=set()
if os.path.exists(OUT):
    done={json.loads(l)['key'] for l in open(OUT)}
def key(m): return hashlib.sha1(json.dumps(m,sort_keys=True).encode()).hexdigest()[:12]
q=queue.Queue()
n=0
for m in muts:
    if n>=MAX: break
    n+=1
    if key(m) not in done: q.put(m)
lock=threading.Lock()
out=open(OUT,'a')
BASE=os.environ.get('MW','/tmp/mw')
def work(i):
    d=f'{BASE}/{i}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    os.makedirs(d+'/verif'); 
    for x in ('replay','known-findings.txt','root.extra.sum'):
        if os.path.exists('/verif/'+x): subprocess.run(['cp','-a','/verif/'+x,d+'/verif/'])
    shutil.copy('/tmp/govc',d+'/govc')
    env=dict(os.environ,HOME='/root',GOROOT='/opt/veriftools/go1.27.3',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOPATH='/root/go',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off')
    env.pop('GOFLAGS',None)
    subprocess.run(f"cp {d}/repo/go.mod {d}/root.mod; cat {d}/repo/go.sum /opt/vp/mods/root.extra.sum | sort -u > {d}/root.sum; go mod edit -require=github.com/golang/protobuf@v1.5.4 {d}/root.mod",shell=True,env=env,check=True)
    tenv=dict(env,GOFLAGS=f'-mod=mod -modfile={d}/root.mod')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        f=d+m['File']
        orig=open(f,'rb').read()
        open(f,'wb').write(orig[:m['Start']]+m['New'].encode()+orig[m['End']:])
        r={'key':key(m),'what':m['What'],'func':m['Func'],'m':m}
        try:
            b=subprocess.run('go build ./... 2>&1 && go vet -stdmethods=false -composites=false . >/dev/null 2>&1; go build ./...',shell=True,cwd=d+'/repo',env=tenv,capture_output=True,text=True)
            if b.returncode: r['res']='nobuild'
            else:
                t=subprocess.run("go test -vet=off -count=1 -timeout 60s $(go list ./... | grep -vx github.com/renthraysk/xtorm)",shell=True,cwd=d+'/repo',env=tenv,capture_output=True,text=True)
                if t.returncode: r['res']='tests'
                else:
                    r['res']='SURVIVED'; r['ran']=[]
                    for p in props(m['File']):
                        c=subprocess.run([d+'/govc','-repo',d+'/repo','-verif',d+'/verif','check',p],capture_output=True,text=True,env=env,timeout=900)
                        if c.returncode!=0:
                            last=[l for l in c.stdout.splitlines() if 'VIOLATION' in l]
                            r['res']='caught' if last and 'no-failing' not in last[-1] else 'caught-nfi' if last else 'ERROR'
                            r['by']=p; r['out']=c.stdout[-700:]
                            break
        except Exception as e:
            r['res']='EXC'; r['out']=str(e)
        finally:
            open(f,'wb').write(orig)
        with lock:
            out.write(json.dumps(r)+'\n'); out.flush()
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
