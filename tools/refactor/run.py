#!/usr/bin/env python3
"""run.py SPEC.py [NAME...]: applies behaviour-preserving edits to scratch copies of /repo and runs the checks, which
must stay quiet. A spec file defines R = {name: [(file, old, new), ...]}; old may be None to append new to the file."""
import json,os,shutil,subprocess,sys,threading,queue
W=int(os.environ.get('WORKERS','4'))
ALL=['C%02d'%i for i in range(1,25)]
X='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C24 C18'.split()
MAP=[('xproto/',X),('slice/',X+['C22']),('types/',['C21']),('collation/',['C23','C03']),('netx/connection/',['C16','C17','C19']),
('netx/connector/auth',['C18']),('netx/connector',['C19']),('netx/pool',['C20']),('expr.go',['C03','C06']),
('crud.go','C08 C09 C10 C13 C14'.split()),('builder.go','C07 C08 C09 C10 C11 C12 C13 C14 C15'.split()),('xpipe.go',['C13','C14'])]
def props(fs):
    out=[]
    for f in fs:
        for p,l in MAP:
            if f.startswith(p):
                out+=[x for x in l if x not in out]; break
    return out
g={}; exec(open(sys.argv[1]).read(),g)
names=sys.argv[2:] or list(g['R'])
q=queue.Queue()
for n in names: q.put(n)
lock=threading.Lock()
def work(i):
    d=f'{os.environ.get('RW','/tmp/rw')}/{i}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    os.makedirs(d+'/verif')
    for x in ('replay','known-findings.txt','root.extra.sum'):
        if os.path.exists('/verif/'+x): subprocess.run(['cp','-a','/verif/'+x,d+'/verif/'])
    shutil.copy(os.environ.get('GOVC','/tmp/govc'),d+'/govc')
    env=dict(os.environ,HOME='/root',GOROOT='/opt/veriftools/go1.27.3',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOPATH='/root/go',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOSUMDB='off')
    env.pop('GOFLAGS',None)
    while True:
        try: n=q.get_nowait()
        except queue.Empty: break
        shutil.rmtree(d+'/repo',ignore_errors=True)
        subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
        subprocess.run(f"cp {d}/repo/go.mod {d}/root.mod; cat {d}/repo/go.sum /opt/vp/mods/root.extra.sum | sort -u > {d}/root.sum; go mod edit -require=github.com/golang/protobuf@v1.5.4 {d}/root.mod",shell=True,env=env,check=True)
        tenv=dict(env,GOFLAGS=f'-mod=mod -modfile={d}/root.mod')
        bad=None
        for f,a,b in g['R'][n]:
            p=d+'/repo/'+f; s=open(p).read()
            if a is None: s=s+b
            elif callable(a): s=a(s)
            else:
                if s.count(a)!=1: bad=f'{f}: {s.count(a)} matches of {a[:60]!r}'; break
                s=s.replace(a,b)
            open(p,'w').write(s)
        lines=[]
        if bad is None:
            r=subprocess.run('go build ./... 2>&1 && go test -vet=off -count=1 -timeout 60s $(go list ./... | grep -vx github.com/renthraysk/xtorm)',shell=True,cwd=d+'/repo',env=tenv,capture_output=True,text=True)
            if r.returncode: bad=(r.stdout+r.stderr)[-600:]
        if bad: lines.append('BADSPEC '+bad)
        else:
            ok=[]
            for p in (g.get('ONLY',{}).get(n) or props([e[0] for e in g['R'][n]])):
                try:
                    c=subprocess.run([d+'/govc','-repo',d+'/repo','-verif',d+'/verif','check',p],capture_output=True,text=True,env=env,timeout=900)
                    if c.returncode: lines.append(f'ALARM {p} rc {c.returncode}: '+(c.stdout+c.stderr)[-900:])
                    else: ok.append(p)
                except subprocess.TimeoutExpired: lines.append(f'TIMEOUT {p}')
            lines.append('quiet: '+' '.join(ok))
        with lock:
            print('==',n); print('\n'.join('   '+l for l in lines)); sys.stdout.flush()
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
