#!/usr/bin/env python3
"""run.py SPEC.py [NAME...]: applies bugs to scratch copies of /repo; prints whether the tests kill them and what the checks say."""
import os,shutil,subprocess,sys
g={}; exec(open(sys.argv[1]).read(),g)
names=sys.argv[2:] or list(g['R'])
d=os.environ.get('RW','/tmp/bw'); shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/verif')
for x in ('replay','known-findings.txt','root.extra.sum'): subprocess.run(['cp','-a','/verif/'+x,d+'/verif/'])
env=dict(os.environ,HOME='/root',GOROOT='/opt/veriftools/go1.27.3',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOPATH='/root/go',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOSUMDB='off')
env.pop('GOFLAGS',None)
for n in names:
    prop,edits=g['R'][n]
    shutil.rmtree(d+'/repo',ignore_errors=True); subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    subprocess.run(f"cp {d}/repo/go.mod {d}/root.mod; cat {d}/repo/go.sum /opt/vp/mods/root.extra.sum | sort -u > {d}/root.sum; go mod edit -require=github.com/golang/protobuf@v1.5.4 {d}/root.mod",shell=True,env=env,check=True)
    bad=None
    for f,a,b in edits:
        p=d+'/repo/'+f; s=open(p).read()
        if s.count(a)!=1: bad=f'{s.count(a)} matches of {a[:60]!r}'; break
        open(p,'w').write(s.replace(a,b))
    if bad is None:
        r=subprocess.run('go build ./... 2>&1 && go test -vet=off -count=1 -timeout 60s $(go list ./... | grep -vx github.com/renthraysk/xtorm)',shell=True,cwd=d+'/repo',env=dict(env,GOFLAGS=f'-mod=mod -modfile={d}/root.mod'),capture_output=True,text=True)
        if r.returncode: bad=(r.stdout+r.stderr)[-400:]
    if bad: print(n,'NOT A BUG:',bad,flush=True); continue
    c=subprocess.run([os.environ.get('GOVC','/tmp/govc'),'-repo',d+'/repo','-verif',d+'/verif','check',prop],capture_output=True,text=True,env=env,timeout=900)
    o=c.stdout+c.stderr
    v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
    k='MISSED' if c.returncode==0 else 'nfi   ' if v and 'no-failing' in v[0] else 'caught' if v else 'ERROR '
    print(f'{k} {prop} {n}', '' if k=='caught' else o[-700:],flush=True)
