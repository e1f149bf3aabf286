#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes and validates planted bugs in a scratch copy of /repo.
A spec file defines ID, PROP, PKG, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (a Go test file with TestDemo)."""
import sys,os,subprocess,shutil,json,tempfile
V='/verif'
SH='''#!/bin/bash
# exits 0 when the behaviour is right, nonzero with the planted change
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
S=$(mktemp -d) || exit 1
trap 'rm -rf "$S"' EXIT
R=$(pwd)
cp "$R/go.mod" "$S/root.mod"
cat "$R/go.sum" /opt/vp/mods/root.extra.sum | sort -u > "$S/root.sum"
go mod edit -require=github.com/golang/protobuf@v1.5.4 "$S/root.mod" || exit 1
export GOFLAGS="-mod=mod -modfile=$S/root.mod"
{
echo '{"Replace": {'
for f in "$R/%(PKG)s"/*_test.go; do [ -e "$f" ] && echo "\\"$f\\": \\"\\","; done
echo "\\"$R/%(PKG)s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}"
} > "$S/overlay.json"
timeout 250 go test -vet=off -overlay "$S/overlay.json" -run '^TestDemo$' -count=1 -timeout 200s ./%(PKG)s
'''
def run(c,cwd=None):
    p=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True); return p.returncode,p.stdout+p.stderr
for spec in sys.argv[1:]:
    g={}; exec(open(spec).read(),g)
    d=f"{V}/seeded/{g['ID']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    assert run('git status --porcelain',cwd='/repo')[1]=='' , 'repo dirty'
    open(d+'/demo_test.go','w').write(g['DEMO'].lstrip())
    open(d+'/demo.sh','w').write(SH%g); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":g['PROP'],"needs":g['NEEDS'],"what_it_breaks":g['BREAKS']},open(d+'/meta.json','w'),indent=1)
    ok=True
    rc,o=run('bash '+d+'/demo.sh',cwd='/repo')
    if rc!=0: print(g['ID'],'DEMO FAILS ON CLEAN',o[-1500:]); ok=False
    try:
        for f,a,b in g['EDITS']:
            s=open('/repo/'+f).read()
            assert s.count(a)==1,(g['ID'],f,s.count(a),a)
            open('/repo/'+f,'w').write(s.replace(a,b))
        rc,diff=run('git diff',cwd='/repo'); open(d+'/patch.diff','w').write(diff)
        rc,o=run('bash /opt/vp/build.sh')
        if rc: print(g['ID'],'DOES NOT BUILD',o[-800:]); ok=False
        rc,o=run('bash /opt/vp/test.sh /tmp/seed_t.json')
        if '144 passed, 0 failed' not in o: print(g['ID'],'TESTS',o[-400:]); ok=False
        rc,o=run('bash '+d+'/demo.sh',cwd='/repo')
        if rc==0: print(g['ID'],'DEMO PASSES WITH PATCH'); ok=False
        else: print('   demo:', [l for l in o.splitlines() if l.strip()][:3])
        rc,o=run('bash /verif/check.sh '+g['PROP'],cwd=V)
        vl=[l for l in o.splitlines() if 'VIOLATION' in l]
        print(g['ID'],g['PROP'],'ok' if ok else 'INVALID','check rc',rc,vl, [l for l in o.splitlines() if l.startswith('failing input')][:1])
    finally:
        run('git checkout -- .',cwd='/repo')
    if not ok: shutil.rmtree(d,ignore_errors=True)
