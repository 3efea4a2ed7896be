import json, os, subprocess, sys, shutil
REPO=os.environ.get('SEED_REPO','/repo')
def seed(id, prop, edits, pkg, demo, needs, breaks, sh=None):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    assert subprocess.run('git -C %s diff --quiet'%REPO,shell=True).returncode==0
    for f,a,b in edits:
        p=REPO+'/'+f; s=open(p).read(); assert s.count(a)==1,(f,a,s.count(a)); open(p,'w').write(s.replace(a,b))
    diff=subprocess.run('git -C %s diff'%REPO,shell=True,capture_output=True,text=True).stdout
    subprocess.run('git -C %s checkout -q -- .'%REPO,shell=True)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    if sh is None:
        open(d+'/demo_test.go.txt','w').write(demo)
        sh='''#!/bin/bash
# Exits 0 when the behaviour is right. Run in the root of the repository.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$D/demo_test.go.txt" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -run '^TestZZDemo$' ./%s
''' % (pkg,pkg)
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
