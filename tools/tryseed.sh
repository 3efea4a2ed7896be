#!/bin/bash
# tryseed.sh ID [notest]: apply a planted bug to /repo, and see whether it builds, passes the stable
# tests, fails its demonstration, and is caught by the check of its property. Then undo it.
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "/repo is not clean"; exit 2; }
bash "$S/demo.sh" > /tmp/demo.clean 2>&1; echo "demo clean: $?"
git apply "$S/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/build.log 2>&1; echo "build: $?"
if [ -z "$2" ]; then
  bash /opt/vp/test.sh /tmp/out.json > /dev/null 2>&1; python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/out.json'))
p=o.get('passed') or o.get('pass') or []
m=[x for x in b if x not in set(p)]
print('tests missing:', len(m), m[:5])
Q
fi
bash "$S/demo.sh" > /tmp/demo.bug 2>&1; echo "demo patched: $? (want nonzero)"; tail -4 /tmp/demo.bug | cut -c1-300
cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick ./check $P quick > /tmp/check.log 2>&1; echo "check $P: $? in $(( $(date +%s) - s ))s"; grep VIOLATION /tmp/check.log | head -3 | cut -c1-300
