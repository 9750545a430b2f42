#!/bin/bash
# mkseed.sh <id>: turn the current changes of the scratch clone /tmp/seed/repo into /verif/seeded/<id>/patch.diff
# after confirming that it builds, passes the stable tests and that demo.sh tells the trees apart.
set -u
id=$1; S=/verif/seeded/$id; R=/tmp/seed/repo
cd $R || exit 1
git diff > /tmp/seed/$id.diff
[ -s /tmp/seed/$id.diff ] || { [ -f $S/patch.diff ] && cp $S/patch.diff /tmp/seed/$id.diff && git apply /tmp/seed/$id.diff; }
git stash -q
bash /tmp/seed/b.sh > /tmp/seed/log 2>&1 || { echo base build failed; git stash pop -q; exit 1; }
timeout 300 bash $S/demo.sh > /tmp/seed/demo0 2>&1; r0=$?
git stash pop -q
bash /tmp/seed/b.sh > /tmp/seed/log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/seed/log; exit 1; }
timeout 300 bash $S/demo.sh > /tmp/seed/demo1 2>&1; r1=$?
echo "demo: base=$r0 patched=$r1"
[ $r0 = 0 ] || tail -20 /tmp/seed/demo0
[ $r1 != 0 ] && tail -3 /tmp/seed/demo1
if [ "${2:-}" != notest ]; then timeout 700 bash /tmp/seed/t.sh /tmp/seed/t.json > /tmp/seed/tlog 2>&1; tail -4 /tmp/seed/tlog; fi
cp /tmp/seed/$id.diff $S/patch.diff
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
VERIF_REPO=$R timeout 900 python3 /verif/check.py $p | tail -4
git checkout -q -- . 
