#!/bin/bash
# mkseed.sh ID: the bug is applied (uncommitted) in the scratch worktree /tmp/w/bug (a cp -a of /repo); /tmp/w/sd holds demo files.
# Confirms: builds, stable tests pass, demo fails with / passes without; then stores /verif/seeded/ID.
set -u
id=$1
# build.sh and test.sh work on /repo, so the patch is applied there for the duration and undone
cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
P=/tmp/w/$id.diff
[ -s $P ] || { echo "no $P"; exit 1; }
git apply --check $P || exit 1
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1; }
trap undo EXIT
bash /opt/vp/build.sh > /tmp/w/b0.log 2>&1
bash /tmp/w/sd-$id/demo.sh > /tmp/w/d0.log 2>&1; r0=$?
git apply $P
bash /opt/vp/build.sh > /tmp/w/b1.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/w/b1.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/t1.json > /tmp/w/t1.log 2>&1
python3 - <<'Q' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/w/t1.json'))['passed'])
m=b-t
print("stable tests lost:", sorted(m)[:5])
sys.exit(1 if m else 0)
Q
bash /tmp/w/sd-$id/demo.sh > /tmp/w/d1.log 2>&1; r1=$?
echo "demo unpatched=$r0 patched=$r1"; tail -3 /tmp/w/d1.log
[ $r0 = 0 ] && [ $r1 != 0 ] || { tail -3 /tmp/w/d0.log; exit 1; }
mkdir -p /verif/seeded/$id && cp $P /verif/seeded/$id/patch.diff && cp -r /tmp/w/sd-$id/. /verif/seeded/$id/ && echo kept $id
