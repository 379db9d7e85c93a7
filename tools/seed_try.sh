#!/bin/bash
# seed_try.sh ID : confirm a planted bug in a scratch copy: applies, builds, stable tests pass, demo ok without / fails with.
ID=$1; D=/verif/seeded/$ID; S=/tmp/seedtry.$ID
rm -rf "$S"; mkdir -p $S; cp -a /repo/. $S/repo
cd $S/repo && git checkout -q -- . && git apply $D/patch.diff || { echo "APPLY FAIL"; rm -rf "$S"; exit 1; }
git diff --stat | cat
mkdir -p $S/demo; cp $D/* $S/demo/; rm -f $S/demo/patch.diff $S/demo/meta.json
if [ -z "$SKIP_TESTS" ]; then
cat > $S/t.sh <<X
set -e
export CARGO_TARGET_DIR=$S/target CARGO_NET_OFFLINE=true CARGO_HOME=/root/.cargo
X
# run the stable tests in place: swap the patched files into /repo under a lock, then restore
(
 flock 9
 cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
 git apply $D/patch.diff && bash /opt/vp/build.sh >$S/build.log 2>&1 && bash /opt/vp/test.sh $S/t.json >$S/test.log 2>&1
 python3 /verif/tools/baseline_cmp.py $S/t.json || { sleep 1; bash /opt/vp/test.sh $S/t.json >$S/test.log 2>&1; python3 /verif/tools/baseline_cmp.py $S/t.json; }
 (cd /repo && timeout 300 bash $S/demo/demo.sh >$S/demo_with.log 2>&1); echo "demo with patch: $?"; tail -3 $S/demo_with.log
 git -C /repo checkout -q -- .
 bash /opt/vp/build.sh >$S/build.log 2>&1
 (cd /repo && timeout 300 bash $S/demo/demo.sh >$S/demo_wo.log 2>&1); echo "demo without patch: $?"; tail -3 $S/demo_wo.log
) 9>/tmp/seedtry.lock
fi
rm -rf "/tmp/seedtry.$ID"
