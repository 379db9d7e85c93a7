#!/bin/sh
# fixit.sh PROP "commit message" "what failed": formats, tests and commits a repair in /repo, and records it.
cd /repo && for f in $(git diff --name-only | grep '\.rs$'); do rustfmt --edition 2018 --check "$f" >/dev/null 2>&1 || echo "note: $f is not rustfmt-clean"; done
bash /opt/vp/build.sh >/tmp/fix_build.log 2>&1 || { tail -30 /tmp/fix_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/fix_test.log 2>&1
python3 /verif/tools/baseline_cmp.py /tmp/o.json | tee /tmp/fix_cmp.log
grep -q 'stable tests not passing: \[\]' /tmp/fix_cmp.log || exit 1
git commit -qam "fix: $2" && cd /verif && python3 tools/addfix.py "$1" HEAD "$3"
