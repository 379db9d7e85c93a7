#!/bin/bash
# with_patch.sh PATCHFILE|-R:COMMIT  CHECK... : apply to /repo, run checks, undo.
P=$1; shift
cd /repo || exit 3
git diff --quiet || { echo "repo dirty"; exit 3; }
case $P in
 -R:*) git show ${P#-R:} | git apply -R --3way 2>/dev/null || git show ${P#-R:} | git apply -R || { git checkout -q -- .; git reset -q --hard; exit 3; } ; git reset -q;;
 *) git apply "$P" || exit 3;;
esac
cd /verif && ./build.sh
for c in "$@"; do timeout 900 target/debug/xisim check $c 2>&1 | cut -c1-260 | tail -6; done
git -C /repo checkout -q -- .
git -C /repo status --short | head -3
