#!/bin/sh
# check.sh ID : rebuild from /repo's current tree, then search. Exit 0 held, 1 violation, 2 no answer.
cd /verif || exit 2
./build.sh || { echo "build failed"; exit 2; }
exec ./target/debug/xisim check "$1"
