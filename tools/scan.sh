#!/bin/bash
# scan.sh ID FROM TO: runs seeds one by one (8 at a time), prints those that fail.
id=$1; seq $2 $3 | xargs -P 8 -I{} sh -c "timeout 100 /verif/target/debug/xisim one $id {} 2>&1 | grep -a -v 'verdict None' | grep -a verdict | cut -c1-${W:-330}"
