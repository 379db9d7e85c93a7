#!/bin/bash
# seedcheck.sh ID... : run the property's check against each planted bug.
for i in "$@"; do echo "## $i"; /verif/tools/with_patch.sh /verif/seeded/$i/patch.diff ${P:-${i%%-*}} 2>&1 | tail -${N:-4}; done; /verif/build.sh
