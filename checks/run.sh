#!/bin/bash
# run.sh <property> <harness> [tier]: builds the harness from /repo's working tree and runs it for the property
property=$1 harness=$2 tier=${3:-${VERIF_TIER:-quick}}
cd "$(dirname "$0")/.." || exit 2
verif=$PWD
mkdir -p .build evidence .build/replay
log=.build/build-$property.log
if ! { python3 build/gen.py && ninja -C .build "$harness"; } > "$log" 2>&1; then
   grep -E "error|FAILED" "$log" | head -20
   echo "build of $harness failed, see $verif/$log"
   exit 3
fi
exec .build/check/"$harness" "$property" --tier "$tier" --evidence "$verif/evidence/$property.json" \
   --replay-dir "$verif/.build/replay" --known "$verif/known-findings.txt"
