#!/bin/bash
# tools/sweep.sh "C01 C02" "1 2 3" [tier]: only what is not quiet
cd "$(dirname "$0")/.."
for p in $1; do n=0; bad=0; t0=$SECONDS
 for s in $2; do
  o=$(python3 check.py $p --seed $s --tier ${3:-quick} --evidence /tmp/sweep-ev 2>&1); rc=$?; n=$((n+1))
  if [ $rc != 0 ]; then bad=$((bad+1)); echo "$p seed $s rc $rc"; echo "$o" | grep -v KNOWN | head -4 | cut -c1-220; fi
 done; echo "$p: $n runs, $bad bad, $((SECONDS-t0))s"; done
