#!/bin/bash
# development: try.sh [seeded ids] — applies each planted bug to /repo, runs the check of its property, undoes it
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  t=$(date +%s)
  VERIF_SEED=1 timeout 900 python3 check.py $p quick > /tmp/w/try-$b.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - t )) s  $(grep -c ^VIOLATION /tmp/w/try-$b.log) violations, $(grep -c ^PROBLEM /tmp/w/try-$b.log) problems"
done
