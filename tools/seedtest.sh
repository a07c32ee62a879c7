#!/bin/bash
# seedtest.sh [ID...]: applies each planted bug to /repo, runs the quick check of its property and reverts it
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t0=$(date +%s)
  timeout 900 ./check ${CHECK:-$p} quick > /tmp/seedtest.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id ${CHECK:-$p} rc=$rc $(grep -c ^VIOLATION /tmp/seedtest.$id.log) $(( $(date +%s)-t0 ))s"
done
git -C /repo status --short
