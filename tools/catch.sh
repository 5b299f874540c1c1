#!/bin/bash
# developer tool: runs the property's quick check against each planted bug in turn (in /repo, undone straight afterwards)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAILED"; continue; }
  t=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $p > /tmp/catch.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-t ))s $(grep -m1 VIOLATION /tmp/catch.log) $(grep -m1 -i 'fail\|what' /tmp/catch.log | cut -c1-160)"
done
