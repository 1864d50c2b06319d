#!/bin/bash
# tryseeds.sh [ID...]: run the check of each planted bug's property against it
cd /verif/seeded
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t0=$(date +%s)
  VERIF_TIER=quick VERIF_SEED=1 bash /verif/check.sh $p > /tmp/tryseed.one 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(grep VIOLATION /tmp/tryseed.one | head -1)"
done
