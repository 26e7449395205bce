#!/bin/bash
# applies each planted change to /repo, runs the check of its property, and undoes it
cd /verif
for d in ${@:-seeded/*/}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id: rc=$rc $((e-s))s $(echo "$out" | grep -E 'VIOLATION' | head -3 | cut -c1-200)"
  echo "$out" > /tmp/sd/out-$id.txt
done
