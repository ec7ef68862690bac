#!/bin/bash
# catch.sh [ids]: run each planted bug's own check against it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  o=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -m1 -A1 VIOLATION | tr '\n' ' ' | cut -c1-200)"
done
