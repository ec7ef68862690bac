#!/bin/bash
# all.sh [ids]: run the quick checks, one line each
cd /verif
for i in ${@:-$(python3 -c "import sys;sys.path.insert(0,'tools');import plan;print(*sorted(plan.PLAN))")}; do
  python3 check.py $i > /tmp/all.out 2>&1; rc=$?
  echo "rc=$rc $(grep "^$i:" /tmp/all.out) $(grep -c VIOLATION /tmp/all.out) $(grep '^note' /tmp/all.out | head -2 | cut -c1-200 | tr '\n' ' ')"
done
