#!/bin/bash
# runbugs.sh [id...]: applies each planted bug to /repo, runs the check of its property, undoes it.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b APPLY-FAIL"; continue; }
  s=$(date +%s); timeout 900 python3 check.py $p > /tmp/rb.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(grep VIOLATION /tmp/rb.log | head -3 | tr '\n' ' ')"
done
