#!/bin/bash
# catch.sh [ID...]: runs the quick check of each planted bug's property with the bug applied to /repo, undone straight afterwards
cd /verif/seeded
for d in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(cd /verif && timeout 900 python3 vp.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations, $(echo "$out" | tail -1 | grep -o '[0-9.]* s$')"
  [ $rc = 1 ] || echo "$out" | tail -5
done
