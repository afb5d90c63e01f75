#!/bin/bash
# runseeds.sh [pattern] : apply each planted bug to /repo, run its property's check, undo
cd /verif
for d in seeded/*${1}*/; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply /verif/$d/patch.diff || { echo "$id $p PATCH DOES NOT APPLY"; continue; }
  t=$(date +%s)
  out=$(timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep -v '^VIOL\|^KNOWN' | head -1 | cut -c1-150)"
done
