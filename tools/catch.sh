#!/bin/bash
# run the check of the property of each planted bug (or all claimed checks with ALL=1) against the bug applied to /repo, then undo it
cd /verif
for id in "$@"; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ -n "$ALL" ] && p=$(ls props | grep -oP '^p\d\d(?=\.py)' | tr p P)
  for q in $p; do
    [ -f props/${q,,}.py ] || { echo "$id $q UNCLAIMED"; continue; }
    out=$(python3-vt check.py $q --tier quick 2>&1); rc=$?
    [ -n "$ALL" ] && [ $rc = 0 ] || echo "$id $q rc=$rc $(echo "$out" | grep -m1 -A1 VIOLATION | head -c 300)"
  done
  git -C /repo checkout -q -- .
done
