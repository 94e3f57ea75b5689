#!/bin/bash
# hit.sh [ID...]: applies each planted bug to /repo, runs the check of its property, and undoes it
cd /verif/seeded || exit 2
for id in ${@:-*}; do
  prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s)
  out=$(/verif/run.sh $prop 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc -eq 1 ] && echo "$out" | grep -q "^VIOLATION property=$prop "; then
    echo "$id caught $(( $(date +%s) - s ))s: $(echo "$out" | grep -A1 '^VIOLATION' | sed -n 2p | cut -c1-150)"
  else
    echo "$id MISSED rc=$rc: $(echo "$out" | tail -1 | cut -c1-200)"
  fi
done
