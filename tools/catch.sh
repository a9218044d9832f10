#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run the quick check of its property, undo it
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/bin/check.py $prop > /tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E "VIOLATION property=$prop" /tmp/catch.out)"
done
