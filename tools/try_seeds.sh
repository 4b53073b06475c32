#!/bin/sh
# apply each planted bug to /repo, run the check of its property, undo.   try_seeds.sh [ID ...]
cd /verif; [ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s DOES-NOT-APPLY"; continue; }
  out=$(python3-vt vcgen/run.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s rc=$rc $(echo "$out" | grep VIOLATION | head -3 | tr '\n' ' ')"
done
