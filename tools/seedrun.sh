#!/bin/bash
# seedrun.sh [id ...]: apply each planted change to /repo, run its property's check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  out=$(timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep -B1 ^VIOLATION | head -1 | cut -c1-150)"
done
