#!/bin/bash
# runs each seeded change's check on /repo with the change applied; usage: runseeds.sh [id ...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -E '^VIOLATION' | tail -1) | $(echo "$out" | grep -E 'FAILED|undecided' | cut -c1-150 | tr '\n' ' ')"
done
