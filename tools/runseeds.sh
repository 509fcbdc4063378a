#!/bin/bash
# usage: runseeds.sh [id...]: apply each seeded bug to /repo, run its property's quick check, undo; prints caught/missed
cd /verif
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 1; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$out" | grep "^VIOLATION" | tail -1)
  echo "$d rc=$rc $(( $(date +%s)-s ))s ${v:-MISSED}" 
done
