#!/bin/bash
# apply each planted bug to /repo, run the check of its property, undo
cd /verif; [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s); python3 checks/run.py $p > /tmp/rs_$d.txt 2>&1; rc=$?; e=$(( $(date +%s) - s ))
  git -C /repo checkout -- .
  echo "$d $p rc=$rc ${e}s $(grep -h VIOLATION /tmp/rs_$d.txt | head -2 | cut -c1-200 | tr '\n' ' ')"
done
