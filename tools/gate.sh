#!/bin/bash
# every claimed check on the current tree: quiet, and every proof group discharged
cd /verif; rc=0
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  out=$(python3 checks/run.py $p -v 2>&1); r=$?
  if [ $r != 0 ] || echo "$out" | grep -q '^UNDECIDED\|^undecided\|^fail'; then echo "== $p rc=$r"; echo "$out" | grep -v '^ok ' | head -20; rc=1; else echo "$out" | grep "^$p:"; fi
done; exit $rc
