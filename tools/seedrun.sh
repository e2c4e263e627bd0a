#!/bin/bash
# developer tool: seedrun.sh ID...  applies each planted bug to /repo, runs the check of its property, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo dirty; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s); timeout 900 python3-vt check.py $p > /tmp/seedrun.log 2>&1; rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(grep -a VIOLATION /tmp/seedrun.log | head -1) | $(tail -1 /tmp/seedrun.log | head -c 150)"
done
