#!/bin/bash
# seedcheck.sh [ID...]: does the property's quick check report each planted bug?
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$(date +%s)
  python3 check.py $p quick > /tmp/seedcheck.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E 'VIOLATION|PROBLEM' /tmp/seedcheck.out)"
  mkdir -p work/seedlogs; cp /tmp/seedcheck.out work/seedlogs/$i
done
