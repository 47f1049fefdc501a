#!/bin/bash
# refaccheck.sh DIFF PROP...: are the checks quiet on a behaviour-preserving edit?
cd /verif; d=$1; shift
git -C /repo apply "$d" || exit 3
for p in "$@"; do
  s=$(date +%s); python3 check.py $p quick > /tmp/refac.out 2>&1; rc=$?
  echo "$(basename $d) $p rc=$rc $(( $(date +%s) - s ))s $(grep -m2 -E 'VIOLATION|PROBLEM|not explored|unsupported' /tmp/refac.out | cut -c1-200 | tr '\n' '|')"
done
git -C /repo checkout -q -- .
