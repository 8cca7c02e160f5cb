#!/bin/bash
# Runs the checks against the planted bugs: tools/seeded.sh [id...]   (restores /repo afterwards)
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d DOES NOT APPLY"; continue; }
  for q in ${PROPS:-$p}; do
    t=$(date +%s); timeout 900 python3 check.py $q > /tmp/seeded.out 2>&1; rc=$?
    echo "$d $q rc=$rc $(( $(date +%s) - t ))s $(grep -c VIOLATION /tmp/seeded.out) $(grep -m1 ' at ' /tmp/seeded.out | cut -c1-200) $(grep -m1 undecided: /tmp/seeded.out | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
