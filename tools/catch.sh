#!/bin/bash
# catch.sh [id...]: apply each planted bug to /repo, run its property's quick check (or $ALL), undo.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  for q in ${CHECKS:-$p}; do
  s=$(date +%s); out=$(timeout 900 bash check.sh $q quick 2>/tmp/catch.err); rc=$?; e=$(date +%s)
  echo "$d $q rc=$rc $((e-s))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out"|grep -v '^VIOLATION' | tail -1 | cut -c1-160)"
  done
  git -C /repo checkout -q -- .
done
