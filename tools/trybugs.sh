#!/bin/bash
# dev helper: trybugs.sh [ID...]: apply each planted bug to /tmp/w-check (copy of /repo) and run the check of its property on it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(timeout 900 python3 check.py ${CHECK:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d rc=$rc $(echo "$out" | grep -c INCONC) inconclusive; $(echo "$out" | grep -m1 -A0 '^  ' | cut -c1-200)"
done
