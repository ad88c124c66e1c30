#!/bin/bash
# seedrun.sh [ids...]: apply each planted bug to /repo, run its property's check, undo
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(echo "$out" | grep -c '^failed obligation') failed obligations; $(echo "$out" | grep -c '^case') failing cases; $(echo "$out" | grep VIOLATION)"
done
