#!/bin/bash
# tools/seeded.sh [ID ...]: apply each planted bug to /repo, run its property's check (CHECKS="P01 P02" for others), undo it, print what was caught.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); MC_MAXV=${MC_MAXV:-3} ./check $c > /tmp/seeded.$id.$c.out 2>&1; rc=$?
    echo "$id property=$p check=$c rc=$rc $(grep -c '^VIOLATION' /tmp/seeded.$id.$c.out) $(( $(date +%s) - s ))s $(grep -A1 '^  case' /tmp/seeded.$id.$c.out | sed -n 1,2p | tr '\n' ' ' | cut -c1-180)"
  done
  git -C /repo checkout -q -- .
done
