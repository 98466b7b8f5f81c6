#!/bin/bash
# tools/nsseeded.sh ID ...: like seeded.sh, but on a scratch copy of /repo laid over /repo in a mount namespace of its own, so that /repo itself stays as it is.
cd /verif
for id in "$@"; do
  d=$(mktemp -d /tmp/ns.XXXXXX); cp -a /repo $d/repo
  git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf "$d"; continue; }
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    unshare -m bash -c "mount --bind $d/repo /repo && cd /verif && MC_MAXV=${MC_MAXV:-3} ./check $c" > /tmp/seeded.$id.$c.out 2>&1; rc=$?
    echo "$id property=$p check=$c rc=$rc $(grep -c '^VIOLATION' /tmp/seeded.$id.$c.out) $(( $(date +%s) - s ))s $(grep -A1 '^  case' /tmp/seeded.$id.$c.out | sed -n 1,2p | tr '\n' ' ' | cut -c1-180)"
  done
  rm -rf "$d"
done
