#!/bin/bash
# seedrun.sh [-t SECS] ID...: apply each planted bug to /repo, run its property's quick check, undo.
if [ "$1" = -t ]; then export SIM_SECS=$2; shift 2; fi
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check $p quick) >/tmp/seedrun.$id.log 2>&1; r=$?
  git -C /repo checkout -- .
  v=MISSED; [ $r = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seedrun.$id.log && v=CAUGHT
  echo "$v $id $p rc=$r $(( $(date +%s) - s ))s: $(grep -m1 '^violation class' /tmp/seedrun.$id.log | cut -c1-200)"
done
