#!/bin/bash
# seedrun.sh ID...: applies each planted bug to /repo, runs the check of its property, and undoes it
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} ./check $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ($p): rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
