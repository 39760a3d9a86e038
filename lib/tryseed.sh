#!/bin/bash
# tryseed.sh ID... : applies each planted bug to /repo, runs its property's quick check, undoes it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 timeout 890 python3 /verif/check.py $p quick > /tmp/tryseed.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c "^VIOLATION property=$p" /tmp/tryseed.out)"
done
