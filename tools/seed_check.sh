#!/bin/bash
# seed_check.sh <seeded id> [check ids]: run the quick checks (default: the one of its property) with the planted bug applied to /repo, and undo it
id=$1; shift; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
trap 'git -C /repo checkout -- . ' EXIT
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
for c in ${*:-$P}; do
  r=$(cd /verif && VERIF_SEED=1 bash check.sh $c quick 2>&1); rc=$?
  echo "$id $c: rc=$rc $(echo "$r" | grep -m1 VIOLATION)"
done
