#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to a scratch copy of /repo and runs its property's quick check against it.
cd "$(dirname "$0")/.."; V=$(pwd)
for d in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  T=$(mktemp -d); git clone -q /repo $T/repo; git -C $T/repo apply $V/seeded/$d/patch.diff || echo "APPLY FAILED $d"
  s=$(date +%s)
  ZZ_REPO=$T/repo ZZ_BUILD=$T/build ZZ_EVIDENCE=$T/ev ZZ_REPLAYS=$T/rp VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 run.py check $prop --tier ${TIER:-quick} > $T/out 2>&1; rc=$?
  echo "$d $prop rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $T/out | cut -c1-150)"
  rm -rf "$T"
done
