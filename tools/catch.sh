#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  python3-vt vc/check.py $p quick > /tmp/catch.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "== $i ($p) rc=$r"; grep -E "VIOLATION|failed obl|failing input|bounded stand" /tmp/catch.out | cut -c1-260
done
