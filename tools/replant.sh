#!/bin/bash
# usage: tools/replant.sh [ids...]: applies each planted bug to /repo in turn, runs the check of its property, undoes it.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(python3 run.py $prop 2>&1); rc=$?
  git -C /repo checkout -q -- .
  [ $rc = 1 ] && echo "$d $prop caught" || echo "$d $prop MISSED rc=$rc"
done
