#!/bin/bash
# seedrun.sh ID... : applies each planted bug to /repo, runs its property's check, undoes it
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  timeout 900 python3 check.py $p --tier quick > /tmp/seedrun.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(grep -m1 violated: /tmp/seedrun.out | cut -c1-150)"
done
