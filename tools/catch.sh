#!/bin/bash
# tools/catch.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 ./check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | grep -m1 '^  ' | cut -c1-150)"
done
