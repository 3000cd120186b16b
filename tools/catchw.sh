#!/bin/bash
# tools/catchw.sh ID...: run the quick check of each planted bug's property on a scratch copy of /repo
cd "$(dirname "$0")/.."
for id in "$@"; do
  w=$(mktemp -d /tmp/cw_XXXXXX); cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || echo "$id: does not apply"
  s=$(date +%s); out=$(PYTHONPATH="$w/repo/src" timeout 900 ./check.py $p --tier quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | grep -m1 '^  ' | cut -c1-150)"
  rm -rf "$w"
done
