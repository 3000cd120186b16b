#!/bin/bash
# tools/refix.sh COMMIT PROPERTY: undo a fix commit in /repo's working tree, run the check, restore
cd "$(dirname "$0")/.."
git -C /repo diff "$1" "$1~1" | git -C /repo apply --3way - >/dev/null 2>&1 || { echo "$1: cannot be undone alone"; git -C /repo reset -q --hard; exit; }
git -C /repo reset -q
s=$(date +%s); out=$(timeout 900 ./check.py $2 --tier quick 2>&1); rc=$?
git -C /repo checkout -- .
echo "$1 $2 rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | grep -m1 '^  ' | cut -c1-150)"
