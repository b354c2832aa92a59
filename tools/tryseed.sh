#!/bin/bash
# tryseed.sh id...: apply each planted change to /repo, run its property's quick check, undo
here="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(cd "$here" && timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"; [ $rc -ne 1 ] && echo "$out" | tail -5
done
