#!/bin/bash
# catch.sh ID...: apply a planted change to /repo, run the check of its property, undo it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
  git -C /repo apply $V/seeded/$id/patch.diff || continue
  s=$(date +%s); (cd $V && python3 run_check.py $p >/tmp/catch.$id.out 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/catch.$id.out)"
done
