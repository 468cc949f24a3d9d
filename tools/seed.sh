#!/bin/bash
# seed.sh ID...: confirm planted changes in a scratch copy: patch applies, builds, stable tests pass, demo 0 without / nonzero with it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id; ok=1
  cd /repo && git diff --quiet || { echo "/repo dirty"; exit 2; }
  bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.out 2>&1) || { echo "$id: demo fails on the unchanged tree"; ok=0; tail -5 /tmp/seed.out; }
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed.out 2>&1; then
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    python3 - <<PY || ok=0
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
want=set(b.get('stable') or b.get('passed') or b.get('pass') or b.get('tests') or [])
got=set(o.get('passed') or o.get('pass') or [])
m=want-got
if not want or m: print('$id: tests fail', m or b.keys()); raise SystemExit(1)
PY
    (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.out 2>&1) && { echo "$id: demo passes with the patch"; ok=0; }
  else echo "$id: does not build"; ok=0; fi
  git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
  [ $ok = 1 ] && echo "$id ok"
done
