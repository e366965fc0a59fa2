#!/bin/bash
# trybug.sh ID... : confirm a planted bug (build, tests, demo) and run the check of its property.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  bash $d/demo.sh >/dev/null 2>&1 || echo "$id: demo fails on the unchanged tree"
  if ! git apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  bash /opt/vp/build.sh >/tmp/trybug.log 2>&1 || echo "$id: does not build: $(tail -3 /tmp/trybug.log)"
  bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/trybug.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set()
miss=names(b)-names(r)
if miss or not names(r): print('$id: tests fail', list(miss)[:4], list(b)[:5], list(r)[:5])
P
  bash $d/demo.sh >/dev/null 2>&1 && echo "$id: demo passes with the patch"
  out=$(cd $here && timeout 900 ./gover.sh check $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ')"
  git checkout -q -- .
done
