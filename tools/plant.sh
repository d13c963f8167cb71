#!/bin/bash
# plant.sh ID...   confirm planted bugs: builds, tests pass, demo fails with / passes without,
# and say whether the property's check catches it.  Edits /repo's working tree, then restores it.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  if ! git apply "$d/patch.diff"; then echo "$id: DOES NOT APPLY"; continue; fi
  if ! bash /opt/vp/build.sh >/tmp/plant.build 2>&1; then echo "$id: BUILD FAILS"; tail -20 /tmp/plant.build; git checkout -q -- .; continue; fi
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
  lost=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def p(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set()
print(sorted(p(b)-p(r))[:5])
P
)
  t=$(mktemp -d /tmp/plantdemo.XXXX); cp "$d"/* $t/; rm -f $t/patch.diff $t/meta.json
  bash $t/demo.sh >/tmp/plant.demo1 2>&1; r1=$?
  (cd ${VC:-/verif} && timeout 900 ./check $prop >/tmp/plant.check 2>&1); c=$?
  v=$(grep -c "^VIOLATION property=$prop" /tmp/plant.check)
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $t/demo.sh >/tmp/plant.demo0 2>&1; r0=$?
  rm -r $t
  echo "$id: lost=$lost demo_with=$r1 demo_without=$r0 check_rc=$c violations=$v"
done
