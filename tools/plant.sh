#!/bin/bash
# tools/plant.sh ID [check ids...]: confirms the planted bug seeded/ID (demo passes on the unchanged tree, fails with the patch,
# the stable tests pass) and runs the given checks (default: the property of meta.json) against it.
id=$1; shift
d=/verif/seeded/$id
cp /verif/demo/vm.rs $d/vm.rs; cp /verif/demo/run.sh $d/demo.sh
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
cd /repo
if [ -z "$SKIP_CLEAN" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD fails on clean"
bash $d/demo.sh >/tmp/plant.log 2>&1 && echo "demo ok on clean tree" || { echo "DEMO FAILS ON CLEAN TREE"; tail -30 /tmp/plant.log; exit 1; }
fi
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "BUILD FAILS"; grep -A6 "^error" /tmp/plant.log|head -40; }
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.json'))
b=b['stable']
miss=[t for t in b if t not in o['passed']]
print('stable tests pass' if not miss else 'TESTS FAIL: %s'%miss)
PY
bash $d/demo.sh >/tmp/plant.log 2>&1; rc=$?
[ $rc != 0 ] && echo "demo fails with patch ($rc): $(grep -m2 -E 'panicked|assert|left|right|error(\[|:)' /tmp/plant.log | tr '\n' ' ')" || echo "DEMO PASSES WITH PATCH"
grep -E -A8 "^error" /tmp/plant.log | head -30
for c in ${@:-$prop}; do python3 /verif/check.py $c >/tmp/plant.$c 2>&1; r=$?; echo "check $c: exit $r"; grep -v "^VIOL" /tmp/plant.$c | cut -c1-400 | head -8; done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
