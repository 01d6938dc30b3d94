#!/bin/bash
# plant.sh ID [--nocheck]: verify a planted bug: applies, builds, passes the stable tests, demo tells
# the two trees apart, and (unless --nocheck) whether the check of its property catches it.
V=$(cd "$(dirname "$0")/.." && pwd)
b=$V/seeded/$1
p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$b/meta.json")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
undo() { git -C /repo checkout -- .; }
if [ "$2" != --nodemo0 ]; then
grep -q target/debug "$b/demo.sh" && bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1
(cd /repo && timeout 300 bash "$b/demo.sh") >/tmp/plant-demo0.log 2>&1 && echo "demo on unchanged tree: 0" || { echo "DEMO FAILS ON THE UNCHANGED TREE"; tail -20 /tmp/plant-demo0.log; }
fi
git -C /repo apply "$b/patch.diff" || { echo "DOES NOT APPLY"; exit 1; }
trap undo EXIT
bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1 || { echo "DOES NOT BUILD"; tail -30 /tmp/plant-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/plant-test.json 2>&1 | tail -1
python3 - <<'P'
import json
print("failed:", json.load(open('/tmp/plant-test.json'))['failed'])
P
(cd /repo && timeout 300 bash "$b/demo.sh") >/tmp/plant-demo1.log 2>&1 && echo "DEMO DOES NOT SHOW THE BUG" || { echo "demo with patch: fails"; tail -3 /tmp/plant-demo1.log; }
[ "$2" = --nocheck ] && exit
mkdir -p /tmp/plant-ev; cp -a "$V/evidence/." /tmp/plant-ev/
(cd $V && time timeout 900 bash check.sh $p) >/tmp/plant-check.log 2>&1
r=$?
cp -a /tmp/plant-ev/. "$V/evidence/"
tail -12 /tmp/plant-check.log | cut -c1-400
[ $r = 1 ] && grep -q "^VIOLATION property=$p " /tmp/plant-check.log && echo "CAUGHT $1" || echo "MISSED $1 (exit $r)"
