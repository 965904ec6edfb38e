#!/bin/bash
# tools/seed.sh ID [check]: validates seeded/ID in a private copy of /repo bind-mounted over /repo (user namespace); with "check" also
# runs the property's quick check on the patched tree
ID=$1; MODE=$2
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/w.$ID
cp -a /repo "$W"
export V W ID MODE
unshare -Urm bash -c '
mount --bind $W /repo
cd /repo && git checkout -q -- . && git status --short | head -3
cp -r $V/seeded/$ID /tmp/seeddemo.$ID
D=/tmp/seeddemo.$ID
if [ "$MODE" != onlycheck ]; then
bash /opt/vp/build.sh >/tmp/seed.$ID.log 2>&1 || { echo BUILD-CLEAN-FAILED; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/seed.$ID.demo0 2>&1; echo "demo on clean tree: $? (want 0)"
fi
git apply $V/seeded/$ID/patch.diff || { echo PATCH-DOES-NOT-APPLY; exit 1; }
if [ "$MODE" != onlycheck ]; then
bash /opt/vp/test.sh /tmp/seed.$ID.json >/tmp/seed.$ID.log 2>&1
python3 - <<PY
import json
d=json.load(open("/tmp/seed.$ID.json")); b=json.load(open("/opt/vp/BASELINE.json"))
print("stable tests broken:",[t for t in b["stable"] if t not in d["passed"]])
PY
timeout 300 bash $D/demo.sh >/tmp/seed.$ID.demo1 2>&1; echo "demo on patched tree: $? (want nonzero)"
fi
if [ -n "$MODE" ]; then
P=$(python3 -c "import json;print(json.load(open(\"$V/seeded/$ID/meta.json\"))[\"property\"])")
cd $V && python3-vt -m cdv.check $P --tier quick --no-evidence > /tmp/seed.$ID.check 2>&1; echo "check exit: $?"; grep -a "VIOLATION\|failed:\|^$P" /tmp/seed.$ID.check | head -8
fi
'
rm -rf "/tmp/w.$ID" "/tmp/seeddemo.$ID"
