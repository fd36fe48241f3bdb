#!/bin/bash
# try_bug.sh ID [TIER]: in a private copy of /repo (bind-mounted over /repo in a mount namespace of its own), build, test, run the demo with and
# without the change, and run the property's check against the change. Needs the privilege to mount; prints one line per step.
ID=$1; TIER=${2:-quick}; S=$(readlink -f "$(dirname "$0")/../seeded/$ID"); V=$(readlink -f "$(dirname "$0")/..")
W=/tmp/trybug.$ID; rm -rf "/tmp/trybug.$ID"; mkdir -p $W; cp -a /repo $W/repo
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export W S V P ID TIER
unshare -m bash -c '
mount --make-rprivate /; mount --bind $W/repo /repo; cd /repo
cp -r $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo "$ID demo unchanged: $? (want 0)"
git apply $S/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$ID BUILD FAILS"; tail -20 $W/build.log; exit 1; }
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 - <<P
import json,os
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open(os.environ["W"]+"/t.json"))
st=b.get("stable") or b.get("passed") or b
miss=[x for x in st if x not in set(t["passed"])]
print(os.environ["ID"],"tests:", "OK" if not miss else "FAIL %s"%miss[:5])
P
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo "$ID demo patched: $? (want nonzero)"
export VERIF_BUILD=$W/build; cd $V
s=$(date +%s); timeout 900 python3 run.py check $P --tier $TIER > $W/check.log 2>&1; r=$?; echo "$ID check $P: exit $r (want 1) $(( $(date +%s)-s ))s: $(grep -m1 VIOLATION $W/check.log)"
'
[ -n "$KEEP" ] || rm -rf "/tmp/trybug.$ID"
