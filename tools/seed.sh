#!/bin/bash
# seed.sh ID PROP "needs" "what it breaks": makes /verif/seeded/ID from /repo's uncommitted diff and the demo source
# main.rs on stdin, checks demo and tests with and without it, runs the property's check, and reverts /repo.
ID=$1; PROP=$2; D=/verif/seeded/$ID; mkdir -p $D
git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no diff"; exit 1; }
cat > $D/main.rs
cp /verif/tools/demo.sh $D/demo.sh
if grep -q 'mod ttf' $D/main.rs; then cp /verif/h/common/ttf.rs $D/ttf.rs; fi
python3 - "$PROP" "$3" "$4" > $D/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
export VICTOR_DEMO_TARGET=/tmp/demo_target
cd /repo
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "$ID: DOES NOT BUILD"; tail -20 /tmp/seed_build.log; git checkout -q -- .; exit 1; }
bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_test.json'))
def names(x):
    for k in ('stable','passed','pass'):
        if k in x: return set(x[k]) if isinstance(x[k],list) else set(x[k].keys())
    return set(k for k,v in x.items() if v in ('pass','passed',True))
print("tests lost:", names(b)-names(t))
P
bash $D/demo.sh > /tmp/seed_demo1.log 2>&1; r1=$?
( cd /verif; timeout 900 python3 check.py $PROP --tier quick 2>&1 | grep -a "VIOLATION\|quick:\|rror" | head -5; echo "check rc ${PIPESTATUS[0]}" )
git checkout -q -- .
bash $D/demo.sh > /tmp/seed_demo0.log 2>&1; r0=$?
echo "$ID: demo clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 /tmp/seed_demo0.log; tail -2 /tmp/seed_demo1.log
