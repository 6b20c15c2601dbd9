#!/bin/bash
# seedtest.sh ID...: for each seeded change, in a private mount namespace with copies of /repo and /verif:
# demo on the clean tree, apply, build + tests + demo + the property's quick check. One line per change.
V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "$IN_NS" ]; then for id in "$@"; do IN_NS=1 unshare -Urm bash "$0" "$id"; done; exit; fi
id=$1; T=/tmp/seed_$id; rm -rf "/tmp/seed_$id"; mkdir -p $T
cp -a /repo $T/repo; mkdir $T/verif; (cd $V && tar cf - --exclude=./seeded --exclude=./build/w --exclude=./evidence .) | tar xf - -C $T/verif; cp -a $V/seeded/$id $T/demo
mount --bind $T/repo /repo; mount --bind $T/verif /verif
cd /repo; git checkout -q -- .
prop=$(python3 -c "import json;print(json.load(open('$T/demo/meta.json'))['property'])")
bash /opt/vp/build.sh >$T/build0.log 2>&1; bash $T/demo/demo.sh >$T/demo0.log 2>&1; d0=$?
git apply $T/demo/patch.diff || { echo "$id: PATCH FAILS"; exit; }
bash /opt/vp/test.sh $T/out.json >$T/test.log 2>&1; t=$?
np=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$T/out.json'))
s=b if isinstance(b,list) else b.get('tests',b.get('passed',b.get('stable')))
print(len([x for x in s if x not in o['passed']]))")
bash $T/demo/demo.sh >$T/demo1.log 2>&1; d1=$?
s=$(date +%s); cd /verif; timeout 900 env VERIF_TIER=quick VERIF_SEED=1 bin/check.py $prop --tier quick >$T/check.log 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$prop" $T/check.log)
echo "$id prop=$prop demo_clean=$d0 tests_rc=$t missing=$np demo_bug=$d1 check_rc=$c violations=$v $(( $(date +%s)-s ))s :: $(tail -1 $T/demo1.log | cut -c1-90) :: $(grep -m1 VIOLATION $T/check.log | cut -c1-160)"
cp $T/check.log /tmp/seedlog_$id.txt; cd /; rm -rf "/tmp/seed_$id/verif" "/tmp/seed_$id/repo" 2>/dev/null
