#!/bin/bash
# mkseed.sh ID : turns the uncommitted change in /tmp/seed/repo into
# /verif/seeded/ID/patch.diff after confirming that it builds, passes the stable
# tests, and that demo.sh (already in /verif/seeded/ID) tells the trees apart.
id=$1; S=/verif/seeded/$id; W=/tmp/seed/repo
. /opt/vp/env.sh
cd $W || exit 1
git diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
go build -buildvcs=false -o /tmp/seed/bin/ ./... || { echo "does not build"; exit 1; }
go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed/test.json 2>/dev/null
python3 - <<'P' || exit 1
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open('/tmp/seed/test.json'):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
m=st-ok
print('stable tests failing:',m)
raise SystemExit(1 if m else 0)
P
bash $S/demo.sh > /tmp/seed/demo1.log 2>&1; r1=$?
git stash -q; bash $S/demo.sh > /tmp/seed/demo0.log 2>&1; r0=$?; git stash pop -q
echo "demo: clean=$r0 patched=$r1"
tail -5 /tmp/seed/demo1.log
[ $r0 = 0 ] && [ $r1 != 0 ] || { tail -20 /tmp/seed/demo0.log; exit 1; }
git checkout -q -- .
echo OK $id
