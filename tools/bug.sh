#!/bin/bash
# bug.sh <seeded id> [nodemo] : try one planted bug against the tests, its demo and the property's quick check
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -- .' EXIT
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "BUILD FAILS"; tail -30 /tmp/bug.build; exit 2; }
bash /opt/vp/test.sh /tmp/bug.json >/tmp/bug.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bug.json'))
st=b.get('stable') or b.get('passed') or b
p=set(r.get('passed',[])); missing=[t for t in (st if isinstance(st,list) else list(st)) if t not in p]
print('TESTS', 'ok' if not missing else 'MISSING %s'%missing)
P
( cd /repo && timeout 300 bash $d/demo.sh >/tmp/bug.demo 2>&1 ); echo "demo with bug: $? ($(tail -1 /tmp/bug.demo | cut -c1-200))"
timeout 900 bash /verif/check.sh $prop quick >/tmp/bug.check 2>&1; rc=$?
echo "check $prop: $rc $(grep -c VIOLATION /tmp/bug.check) violations"; grep -m2 VIOLATION -A2 /tmp/bug.check | cut -c1-300
git -C /repo checkout -- .
( cd /repo && timeout 300 bash $d/demo.sh >/tmp/bug.demo2 2>&1 ); echo "demo without bug: $?"
