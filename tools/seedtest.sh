#!/bin/bash
# seedtest.sh ID [notest]: applies seeded/ID/patch.diff to /repo, runs demo, tests and the property's check, and undoes it
. /opt/vp/env.sh
id=$1; d=/verif/seeded/$id
prop=$($PY -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 2; }
bash $d/demo.sh >/tmp/seed.$id.clean 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/seed.build 2>&1; echo "build $?"
timeout 300 bash $d/demo.sh > /tmp/seed.$id.patched 2>&1; echo "demo patched: $?"
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
$PY -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed.json'))
print('tests lost:',sorted(set(b['stable'])-set(t['passed']))[:5])"
fi
cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick bash run.sh $prop > /tmp/seed.$id.check 2>&1; echo "check $?"; grep VIOLATION /tmp/seed.$id.check | head -3 | cut -c1-300; tail -2 /tmp/seed.$id.check | cut -c1-300
