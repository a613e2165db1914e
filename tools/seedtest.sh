#!/bin/bash
# seedtest.sh <seed id> [notests]: applies a seeded change to /repo, confirms build, tests, demo and check, undoes it
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 9; }
bash /opt/vp/build.sh > /tmp/seed.b.log 2>&1 || { echo "base build FAILED"; exit 9; }
bash $D/demo.sh > /tmp/seed.d0.log 2>&1; d0=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 9; }
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/seed.b.log 2>&1 || { echo "build FAILED"; tail -5 /tmp/seed.b.log; exit 9; }
bash $D/demo.sh > /tmp/seed.d1.log 2>&1; d1=$?
t=skipped
if [ "$2" != notests ]; then bash /opt/vp/test.sh /tmp/seed.out.json > /dev/null 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed.out.json'))['passed'];print('FAILED:'+str([x for x in b if x not in o]) if set(b)-set(o) else 'pass')"); fi
( cd /verif && python3 run.py $P quick ) > /tmp/seed.c.log 2>&1; c=$?
echo "$1 property=$P demo base=$d0 patched=$d1 tests=$t check=$c $(grep -m1 -B1 VIOLATION /tmp/seed.c.log | head -1 | cut -c1-200)"
