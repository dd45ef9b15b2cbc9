#!/bin/bash
# trybug.sh ID [PROP [SECONDS]]: validates /verif/seeded/ID in scratch copies
# /tmp/sc (clean) and /tmp/sb (patched) and runs a check against the patched copy.
id=$1; S=${SEEDED:-/verif/seeded}/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; secs=${3:-30}
for d in sc sb; do
  [ -d /tmp/$d ] || { git clone -q /repo /tmp/$d; }
  for f in build test; do sed "s#/repo#/tmp/$d#g; s#/opt/vp/build.sh#/tmp/$d-build.sh#g" /opt/vp/$f.sh > /tmp/$d-$f.sh; done
  (cd /tmp/$d && git checkout -q -- . && git pull -q /repo HEAD >/dev/null 2>&1; git reset -q --hard $(git -C /repo rev-parse HEAD))
done
[ -n "$NOCLEAN" ] || bash /tmp/sc-build.sh > /tmp/sc.log 2>&1 || { echo "clean copy does not build"; exit 1; }
cd /tmp/sb && git apply $S/patch.diff || exit 1
if [ -z "$NOVAL" ]; then
bash /tmp/sb-build.sh > /tmp/sb.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/sb.log; git checkout -q -- .; exit 1; }
bash /tmp/sb-test.sh /tmp/sb.json > /dev/null 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sb.json'));print('tests failing:',[s for s in b['stable'] if s not in o['passed']])"
(cd /tmp/sc && timeout 300 bash $S/demo.sh > /tmp/demo.c 2>&1; echo "demo clean rc=$?"; tail -3 /tmp/demo.c)
(cd /tmp/sb && timeout 300 bash $S/demo.sh > /tmp/demo.b 2>&1; echo "demo bug rc=$?"; tail -3 /tmp/demo.b)
fi
if [ "$prop" != none ]; then
export SIM_REPO=/tmp/sb SIM_NSETS=10
B=/tmp/sbuild; python3 /verif/tools/mkninja.py $B; ninja -C $B -k0 -j8 > /tmp/sbuild.log 2>&1 || echo "sim build fails"
for p in ${prop//,/ }; do rm -rf /tmp/sbo; $B/sim --property $p --seed ${SEED:-1} --seconds $secs --shrink 20 --out /tmp/sbo 2>&1 | tail -3 | cut -c1-300; done
fi
cd /tmp/sb && git checkout -q -- .
