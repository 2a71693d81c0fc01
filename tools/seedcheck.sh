#!/bin/bash
# seedcheck.sh ID [check-args]: validates seeded/ID in a scratch copy (builds, stable tests pass, demo 0 clean / nonzero patched),
# then runs the property's quick check against the patched /repo and restores it.
# With NOTESTS=1 the stable tests are skipped, with NODEMO=1 demo and tests.
id=$1; S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
. /opt/vp/env.sh
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
res="$id $prop:"
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
  ( cd /repo && timeout 300 bash $S/demo.sh >/tmp/demo_clean.log 2>&1 ) && res="$res clean-ok" || res="$res CLEAN-DEMO-FAILS"
fi
git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/seedbuild.log; exit 2; }
if [ -z "$NODEMO" ]; then
  ( cd /repo && timeout 300 bash $S/demo.sh >/tmp/demo_patched.log 2>&1 ) && res="$res PATCHED-DEMO-PASSES" || res="$res demo-ok"
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
bp,rp=set(b['stable']),set(r['passed'])
m=sorted(bp-rp); print('tests-ok(%d)'%len(bp) if bp and not m else 'TESTS-FAIL '+str(m[:3]))
P
)
    res="$res $t"
  fi
fi
git -C /repo status --porcelain | grep -v '^ M' | head -3
if [ -z "$NOCHECK" ]; then
  ( cd /verif && timeout 900 ./run.sh $prop quick >/tmp/seedrun_$id.log 2>&1 ); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " /tmp/seedrun_$id.log; then res="$res CAUGHT"; else res="$res MISSED(rc=$rc)"; fi
fi
echo "$res"
