#!/bin/bash
# sd.sh ID...: validates planted bugs and runs their checks like seedcheck.sh, but in a mount namespace of its own in which
# copies stand for /repo and /verif, so that several can run at once and /repo stays as it is.
# NODEMO=1: only the check. NOTESTS=1: not the stable tests. PROP=Cxx: another check. SEED=n
one() {
  id=$1; S=/verif/seeded/$id; W=/tmp/sd/$id; rm -rf "$W"; mkdir -p $W
  cp -a /repo $W/clean; cp -a /repo $W/patched; cp -a /verif $W/verif
  git -C $W/patched apply $S/patch.diff || { echo "$id: patch does not apply"; return; }
  unshare -Urm bash -s $id $W <<'X'
id=$1; W=$2; S=/verif/seeded/$id
. /opt/vp/env.sh
prop=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
res="$id $prop:"
mkdir $W/s; cp $S/* $W/s/; rm -f $W/s/patch.diff $W/s/meta.json
mount --bind $W/verif /verif
if [ -z "$NODEMO" ]; then
  mount --bind $W/clean /repo
  ( cd /repo && timeout 300 bash $W/s/demo.sh >$W/demo_clean.log 2>&1 ) && res="$res clean-ok" || res="$res CLEAN-DEMO-FAILS"
  umount /repo
fi
mount --bind $W/patched /repo
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 $W/build.log; exit 2; }
if [ -z "$NODEMO" ]; then
  ( cd /repo && timeout 300 bash $W/s/demo.sh >$W/demo_patched.log 2>&1 ) && res="$res PATCHED-DEMO-PASSES" || res="$res demo-ok"
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/test.sh $W/test.json >$W/test.log 2>&1
    res="$res $(python3 - $W <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]+'/test.json'))
m=sorted(set(b['stable'])-set(r['passed'])); print('tests-ok' if not m else 'TESTS-FAIL '+str(m[:3]))
P
)"
  fi
fi
if [ -z "$NOCHECK" ]; then
  ( cd /verif && VERIF_SEED=${SEED:-1} timeout 900 ./run.sh $prop quick >$W/run.log 2>&1 ); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " $W/run.log; then res="$res CAUGHT"; else res="$res MISSED(rc=$rc)"; fi
fi
echo "$res"
X
  cp $W/run.log /tmp/sd/$id.log 2>/dev/null; rm -rf "$W"
}
mkdir -p /tmp/sd
export -f one
printf '%s\n' "$@" | xargs -P ${P:-2} -I{} bash -c 'one {}'
