#!/bin/bash
# tryseed.sh ID [check...]: confirm a planted bug, then run checks against it.  Everything happens in a scratch copy that is
# mounted over /repo in a mount namespace of its own: the real /repo is never touched.
# QUICKSEED=1: only the checks; NOTEST=1: without the test suite
if [ -z "$IN_NS" ]; then
  W=$(mktemp -d /tmp/seedwork.XXXX); cp -a /repo $W/repo
  IN_NS=1 W=$W unshare -Urm bash "$0" "$@"; rc=$?
  rm -rf "$W"; exit $rc
fi
mount --bind $W/repo /repo || exit 2
. /opt/vp/env.sh
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
shift
D=$W/demo; mkdir $D; cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
cd /repo
if [ "$QUICKSEED" != 1 ]; then
  bash $D/demo.sh >$W/clean 2>&1; r=$?; echo "demo clean rc=$r (want 0)"; [ $r = 0 ] || tail -5 $W/clean
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
if [ "$QUICKSEED" != 1 ]; then
  go build ./... || echo "BUILD FAILS"
  bash $D/demo.sh >$W/bad 2>&1; r=$?; echo "demo patched rc=$r (want nonzero)"; grep -m3 -i "demo_test\|fail\|panic" $W/bad | cut -c1-200
  if [ "$NOTEST" != 1 ]; then
    bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
    python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$W/t.json'))
print('stable tests lost:', sorted(set(b)-set(t['passed'])))"
  fi
fi
for c in ${@:-$P}; do (cd /verif; timeout 900 python3 check.py $c quick 2>&1 | grep -v "^session" | tail -2 | cut -c1-220); done
