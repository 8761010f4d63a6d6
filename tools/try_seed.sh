#!/bin/bash
# try_seed.sh ID...: confirm planted changes in a scratch copy (patch applies, builds, stable tests pass, demo 0 without / nonzero with it)
S=/tmp/ps; mkdir -p $S
if [ ! -d $S/repo ]; then
  cp -a /repo $S/repo
  sed "s#/repo#$S/repo#g" /opt/vp/build-common.sh > $S/build-common.sh
  sed "s#/opt/vp/build-common.sh#$S/build-common.sh#; s#/repo#$S/repo#g" /opt/vp/test.sh > $S/test.sh
  rm -rf /tmp/ps/repo/_build
fi
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -q -f FETCH_HEAD
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $S/repo checkout -q -- .
  (cd $S/repo && timeout 300 bash $d/demo.sh) > $S/demo0.log 2>&1; r0=$?
  git -C $S/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $S/repo && timeout 300 bash $d/demo.sh) > $S/demo1.log 2>&1; r1=$?
  bash $S/test.sh $S/out.json > $S/test.log 2>&1
  python3 - "$id" $r0 $r1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); base=set(b['stable'])
o=json.load(open('/tmp/ps/out.json')); miss=sorted(base-set(o['passed']))
print(sys.argv[1],'demo clean',sys.argv[2],'demo patched',sys.argv[3],'stable tests failing:',miss[:5],len(miss))
P
  git -C $S/repo checkout -q -- .
done
