#!/bin/bash
# confirm a seeded bug in a scratch copy: tryseed.sh ID...

for id in "$@"; do
  git -C /repo status --porcelain | head -1 | grep -q . && { echo "repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/seedbuild.log; git -C /repo checkout -q -- .; continue; }
  bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1
  f=$(python3 -c "import json;d=json.load(open('/tmp/seedtest.json'));print(len(d['passed']),d['failed'])")
  (cd /repo; bash /verif/seeded/$id/demo.sh > /tmp/seeddemo.log 2>&1); rc1=$?
  git -C /repo checkout -q -- .
  echo "$id: tests $f, demo with patch: $rc1"; tail -2 /tmp/seeddemo.log
done
bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1
for id in "$@"; do
  (cd /repo; bash /verif/seeded/$id/demo.sh > /tmp/seeddemo.log 2>&1); echo "$id: demo without patch: $?"; tail -1 /tmp/seeddemo.log
done
