#!/bin/bash
# confirm planted bugs in /repo itself, restoring it afterwards: applies, builds, tests pass, demo fails with it, check verdict.  usage: tryseed.sh ID...
cd /verif
for id in "$@"; do
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if ! (cd /repo && timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/demo_$id.clean 2>&1); then echo "$id DEMO-FAILS-CLEAN $(tail -1 /tmp/demo_$id.clean)"; continue; fi
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAILS"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/build_$id.log 2>&1 || b=BUILD-FAILS
  t=$(bash /opt/vp/test.sh /tmp/test_$id.json 2>/dev/null | tail -1)
  (cd /repo && timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/demo_$id.bug 2>&1); d=$?
  timeout 900 /opt/venv/bin/python check.py $prop >/tmp/chk_$id.txt 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$id $prop build=$b tests='$t' demo_with_bug=$d check=$c $(grep -c VIOLATION /tmp/chk_$id.txt)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
