#!/bin/bash
# tools/tryseed.sh ID...: confirm a planted change (tests pass, demo discriminates) and run its property's check against it
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
  (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1; bld=$?
  bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
  miss=$(/usr/bin/python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
base=b['stable']
p=set(t['passed'])
print(len(set(base)-p))")
  (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); c=$?
  PYVC_CHILD= python3 run.py $prop quick >/tmp/seed-$id.log 2>&1; r=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$prop" /tmp/seed-$id.log); nf=$(grep -c "no-failing-input-found" /tmp/seed-$id.log)
  echo "$id prop=$prop build=$bld tests_missing=$miss demo_clean=$a demo_bug=$c check_exit=$r violations=$v noinput=$nf"
done
