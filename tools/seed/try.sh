#!/bin/bash
# try.sh ID [nocheck]: inside a lab (/repo is a scratch copy), says whether a seeded change counts and is caught
id=$1; s=/verif/seeded/$id
git -C /repo checkout -q -- . ; rm -f /repo/tests/vp_demo_*
prop=$(jq -r .property $s/meta.json)
o=/tmp/try.$id; mkdir -p $o
cp -r $s $o/; d=$o/$id
timeout 300 bash $d/demo.sh > $o/clean.log 2>&1; clean=$?
git -C /repo apply $s/patch.diff || { echo "$id: patch does not apply"; exit; }
bash /opt/vp/build.sh > $o/build.log 2>&1; b=$?
bash /opt/vp/test.sh $o/out.json > $o/test.log 2>&1
t=$(python3 - $o/out.json <<'P'
import json, sys
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
r = json.load(open(sys.argv[1]))
p = set(r.get("passed", r))
print(len([x for x in base if x not in p]))
P
)
timeout 300 bash $d/demo.sh > $o/bug.log 2>&1; bug=$?
v=skipped
if [ "$2" != nocheck ]; then
  s0=$(date +%s)
  /verif/check $prop quick > $o/check.log 2>&1; rc=$?
  v="rc=$rc $(grep -c "^VIOLATION property=$prop" $o/check.log) in $(( $(date +%s) - s0 ))s"
fi
git -C /repo checkout -q -- .
echo "$id: clean=$clean build=$b missing=$t bug=$bug check: $v"
