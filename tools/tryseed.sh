#!/bin/bash
# tryseed.sh ID... : confirms each seed (applies, builds, tests pass, demo passes
# without and fails with it) and runs the property's check against it
for ID in "$@"; do
  D=/verif/seeded/$ID
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo
  T=$(mktemp -d); cp -a $D/. $T/; rm -f $T/*.diff $T/meta.json
  timeout 300 bash $T/demo.sh >/tmp/demo0.log 2>&1; r0=$?
  if ! git apply $D/patch.diff; then echo "$ID: patch does not apply"; continue; fi
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  t=$(python3 -c "
import json;s=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('/tmp/t.json'))
p=r.get('passed',r);print(all(x in p for x in s))")
  timeout 300 bash $T/demo.sh >/tmp/demo1.log 2>&1; r1=$?
  c=$(cd /verif && timeout 900 python3 sa/check.py $P 2>&1); rc=$?
  git checkout -q -- .
  rm -rf "$T"
  echo "$ID: property=$P demo clean=$r0 patched=$r1 build=$b tests=$t check=$rc $(echo "$c" | grep -m1 rule=)"
done
