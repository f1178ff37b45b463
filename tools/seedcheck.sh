#!/bin/bash
# seedcheck.sh ID...: confirms planted changes in a scratch copy of /repo: they
# build, pass the stable tests, and the demonstration tells them apart; then
# runs the check of their property. Test runs use /opt/vp, so one at a time.
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
    cd /repo || exit 2
    git diff --quiet || { echo "/repo is not clean"; exit 2; }
    bash $d/demo.sh > /tmp/seed.demo0 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/seed.demo0; continue; }
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    r=""
    bash /opt/vp/build.sh > /tmp/seed.build 2>&1 || r="does not build: $(tail -3 /tmp/seed.build)"
    if [ -z "$r" ]; then
        bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1
        miss=$(python3 -c '
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/seed.json"))
print(*sorted(set(b["stable"])-set(t["passed"]))[:4])')
        [ -n "$miss" ] && r="tests fail: $miss"
    fi
    if [ -z "$r" ] && bash $d/demo.sh > /tmp/seed.demo1 2>&1; then r="demo passes with the change"; fi
    if [ -n "$r" ]; then echo "$id: NOT VALID: $r"; else
        bash /verif/run.sh $prop > /tmp/seed.out 2>&1; rc=$?
        echo "$id: valid, $prop rc=$rc $(grep -v instances= /tmp/seed.out | grep -m1 'rule ' | cut -c1-200)"
    fi
    git checkout -q -- .
done
bash /opt/vp/build.sh > /tmp/seed.build 2>&1
