#!/bin/bash
# tryseed.sh NAME...: demo on the unchanged tree, then build, tests and demo with the patch applied to /repo, which is undone afterwards.
for n in "$@"; do
  d=/verif/seeded/$n
  bash $d/demo.sh >/tmp/seed-clean.txt 2>&1; clean=$?
  git -C /repo apply $d/patch.diff || { echo "$n: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed-build.txt 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed-tests.json >/dev/null 2>&1
  failed=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-tests.json'))
want=b['stable']
print(len([t for t in want if t not in r.get('passed',[])]), len(want))
P
)
  (cd /repo && bash $d/demo.sh >/tmp/seed-bug.txt 2>&1); bug=$?
  git -C /repo checkout -q -- .
  echo "$n: clean demo $clean, build $b, failing stable tests $failed, demo with bug $bug"
done
