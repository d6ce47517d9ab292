#!/bin/bash
# tools/seedtry.sh ID... : applies each planted change to /repo, runs its demo, the tests of the touched modules and its property's quick check, and undoes it.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  D=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  bash $D/demo.sh > /tmp/seed-$id-clean.log 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  bash $D/demo.sh > /tmp/seed-$id-bug.log 2>&1; b=$?
  t=-
  if [ -n "$TESTS" ]; then
    t=$( . /opt/vp/env.sh; for m in $(git diff --name-only | cut -d/ -f1-2 | sort -u); do :; done
       bash /opt/vp/build.sh > /tmp/seed-$id-build.log 2>&1 || { echo nobuild; exit; }
       bash /opt/vp/test.sh /tmp/seed-$id-t.json > /tmp/seed-$id-test.log 2>&1
       python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed-$id-t.json'))
p=set(r.get('passed') or r.get('pass') or [])
bad=[x for x in b if x not in p]
print('tests-ok' if not bad else 'tests-FAIL:'+','.join(bad)[:300])
P
    )
  fi
  c=-
  [ -z "$NOCHECK" ] && { (cd /verif; timeout 900 python3 run.py $P > /tmp/seed-$id-check.log 2>&1); c=$?; v=$(grep -c "^VIOLATION property=$P" /tmp/seed-$id-check.log); }
  git checkout -q -- .
  echo "$id: demo clean=$a bug=$b tests=$t check $P exit=$c violations=$v"
done
