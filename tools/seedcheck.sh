#!/bin/bash
# seedcheck.sh [-n] NAME...: demo on the clean tree, then with the patch: build, stable tests, demo, the property's quick check. -n skips the tests.
notest=; [ "$1" = -n ] && { notest=1; shift; }
for n in "$@"; do
  d=/verif/seeded/$n; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$n: PATCH DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
  t=skipped
  if [ -z "$notest" ]; then
    bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
k=[x for x in b if 'pass' in x or 'stable' in x][0]
print(sorted(set(map(str,b[k]))-set(map(str,o['passed'])))[:5] or 'ok')")
  fi
  bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; d1=$?
  (cd /verif && timeout 900 bash check.sh $p quick >/tmp/seed_check_$n.log 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$n $p demo_clean=$d0 build=$b tests=$t demo_patched=$d1 check=$c $(grep -m1 '^VIOLATION' /tmp/seed_check_$n.log)"
done
