#!/bin/bash
# seedtry.sh NAME...: the property's quick check on a scratch copy of /repo with the seeded change (no tests, no demo; /repo stays as it is)
for n in "$@"; do
  d=/verif/seeded/$n; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seedtry.XXXXXX); cp -a /repo/. $t/
  git -C $t apply $d/patch.diff || { echo "$n: PATCH DOES NOT APPLY"; rm -rf "$t"; continue; }
  e=$(mktemp -d /tmp/seedroot.XXXXXX); for f in /verif/*; do case $f in */seeded|*/evidence) ;; *) cp -a $f $e/;; esac; done; mkdir $e/evidence
  s=$(date +%s); (cd $e && GOSYM_REPO=$t timeout 900 /verif/bin/gosym -root $e -prop $p -tier quick -j ${J:-4} >/tmp/seed_check_$n.log 2>&1); c=$?
  echo "$n $p check=$c $(($(date +%s)-s))s $(grep -m1 '^VIOLATION' /tmp/seed_check_$n.log | cut -c1-150)"
  rm -rf "$t" "$e"
done
