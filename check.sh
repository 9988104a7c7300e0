#!/bin/bash
# check.sh PROPERTY quick|thorough
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/gosym" ] || [ -n "$(find "$here/gosym" -newer "$here/bin/gosym" -name '*.go' | head -1)" ]; then
  bash "$here/setup.sh" || exit 2
fi
for try in 1 2; do
  "$here/bin/gosym" -root "$here" -prop "$1" -tier "${2:-quick}"
  rc=$?
  [ $rc -le 1 ] && exit $rc
done
exit $rc
