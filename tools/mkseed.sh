#!/bin/bash
# mkseed.sh NAME PROPERTY MODULE PKG: the working tree of /repo holds the change; the demo test is on stdin.
# NEEDS and BREAKS come from the environment. Writes seeded/NAME and restores /repo.
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
cat > $d/demo_test.go.txt
cat > $d/demo.sh <<EOS
#!/bin/bash
# runs the demonstration as an in-package test; cwd is the repository
here="\$(cd "\$(dirname "\$0")" && pwd)"
export PATH=/opt/veriftools/go1.23.12/bin:\$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
t=\$(mktemp -d)
cp "\$here/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$3/$4/zz_demo_test.go\":\"\$t/demo_test.go\"}}" > "\$t/overlay.json"
cd $3 && go test -vet=off -count=1 -timeout 200s -overlay "\$t/overlay.json" -run '^TestDemo' ./$4
rc=\$?
rm -rf "\$t"
exit \$rc
EOS
python3 - "$1" "$2" <<'P'
import json,sys,os
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
