#!/usr/bin/env python3
"""seed.py FILE...: each FILE is Python that calls S(name, prop, module, pkg, edits, demo, needs, breaks).
Applies the edits [(file, old, new)] in a scratch clone of /repo's HEAD and writes seeded/NAME. Prints the demo's exit code without and with the change."""
import os, subprocess, json, sys, shutil, tempfile
ROOT = "/verif/seeded/"
DEMO = '''#!/bin/bash
# runs the demonstration as an in-package test; cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
t=$(mktemp -d)
cp "$here/demo_test.go.txt" "$t/demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%s/%s/zz_demo_test.go\\":\\"$t/demo_test.go\\"}}" > "$t/overlay.json"
cd %s && go test %s-vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestDemo' ./%s
rc=$?
rm -rf "$t"
exit $rc
'''
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
tree = tempfile.mkdtemp(prefix="seed")
run("cp -a /repo/. .", tree)
run("git checkout -q -- . && git clean -fdq", tree)
def S(name, prop, module, pkg, edits, demo, needs, breaks, flags=""):
    if len(sys.argv) > 2 and name not in sys.argv[2:]: return
    for f, old, new in edits:
        p = os.path.join(tree, f); s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = ROOT + name; os.makedirs(d, exist_ok=True)
    patch = run("git diff", tree).stdout
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo_test.go.txt", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write(DEMO % (module, pkg, module, flags, pkg))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    b = run("PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build ./...", tree + "/" + module)
    t = run("bash %s/demo.sh" % d, tree)
    run("git checkout -q -- .", tree)
    c = run("bash %s/demo.sh" % d, tree)
    print(name, "build", b.returncode, "clean", c.returncode, "patched", t.returncode, "OK" if (b.returncode, c.returncode) == (0, 0) and t.returncode else "BAD")
    if b.returncode: print(b.stdout[-600:])
    if c.returncode: print(c.stdout[-900:])
    elif "[build failed]" in t.stdout or "-v" in os.environ.get("V", ""): print(t.stdout[-600:])
try:
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"S": S})
finally:
    shutil.rmtree(tree)
