#!/usr/bin/env python3
"""mutants.py FILE [NAME...]: FILE calls M(name, prop, module, edits); each is built in a scratch copy of /repo and the property's quick check is run on it."""
import os, subprocess, sys, shutil, tempfile, time
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
GO = "PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go "
tree, root = tempfile.mkdtemp(prefix="mut"), tempfile.mkdtemp(prefix="mutroot")
run("cp -a /repo/. . && git checkout -q -- . && git clean -fdq", tree)
run("for f in /verif/*; do case $f in */seeded|*/evidence) ;; *) cp -a $f .;; esac; done; mkdir evidence", root)
def M(name, prop, module, edits):
    if len(sys.argv) > 2 and name not in sys.argv[2:]: return
    try:
        for f, old, new in edits:
            p = os.path.join(tree, f); s = open(p).read()
            if s.count(old) != 1: print(name, "EDIT", f, s.count(old), flush=True); return
            open(p, "w").write(s.replace(old, new))
        b = run(GO + "build ./...", tree + "/" + module)
        if b.returncode: print(name, "BUILD", b.stdout[-300:], flush=True); return
        t = time.time()
        c = run("GOSYM_REPO=%s timeout 900 bin/gosym -root %s -prop %s -tier quick -j %s" % (tree, root, prop, os.environ.get("J", "8")), root)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(name, prop, "check=%d %ds" % (c.returncode, time.time() - t), v[0].split("/")[-1] if v else "MISSED", flush=True)
        open("/tmp/mut_%s.log" % name, "w").write(c.stdout)
    finally:
        run("git checkout -q -- .", tree)
try:
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"M": M})
finally:
    shutil.rmtree(tree); shutil.rmtree(root)
