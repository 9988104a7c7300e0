#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in tools/props/*.py."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
PROPS = []
TECH = "symbolic execution of the Go SSA with an SMT solver (z3); counterexamples replayed on the real code"

def P(id, title, statement, over, text, why, files, mechanism, note="", state=None, observe=None, na=None, technique=TECH):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, note=note, state=state, observe=observe, na=na, technique=technique))

for f in sorted(glob.glob(os.path.join(here, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"P": P})
PROPS.sort(key=lambda p: p["id"])
assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(os.path.join(root, "properties.jsonl"), "w") as out:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
        out.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
BASE = ("Holds for every value of the symbolic inputs within the bounds written in the evidence file (sizes, list lengths, "
        "steps); real code is encoded from its SSA on every run, and a counterexample is reported only after a native replay of it. "
        "Trusted: the SSA encoder and its models of standard library calls, ideal signatures and hashes (collision free, unforgeable), "
        "z3. Paths that end in an unsupported construct, time out or are undecided are counted in the evidence and claim nothing.")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"], "technique": p["technique"],
        "level": "model_checking", "level_note": (p["note"] + " " + BASE).strip()})
man["notes"] = "Every check runs bin/gosym (built by setup.sh from gosym/) on the harness functions VerifCNN_* under harness/, which mirror the repository's layout."
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed", len(man["not_applicable"]), "not applicable")

# DESIGN.md
import re
exec(open(os.path.join(here, "design", "how.py")).read())
def harnesses(pid):
    r = []
    for d, _, fs in os.walk(os.path.join(root, "harness")):
        for f in sorted(fs):
            if f.endswith(".go"):
                n = re.findall(r"^func Verif%s_(\w+)\(" % pid, open(os.path.join(d, f)).read(), re.M)
                if n: r.append((os.path.relpath(os.path.join(d, f), root), n))
    return sorted(r)
out = open(os.path.join(here, "design", "head.md")).read()
for p in PROPS:
    out += "### %s %s\n\n" % (p["id"], p["title"])
    if p["na"]:
        out += "Not applicable: %s\n\n" % p["na"]
        continue
    out += p["statement"] + "\n\n"
    out += "*How.* %s\n" % HOW[p["id"]]
    for f, n in harnesses(p["id"]):
        out += "Harnesses in `%s`: %s.\n" % (f, ", ".join(n) if len(n) < 20 else "%d, one or two for each kind of message" % len(n))
    out += "\n*Bounds.* %s.\n" % p["text"]
    if p["note"]: out += "\n*Note.* %s\n" % p["note"]
    out += "\n*Beyond the tests.* %s\n\n" % p["why"]
rows = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"], MISSED.get(os.path.basename(d), "yes")))
out += open(os.path.join(here, "design", "tail.md")).read().replace("@SEEDS@", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(out)
