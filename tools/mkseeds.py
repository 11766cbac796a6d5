#!/usr/bin/env python3
"""Writes seeded/<id>/ from the definitions in tools/seeddefs/*.py against the current HEAD of /repo.

A definition: ID = dict(property=, edits=[(file, old, new)...], needs=, breaks=, demo=python source)."""
import glob, json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "8c123c7"
only = sys.argv[1:]
defs = {}
for fn in sorted(glob.glob(V + "/tools/seeddefs/*.py")):
    for k, v in runpy.run_path(fn)["SEEDS"].items():
        assert k not in defs, k
        defs[k] = v
for k, v in defs.items():
    if only and k not in only:
        continue
    out = "%s/seeded/%s" % (V, k)
    d = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.run(["git", "-C", REPO, "archive", "--output", d + "/x.tar", "HEAD"], check=True)
    os.mkdir(d + "/r")
    subprocess.run(["tar", "-xf", d + "/x.tar", "-C", d + "/r"], check=True)
    run = lambda *a: subprocess.run(["git", "-C", d + "/r", "-c", "user.name=x", "-c", "user.email=x"] + list(a), check=True, capture_output=True, text=True).stdout
    run("init", "-q"); run("add", "-A"); run("commit", "-qm", "x")
    for f, old, new in v["edits"]:
        p = d + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (k, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = run("diff")
    # does it change lines of the original?
    orig = subprocess.run(["git", "-C", REPO, "show"] + ["%s:%s" % (BASE, f) for f in {e[0] for e in v["edits"]}], check=True, capture_output=True, text=True).stdout.split("\n")
    removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    if not any(l in orig and l.strip() for l in removed):
        print("WARNING %s: no line of the original is changed: %s" % (k, removed))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(diff)
    for f in ("demo.sh", "dl.py"):
        shutil.copy(V + "/tools/seedlib/" + f, out)
    open(out + "/demo.py", "w").write(v["demo"].lstrip("\n"))
    json.dump({"property": v["property"], "needs": v["needs"], "what_it_breaks": v["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
print(len(defs))
