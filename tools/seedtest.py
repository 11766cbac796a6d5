#!/usr/bin/env python3
"""Confirms the planted bugs in scratch copies: seedtest.py [--no-check] [--checks C01,C02] [ids]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
nocheck = "--no-check" in args
args = [a for a in args if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
PY = "/opt/venv/bin/python"
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None

def one(i):
    s = "%s/seeded/%s" % (V, i)
    d = tempfile.mkdtemp(prefix="seedtest-")
    msgs = []
    try:
        shutil.copytree("/repo", d + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(s, d + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        def demo():
            return subprocess.run(["bash", d + "/demo/demo.sh"], cwd=d + "/r", capture_output=True, text=True, timeout=300)
        r = demo()
        if r.returncode != 0:
            msgs.append("demo fails on the unchanged tree: %s%s" % (r.stdout[-1500:], r.stderr[-1500:]))
        r = subprocess.run(["git", "apply", "-p1", s + "/patch.diff"], cwd=d + "/r", capture_output=True, text=True)
        if r.returncode:
            msgs.append("does not apply " + r.stderr)
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d + "/r", capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1"))
        if " failed" in r.stdout or "error" in r.stdout.splitlines()[-1]:
            msgs.append("tests: " + r.stdout[-1500:])
        r = demo()
        if r.returncode == 0:
            msgs.append("demo passes with the patch: " + r.stdout[-500:])
        else:
            out = (r.stdout.strip() + r.stderr.strip()).splitlines()
            msgs.append("ok demo: " + (out[-1] if out else "")[:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return i, msgs

def detect(i):
    s = "%s/seeded/%s" % (V, i)
    prop = json.load(open(s + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="seedtest-")
    try:
        shutil.copytree("/repo", d + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "apply", "-p1", s + "/patch.diff"], cwd=d + "/r", check=True)
        r = subprocess.run([V + "/check", prop], capture_output=True, text=True, env=dict(os.environ, DSARI_REPO=d + "/r"))
        return "%s exit %d %s" % (prop, r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED " + r.stdout[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(4) as ex:
    for i, msgs in ex.map(one, ids):
        print(i, *msgs, sep="\n   ", flush=True)
if not nocheck:
    for i in ids:
        print(i, detect(i), flush=True)
