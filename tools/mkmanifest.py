#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/."""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    fn = V + "/checks/%s.py" % i.lower()
    if not os.path.exists(fn):
        na.append({"property": i, "reason": "no check yet"})
        continue
    src = open(fn).read()
    tech = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M).group(1)
    note = re.search(r'^LEVEL_NOTE = \(?((?:\s*".*"\n?)+)\)?', src, re.M).group(1)
    note = "".join(re.findall(r'"(.*)"', note))
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "env VERIF_TIER=thorough ./check " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "gcc -O2 -shared -fPIC -o build/shim.so lib/shim.c lib/fault.c && gcc -O2 -o build/probe lib/probe.c", "checks": checks, "not_applicable": na,
           "notes": "Hypothesis-driven checks; see DESIGN.md. VERIF_SEED selects the random choices, VERIF_TIER the number of cases."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
