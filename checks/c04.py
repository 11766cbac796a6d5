"""C04: merging of configuration files."""
import copy
import json
import os

from hypothesis import strategies as st

import confgen
import core
import gens
from core import check

QUICK, THOROUGH = 400, 3000
TECHNIQUE = "property-based testing: generated sets of configuration files against an independent merge model, plus a single-file differential"
LEVEL_NOTE = ("Randomised search with shrinking over up to eight files with colliding keys at several depths and decoy files; compares the merged "
              "input and the compiled configuration. Trusts json and PyYAML to read back what the harness wrote.")
RULE = ("case = up to 2 main files and 6 config.d files (names, contents, styles) plus files that must be ignored; non-trivial = at least two "
        "contributing files with a common key")

FILES = ["a.yaml", "b.yaml", "a.json", "b.json", "10.yaml", "9.yaml", "Z.json", "_x.yaml", "dsari.yaml", "dsari.json", "a b.json", "aa.yaml"]
DECOYS = ["x.yml", "y.json.bak", "z.yaml~", "readme", "dir.yaml/", "dir.json/sub.json", "yaml", "q.JSON"]

small = st.recursive(st.one_of(st.integers(0, 3), st.sampled_from(["s", "", None, True]), st.lists(st.integers(0, 2), max_size=2)),
                     lambda c: st.dictionaries(st.sampled_from(["k", "l", "m"]), c, max_size=3), max_leaves=8)
FORK = ["dsari.config", "dsari.info"]


@st.composite
def layers(draw):
    c = {}
    if draw(st.booleans()):
        c = draw(confgen.configs(partial=True))
    if draw(st.integers(0, 1)):
        js = c.setdefault("jobs", {})
        for n in draw(st.lists(st.sampled_from(["a", "b", "c"]), max_size=3, unique=True)):
            js[n] = draw(confgen.jobs(command=draw(st.booleans())))
    if draw(st.integers(0, 2)) == 0:
        c["x_extra"] = draw(small)
    if draw(st.integers(0, 2)) == 0:
        c["environment"] = draw(st.dictionaries(st.sampled_from(["A", "B", "C"]), st.sampled_from(["1", "2", 3, 4.5]), max_size=3))
    return c


@st.composite
def plans(draw):
    files = {}
    for n in ("dsari.yaml", "dsari.json"):
        if draw(st.integers(0, 3)):
            files[n] = draw(layers())
    for n in draw(st.lists(st.sampled_from(FILES), max_size=6, unique=True)):
        files["CD/" + n] = draw(layers())
    if draw(st.integers(0, 9)):
        # every job gets a command somewhere
        for n in ["a", "b", "c"] + confgen.NAMES:
            have = [c for c in files.values() if n in c.get("jobs", {})]
            if have and not any("command" in c["jobs"][n] for c in have):
                draw(st.sampled_from(have))["jobs"][n]["command"] = draw(confgen.commands)
        for c in files.values():
            for n, j in c.get("jobs", {}).items():
                if n not in ["a", "b", "c"] + confgen.NAMES:
                    j.setdefault("command", ["z"])
    where = draw(st.sampled_from(["default"] * 3 + ["yaml", "json", "both"]))
    return {"files": files, "styles": draw(st.lists(st.integers(0, 11), min_size=8, max_size=8)), "where": where,
            "decoys": draw(st.lists(st.sampled_from(DECOYS), max_size=3, unique=True)),
            "empty": draw(st.lists(st.sampled_from(["CD/ee.yaml", "CD/c.yaml"]), max_size=1)),
            "cli": draw(st.integers(0, 5)) == 0}


def strategy(tier):
    return plans()


def run(plan):
    with core.TempDir() as d:
        files = confgen.place(plan["files"], d)
        where = plan["where"]
        if where in ("yaml", "both"):
            files.setdefault("dsari.yaml", {})["config_d"] = d + ("/not used" if where == "both" else "/my conf.d")
        if where in ("json", "both"):
            files.setdefault("dsari.json", {})["config_d"] = d + "/my conf.d"
        cd = d + "/etc/config.d" if where == "default" else d + "/my conf.d"
        os.makedirs(d + "/etc")
        for i, n in enumerate(sorted(files)):
            path = cd + n[2:] if n.startswith("CD/") else d + "/etc/" + n
            confgen.write(path, files[n], plan["styles"][i % 8])
        bad = {"jobs": {"decoy": {"command": ["x"]}}, "x_extra": {"k": "decoy"}}
        for n in plan["decoys"]:
            if n.endswith("/"):
                os.makedirs(cd + "/" + n, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(cd + "/" + n), exist_ok=True)
                json.dump(bad, open(cd + "/" + n, "w"))
        if where != "default":
            confgen.write(d + "/etc/config.d/a.json", bad)
        confgen.write(d + "/etc/other.json", bad)
        for n in plan["empty"]:
            if n not in files and os.path.isdir(cd):
                open(cd + n[2:], "w").write("# nothing here\n" if "ee" in n else "")
        # the model
        order = [n for n in ("dsari.yaml", "dsari.json") if n in files]
        order += sorted((n for n in files if n.startswith("CD/") and n.endswith(".yaml")))
        order += sorted((n for n in files if n.startswith("CD/") and n.endswith(".json")))
        want = {}
        for n in order:
            want = confgen.merge(want, files[n])
        kind, c = confgen.load(d + "/etc")
        one = d + "/one"
        confgen.write(one + "/dsari.json", dict(want, config_d=d + "/none"))
        kind1, c1 = confgen.load(one)
        check(kind == kind1, "{} with the files, {} with one merged file: {} / {}", kind, kind1, c, c1)
        shared = any(set(files[a]) & set(files[b]) for a in order for b in order if a < b)
        res = {"nontrivial": shared and kind == "ok", "classes": [kind, "files:%d" % len(order), "where:" + where]}
        if kind != "ok":
            return res
        r = confgen.diff(confgen.describe(c), confgen.describe(c1))
        check(r is None, "compiled configuration differs from that of one merged file: {}", r)
        r = confgen.diff(c.raw_config, want)
        check(r is None, "merged configuration (got / expected): {}", r)
        if plan["cli"]:
            out = core.isolate(core.run_main, "dsari.info", ["-c", d + "/etc", "config", "dump", "--raw"])
            core.ok(out, "config dump --raw")
            r = confgen.diff(json.loads(out.out), want)
            check(r is None, "config dump --raw (got / expected): {}", r)
            res["classes"].append("cli")
        return res
