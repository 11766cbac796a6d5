"""C06: config dump is a loadable equivalent."""
import copy
import json
import os

import yaml
from hypothesis import strategies as st

import confgen
import core
import gens
from core import check

QUICK, THOROUGH = 300, 2500
TECHNIQUE = "property-based testing: round trip of generated configurations through dsari-info config dump and the loader"
LEVEL_NOTE = ("Randomised search with shrinking; the dump is loaded again and its compiled meaning, next run times and second dump are compared "
              "with those of the original. The loader itself is judged by C04 and C05.")
RULE = ("case = a valid configuration, in one file or spread over the main file and config.d, dumped compiled or raw as JSON or YAML; "
        "non-trivial = at least one job")
FORK = ["dsari.config", "dsari.info"]


@st.composite
def plans(draw):
    c = draw(confgen.configs())
    split = {}
    if draw(st.booleans()):
        # put some parts into a config.d file
        for k in sorted(c):
            if k in ("jobs", "job_groups", "concurrency_groups") and draw(st.booleans()):
                for n in sorted(c[k]):
                    if draw(st.booleans()):
                        split["%s/%s" % (k, n)] = sorted(o for o in c[k][n] if draw(st.booleans()))
            elif draw(st.integers(0, 3)) == 0:
                split[k] = None
    return {"config": c, "split": split, "style": draw(st.integers(0, 11)), "where": draw(st.sampled_from(["default", "set"])),
            "main": draw(st.sampled_from(["json", "yaml"])), "format": draw(st.sampled_from(["json", "yaml"])), "raw": draw(st.integers(0, 2)) == 0,
            "local": draw(gens.local_zones)}


def strategy(tier):
    return plans()


def dump(etc, args):
    r = core.isolate(core.run_main, "dsari.info", ["-c", etc, "config", "dump"] + args)
    core.ok(r, "config dump " + " ".join(args))
    return r.out


def run(plan):
    core.set_tz(plan["local"])
    try:
        with core.TempDir() as d:
            c = confgen.place(plan["config"], d)
            part = {}
            main = copy.deepcopy(c)
            for k, opts in plan["split"].items():
                sec, _, name = k.partition("/")
                if opts is None:
                    part[k] = main.pop(k)
                else:
                    part.setdefault(sec, {})[name] = {o: main[sec][name].pop(o) for o in opts}
            cd = "/etc/config.d"
            if plan["where"] == "set":
                main["config_d"] = d + "/cd"
                cd = "/cd"
            confgen.write(d + "/etc/dsari." + plan["main"], main, plan["style"])
            if part:
                confgen.write(d + cd + "/part.json", part, plan["style"])
            kind, conf = confgen.load(d + "/etc")
            check(kind == "ok", "valid configuration rejected: {}", conf)
            args = ["--format", plan["format"]] + (["--raw"] if plan["raw"] else [])
            out = dump(d + "/etc", args)
            try:
                val = json.loads(out) if plan["format"] == "json" else yaml.safe_load(out)
            except Exception as e:
                raise core.Violation("config dump is not %s: %r" % (plan["format"], e))
            if plan["raw"]:
                want = dict(c, config_d=d + "/cd") if plan["where"] == "set" else c
                r = confgen.diff(val, want)
                check(r is None, "raw dump differs from the merged input (got / input): {}", r)
            os.makedirs(d + "/new")
            with open(d + "/new/dsari." + plan["format"], "wb") as f:
                f.write(out)
            kind, again = confgen.load(d + "/new")
            check(kind == "ok", "the dump is rejected: {}", again)
            r = confgen.diff(confgen.describe(again), file_default(confgen.describe(conf), again, plan))
            check(r is None, "the loaded dump differs (dump / original): {}", r)
            r = confgen.diff(confgen.schedules(again), confgen.schedules(conf))
            check(r is None, "next run times differ (dump / original): {}", r)
            out2 = dump(d + "/new", args)
            val2 = json.loads(out2) if plan["format"] == "json" else yaml.safe_load(out2)
            for v in (val, val2):
                for j in v.get("jobs", {}).values():
                    j.pop("next_scheduled_run", None)
            r = confgen.diff(val2, val)
            check(r is None, "dump of the loaded dump differs (second / first): {}", r)
            return {"nontrivial": bool(conf.jobs), "checked": 4,
                    "classes": ["raw" if plan["raw"] else "compiled", plan["format"], "split" if part else "single"]}
    finally:
        core.set_tz("UTC")


def file_default(want, again, plan):
    """The compiled dump may name the default database file explicitly."""
    db = want["base"]["database"]
    if not plan["raw"] and db["type"] == "sqlite3" and db["file"] is None and again.database.get("file") == want["base"]["data_dir"] + "/dsari.sqlite3":
        db["file"] = again.database["file"]
    return want
