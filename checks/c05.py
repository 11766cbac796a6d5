"""C05: acceptance, normalisation and meaning of configurations."""
import copy
import json
import os

from hypothesis import strategies as st

import confgen
import core
import gens
from core import check

QUICK, THOROUGH = 900, 6000
TECHNIQUE = "property-based testing: generated valid configurations against the documented meaning, and single mutations which must be rejected"
LEVEL_NOTE = ("Randomised search with shrinking; compares every documented option of the compiled configuration with a model written from the "
              "documentation, and requires a ConfigError for each of some forty kinds of mistakes. Options without documentation are not judged.")
RULE = ("case = a valid configuration (all sections, both formats), or one with exactly one mistake put into it; "
        "non-trivial = it has a job (valid) or the mistake was applicable (invalid)")

WRONG = {
    "data_dir": [1, ["x"], True, None], "template_dir": [1, ["x"], {}], "report_html_gz": [1, "true", None, []],
    "report_run_output_start": [1.5, "1", True, None], "report_run_output_end": [1.5, "1", False, None], "shutdown_kill_runs": [0, "yes", None],
    "shutdown_kill_grace": ["5", True, [5]], "environment": [["A"], "A=1", 3, None], "database": ["sqlite3", ["x"], None],
    "jobs": [["a"], "a", 3, None], "job_groups": [["a"], "a", 3, None], "concurrency_groups": [["a"], "a", 3, None],
}
JOB_WRONG = {
    "command": [None, 3, {"a": "b"}, ["a", 1], ["a", None], ["a", ["b"]], "a 'b", 'a "b', "a\\"], "schedule": [3, True, ["* * * * *"], {}],
    "schedule_timezone": [3, True, ["UTC"]], "max_execution": ["60", True, [1]], "max_execution_grace": ["60", False, [1], None],
    "environment": [["A"], "A=1", 3, None, {"A": None}, {"A": True}, {"A": ["x"]}, {"A": {}}], "render_reports": [1, "no", None], "command_append_run": [1, "no", None],
    "jenkins_environment": [0, "no", None], "job_group": [1, True, ["x"]], "concurrent_runs": [1, "yes", None],
    "concurrency_groups": ["g", 3, {"g": 1}, ["g", 1], ["g", None], None],
}
BAD_SCHEDULES = ["* * * *", "60 * * * *", "* 24 * * *", "* * 32 * *", "* * * 13 *", "* * * 0 *", "* * * * 8", "* * * * * 60", "foo", "",
                 "RRULE:FREQ=NOPE", "RRULE:", "rrule:INTERVAL=2", "* * * * fooday", "-1 * * * *", "5-70 * * * *", "a * * * *", "H( * * * *",
                 "@nightly", "* * * * * * * * *", "*/x * * * *", "RRULE:FREQ=DAILY;BYHOUR=x", "0 0 30 2 *"]
BAD_NAMES = ["", "a/b", ".", "..", "x" * 65, "\u00e9", "a\n", "a;b", "a\tb", "a\x00", "a*", "(a)", "\u0661", "a,b", "a'b", "\na", "a#b", "/"]
FORK = ["dsari.config", "dsari.info"]


@st.composite
def plans(draw):
    c = draw(confgen.configs())
    p = {"config": c, "style": draw(st.integers(0, 11)), "format": draw(st.sampled_from(["json", "yaml"])), "local": draw(gens.local_zones),
         "cli": draw(st.integers(0, 9)) == 5, "mistake": None}
    if draw(st.booleans()):
        p["config"] = c = copy.deepcopy(c)
        p["mistake"] = draw(mistake(c))
    return p


def any_job(draw, c):
    """A job definition (dict) of c, adding one if need be."""
    have = list(c.get("jobs", {}).values()) + list(c.get("job_groups", {}).values())
    if not have:
        j = {"command": ["true"]}
        c.setdefault("jobs", {})["only"] = j
        have = [j]
    return draw(st.sampled_from(have))


@st.composite
def mistake(draw, c):
    kind = draw(st.sampled_from(["wrong", "job", "job", "job", "name", "name", "schedule", "missing", "env-key", "group-def", "job_names"]))
    if kind == "wrong":
        k = draw(st.sampled_from(sorted(WRONG)))
        c[k] = draw(st.sampled_from(WRONG[k]))
        return "%s = %r" % (k, c[k])
    if kind == "job":
        j = any_job(draw, c)
        k = draw(st.sampled_from(sorted(set(JOB_WRONG) - {"job_group" if "job_names" in j else ""})))
        j[k] = draw(st.sampled_from(JOB_WRONG[k]))
        return "job: %s = %r" % (k, j[k])
    if kind == "name":
        n = draw(st.one_of(st.sampled_from(BAD_NAMES), gens.text(st.sampled_from("ab\u00df;/\n"), 1, 8).filter(lambda s: set(s) - set("ab"))))
        where = draw(st.sampled_from(["job", "job_group", "job_names", "concurrency_group", "reference"]))
        if where == "job":
            c.setdefault("jobs", {})[n] = {"command": ["x"]}
        elif where == "job_group":
            c.setdefault("job_groups", {})[n] = {"command": ["x"], "job_names": ["in-bad-group"]}
        elif where == "job_names":
            c.setdefault("job_groups", {})["g-bad"] = {"command": ["x"], "job_names": ["fine1", n]}
        elif where == "concurrency_group":
            c.setdefault("concurrency_groups", {})[n] = {"max": 1}
        else:
            any_job(draw, c)["concurrency_groups"] = ["g", n]
        return "%s name %r" % (where, n)
    if kind == "schedule":
        s = draw(st.sampled_from(BAD_SCHEDULES))
        any_job(draw, c)["schedule"] = s
        return "schedule %r" % s
    if kind == "missing":
        j = any_job(draw, c)
        k = "job_names" if "job_names" in j and draw(st.booleans()) else "command"
        del j[k]
        return "no " + k
    if kind == "env-key":
        t = draw(st.sampled_from(["global", "job"]))
        e = (c if t == "global" else any_job(draw, c)).setdefault("environment", {})
        v = draw(st.sampled_from([None, True, [1], {"x": "y"}]))
        e["BAD"] = v
        return "environment value %r" % (v,)
    if kind == "group-def":
        v = draw(st.sampled_from([None, 3, "x", ["max"], {"max": "2"}, {"max": 1.0}, {"max": True}, {"max": None}]))
        c.setdefault("concurrency_groups", {})["gg"] = v
        return "concurrency group defined as %r" % (v,)
    v = draw(st.sampled_from(["abc", 3, {"a": 1}, ["a1", 2], ["a1", None], None]))
    c.setdefault("job_groups", {})["jj"] = {"command": ["x"], "job_names": v}
    return "job_names = %r" % (v,)


def strategy(tier):
    return plans()


def run(plan):
    core.set_tz(plan["local"])
    try:
        with core.TempDir() as d:
            c = confgen.place(plan["config"], d)
            confgen.write(d + "/etc/dsari." + plan["format"], c, plan["style"])
            kind, got = confgen.load(d + "/etc")
            if plan["cli"]:
                r = core.isolate(core.run_main, "dsari.info", ["-c", d + "/etc", "config", "check"])
                if kind == "ok":
                    check(r.kind == "ok" and r.value in (None, 0) and r.out == b"Config OK\n", "config check: {} {!r}, {!r}", r.kind, r.value, r.out)
                else:
                    check(r.kind in ("exc", "exit") and r.value != 0 and r.out == b"", "config check of an invalid configuration: {} {!r}, {!r}", r.kind, r.value, r.out)
            if plan["mistake"]:
                check(kind == "rejected", "accepted in spite of: {}", plan["mistake"])
                return {"nontrivial": True, "classes": ["rejected:" + plan["mistake"].split()[0]]}
            check(kind == "ok", "valid configuration rejected: {}", got)
            want = confgen.meaning(c, plan["local"])
            have = confgen.describe(got)
            for n in have["jobs"]:
                check(have["jobs"][n].pop("name") == n, "job {!r} has another name", n)
            r = confgen.diff(have, want)
            check(r is None, "configuration means (got / documented): {}", r)
            classes = ["valid"]
            if c.get("job_groups"):
                classes.append("job_groups")
                e = copy.deepcopy(c)
                for gname, g in e.pop("job_groups").items():
                    for n in g.pop("job_names"):
                        e.setdefault("jobs", {})[n] = dict(copy.deepcopy(g), job_group=gname)
                confgen.write(d + "/flat/dsari.json", e)
                kind, flat = confgen.load(d + "/flat")
                check(kind == "ok", "rejected with the job groups written out: {}", flat)
                r = confgen.diff(confgen.describe(flat), confgen.describe(got))
                check(r is None, "differs with the job groups written out: {}", r)
            return {"nontrivial": bool(want["jobs"]), "classes": classes, "checked": len(want["jobs"]) + 1}
    finally:
        core.set_tz("UTC")
