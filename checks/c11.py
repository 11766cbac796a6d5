"""C11: bad input files never stop the daemon."""
import json
import re

import yaml
from hypothesis import strategies as st

import core
import gens
import model
import scen
import sim

QUICK, THOROUGH = 150, 1200
TECHNIQUE = "fuzzing of trigger files, return_data files and reloaded configurations (raw and structure-aware) on the real daemon under a simulated clock and process table, with a model of what must still run"
LEVEL_NOTE = ("Randomised search with shrinking; whether a trigger is valid, invalid or unspecified is decided from its content by rules in "
              "the check. Alias bombs and other mere resource exhaustion are not generated. Trusts lib/sim.py.")
RULE = ("case = a scheduled job and jobs with generated trigger files, return_data files and invalid configurations; non-trivial = at least "
        "one input which is not simply valid was consumed")
ASSUMPTIONS = ["an input file is complete when the daemon opens it"]

ODD_TIMES = [None, True, [], {}, "", "garbage", "2020-13-45", "2020-02-30T10:00:00", float("nan"), float("inf"), -float("inf"), 1e308, -1e308,
             10 ** 30, -10 ** 30, 10 ** 400, "9999-12-31T23:59:59", "0001-01-01", "0001-01-01T00:00:00+14:00", "9999-12-31T23:59:59-12:00",
             "24:61", -62135596800, 253402300799, 253402300800, "10", "1e5", "99999999999999999999", 0, -1, 1.5, "\u0661", "\x00", "T", "now",
             [2020, 1, 1], {"a": 1}, "2021-02-10T00:00:00", "2021-02-10T00:00:00Z"]
ODD_ZONES = [None, 5, "", "Nowhere/Bad", "../../../etc/passwd", "/etc/passwd", [], {}, "\x00", "A" * 300, True, "UTC", "Europe/Berlin", "EST5EDT", ":", "UTC+25"]
BAD_TIMES = ["", "garbage", "2020-13-45", "2020-02-30T10:00:00", "24:61", "\x00", "now", [2020, 1, 1], {"a": 1}, [], {}, float("nan"),
             float("inf"), -float("inf"), 1e308, -1e308, 10 ** 30, -10 ** 30]
ODD_ENVS = [None, [], "x", 3, ["A=b"], {"a": None}, {"a": []}, {"a": {"b": "c"}}, {"": "x"}, {"a=b": "c"}, {"a": "\x00"}, {"a": "\ud800"}, {"PATH": 3},
            {"PATH": "\x00"}, {"a": True}, {"a": 10 ** 40}, {"PWD": "\x00"}, {"PWD": "/nonexistent"}, {"a": "v"}, {}, {"HOME": "", "X": 1.5}]
YAMLS = ["a: 2020-01-01", "schedule_time: 2021-02-10 00:00:00", "schedule_time: 2021-02-10", "? !!set {a, b}", "a: !!set {b, c}", "a: !!binary aGVsbG8=",
         "a: !!python/object/apply:os.system [\"true\"]", "a: !foo b", "&a [*a]", "a: &a [*a]", "a: &a {b: *a}", "a: *nope", "1: 2", "2020-01-01: x",
         "? [a, b]\n: c", "? {a: b}\n: c", "null: x", "true: false", "a: .inf", "a: .nan", "schedule_time: .nan", "schedule_time: 2001-02-30",
         "schedule_time: !!timestamp x", "\ta: b", "a: b\n\tc: d", "a: b: c", "---\na: 1\n---\nb: 2", "%YAML 3.0\n---\n{}", "a: 1\na: 2", "<<: {a: b}",
         "<<: [1]", "environment: {1: x}", "environment: {a: 2020-01-01}", "environment: {a: yes}", "environment: {a: ~}", "environment: {? [a] : b}", "environment: {a: 0x1F}",
         "", "~", "{}", "# nothing", "...", "---", "a: !!int x", "a: !!float \"\"", "a: 1_000", "a: 190:20:30", "a: 9999999-01-01", "a: \"\\ud800\"", "\ufeff{}", "a: '", "- -\n -",
         "a: 0o8", "a: !!omap [b: c]", "a: !!pairs [b: c]", "a: " + "9" * 5000, "a: 2001-12-14t21:59:43.10-05:00", "a: 2001-12-14 21:59:43.10 +99:99"]
JSONS = ["", "null", "3", "[]", '"x"', "{", "}", "{} {}", "{}x", '{"a": NaN}', '{"a": Infinity}', '{"a": 1e999}', '{"a": "\\ud800"}', '{"a": ' + "9" * 5000 + "}", "\ufeff{}",
         '{"a": 1, "a": 2}', "[" * 100000, '{"a":' * 100000, "[" * 600 + "]" * 600, '{"a":' * 600 + "1" + "}" * 600, "{'a': 1}", "\udcff\udcfe", '{"a": "\udcff"}', "\x00", "{}\x00", "tru", "-", "{,}", " {}\n"]
BAD_CONFIGS = ["", " ", "{", "[]", "3", '"x"', "\udcff", "{}}", '{"jobs": []}', '{"jobs": {"a/b": {"command": "x"}}}', '{"jobs": {"j": {}}}', '{"jobs": {"j": 3}}',
               '{"jobs": {"j": {"command": 3}}}', '{"jobs": {"j": {"command": "\'"}}}', '{"jobs": {"j": {"command": "x", "schedule": "x"}}}', '{"jobs": {"": {"command": "x"}}}',
               '{"jobs": {"j": {"command": "x", "schedule": "* * * *"}}}', '{"jobs": {"j": {"command": "x", "schedule": "61 * * * *"}}}', '{"jobs": {"j": {"command": "x", "environment": []}}}',
               '{"jobs": {"j": {"command": "x", "schedule": "RRULE:FREQ=NEVER"}}}', '{"job_groups": {"g": {"command": "x"}}}', '{"concurrency_groups": []}', '{"environment": 3}',
               '{"jobs": {"j": {"command": "x", "max_execution": "x"}}}', '{"jobs": {"j": {"command": "x", "schedule": "0 0 30 2 *"}}}', '{"data_dir": 3}', '{"jobs": {"..": {"command": "x"}}}',
               '{"jobs": {"j": {"command": "x", "schedule": 3}}}', '{"jobs": {"j": {"command": "x", "concurrency_groups": 3}}}', "[" * 100000,
               '{"jobs": {"j": {"command": "x", "schedule": "* * * * *", "schedule_timezone": "UTC+25"}}}', '{"jobs": {"j": {"command": "x", "schedule_timezone": 5}}}']
# (an empty file counts as an empty configuration)
BAD_CONFIGS = [c for c in BAD_CONFIGS if c.strip() not in ("", "null")]


@st.composite
def content(draw):
    """(format, text)"""
    fmt = draw(st.sampled_from(["json", "json", "yaml"]))
    k = draw(st.integers(0, 9))
    if k < 1:
        return fmt, draw(gens.text("{}[]\",:0-9.e+ab\\\n \t'&*!|>%@`#?~\udcff\u00e9\x00", 0, 14))
    if k < 4:
        return (fmt, draw(st.sampled_from(JSONS))) if fmt == "json" else (fmt, draw(st.sampled_from(YAMLS + JSONS)))
    if k < 5:
        v = draw(gens.json_values)
    else:
        v = {}
        if draw(st.integers(0, 9)) < 6:
            v["schedule_time"] = draw(st.sampled_from(ODD_TIMES))
        if draw(st.integers(0, 9)) < 3:
            v["schedule_timezone"] = draw(st.sampled_from(ODD_ZONES))
        if draw(st.integers(0, 9)) < 4:
            v["environment"] = draw(st.sampled_from(ODD_ENVS))
        if draw(st.integers(0, 9)) < 2:
            v[draw(gens.text(gens.uni, max_size=4))] = draw(gens.json_values)
    if fmt == "yaml" and draw(st.booleans()):
        try:
            return fmt, yaml.safe_dump(v, allow_unicode=True)
        except Exception:
            pass
    return fmt, json.dumps(v)


def parse(fmt, text):
    """('ok', value) or ('bad', None) or ('any', None)"""
    try:
        raw = text.encode("utf-8", "surrogateescape").decode("utf-8")
    except UnicodeError:
        return "bad", None
    if model.deep(raw):
        # whether that is too deep for a parser is its business (the long ones are also unbalanced)
        return ("bad" if len(raw) > 50000 else "any"), None
    try:
        v = json.loads(raw) if fmt == "json" else yaml.safe_load(raw)
    except Exception:
        return "bad", None
    return "ok", v


def verdict(fmt, text):
    """valid | invalid | any (unspecified)"""
    k, v = parse(fmt, text)
    if k != "ok":
        return {"bad": "invalid", "any": "any"}[k]
    if not isinstance(v, dict):
        return "invalid"
    try:
        if json.loads(json.dumps(v, allow_nan=False)) != v:
            return "any"
        if len(json.dumps(v)) > 2000 or "\\ud8" in json.dumps(v):
            return "any"
    except Exception:
        v = {k: x for k, x in v.items() if k in ("schedule_time", "environment")}
        rest = False
    else:
        rest = True
    out = "valid" if rest else "any"
    if "environment" in v:
        e = v["environment"]
        if e is None:
            out = "any"
        elif not isinstance(e, dict):
            return "invalid"
        elif any(isinstance(x, (list, dict)) for x in e.values()):
            return "invalid"
        elif any(x is None or isinstance(x, bool) or not isinstance(x, (str, int, float)) for x in e.values()) or not all(isinstance(x, str) for x in e):
            out = "any"
    if "schedule_time" in v:
        s = v["schedule_time"]
        if any(s is b or (type(s) is type(b) and s == b) or (isinstance(b, float) and isinstance(s, float) and s != s and b != b) for b in BAD_TIMES):
            return "invalid"
        if type(s) in (int, float):
            if not abs(s) < 4e9:
                out = "any"
        elif s not in ("2021-02-10T00:00:00", "2021-02-10T00:00:00Z"):
            out = "any"
    if "schedule_timezone" in v and v["schedule_timezone"] not in ("UTC", "Europe/Berlin"):
        out = "any"
    return out


@st.composite
def plans(draw, tier):
    start = draw(scen.starts())
    local = draw(st.sampled_from(scen.LOCALS))
    hz = draw(st.sampled_from([200, 330]))
    jobs = {"h": {"command": ["true"], "schedule": draw(st.sampled_from(["* * * * *", "* * * * * */20", "*/2 * * * *"]))}}
    events, procs = [], {"h": []}
    for _ in range(draw(st.integers(1, 3))):
        b = {"dur": draw(st.sampled_from([0.5, 3, 30]))}
        if draw(st.integers(0, 3)):
            fmt, text = draw(content())
            b["files"] = {"return_data." + fmt: text}
            if draw(st.integers(0, 5)) == 5:
                fmt, text = draw(content())
                b["files"]["return_data." + fmt] = text
        procs["h"].append(b)
    n = draw(st.integers(0, 4))
    for i in range(n):
        jobs["t%d" % i] = {"command": ["true"]}
        if draw(st.integers(0, 3)) == 3:
            jobs["t%d" % i]["concurrent_runs"] = True
        fmt, text = draw(content())
        t = draw(st.integers(0, 100))
        events.append({"t": t, "do": "trigger", "job": "t%d" % i, "id": i, "fmt": fmt, "content": text})
        if draw(st.booleans()):
            events.append({"t": t + draw(st.sampled_from([0, 1, 5])), "do": "signal", "sig": "SIGUSR1"})
    if draw(st.integers(0, 2)) == 2:
        # an invalid trigger must not disturb the scheduled job either
        fmt, text = draw(content().filter(lambda c: verdict(*c) == "invalid"))
        events.append({"t": draw(st.integers(0, 100)), "do": "trigger", "job": "h", "id": 90, "fmt": fmt, "content": text, "valid": False})
    cfg = {"jobs": jobs}
    for i in range(draw(st.integers(0, 2))):
        t = draw(st.integers(1, 150))
        events.append({"t": t, "do": "config", "config": draw(st.sampled_from(BAD_CONFIGS)), "valid": False})
        events.append({"t": t + draw(st.sampled_from([0, 0.5])), "do": "signal", "sig": "SIGHUP"})
    if draw(st.integers(0, 4)) == 4 and events:
        # and it is not stuck afterwards
        events.append({"t": 152, "do": "config", "config": cfg})
        events.append({"t": 152, "do": "signal", "sig": "SIGHUP"})
    events.sort(key=lambda e: e["t"])
    return {"start": start, "local": local, "horizon": hz, "seed": 1, "config": cfg, "events": events, "procs": procs, "poll": 0.4,
            "free": [n for n in jobs if n != "h"]}


def strategy(tier):
    return plans(tier)


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["schedule", "early", "late", "held", "record", "reload"])
        seen = {}
        for e in tr.events:
            if e["ev"] in ("trigger", "gone"):
                seen.setdefault(e["id"], {})[e["ev"]] = e["t"]
        lines = [x for x in tr.err.splitlines() if re.match(r"(ERROR|WARNING|CRITICAL)", x)]
        odd = len([e for e in plan["events"] if e["do"] == "config"])
        checked = 0
        for e in plan["events"]:
            if e["do"] != "trigger":
                continue
            v = verdict(e["fmt"], e["content"])
            if v != "valid":
                odd += 1
            s = seen.get(e["id"], {})
            checked += 1
            what = "trigger.%s of job %s with content %r (%s)" % (e["fmt"], e["job"], e["content"][:200], v)
            core.check("gone" in s and s["gone"] <= s["trigger"] + model.NOTICE + model.LATE,
                       "{} was not deleted in time ({})\n{}", what, s, sim.timeline(tr))
            starts = [x for x in tr.starts if x["job"] == e["job"] and x["type"] == "file"] if e["job"] != "h" else [
                x for x in tr.starts if x["job"] == "h" and x["type"] != "schedule"]
            if e["job"] == "h":
                core.check(not starts, "{} led to a run\n{}", what, sim.timeline(tr))
            elif v == "valid":
                core.check(len(starts) == 1, "{} led to {} runs\n{}\n{}", what, len(starts), sim.timeline(tr), tr.err[-1500:])
            elif v == "invalid":
                core.check(not starts, "{} led to a run\n{}", what, sim.timeline(tr))
            else:
                core.check(len(starts) <= 1, "{} led to {} runs\n{}", what, len(starts), sim.timeline(tr))
            if v == "invalid":
                pat = re.compile(r"(?<![\w])%s(?!\w)" % re.escape(e["job"]))
                core.check(any(pat.search(x) for x in lines), "{} was dropped silently; log:\n{}", what, tr.err[-1500:])
        for p in plan["procs"]["h"]:
            odd += any(parse(fn.rsplit(".", 1)[1], t)[0] != "ok" for fn, t in (p.get("files") or {}).items())
    return {"nontrivial": odd, "checked": checked + len(tr.starts),
            "classes": [verdict(e["fmt"], e["content"]) for e in plan["events"] if e["do"] == "trigger"] + (["bad-config"] if any(e["do"] == "config" for e in plan["events"]) else [])}
