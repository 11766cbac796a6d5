"""Configurations: generators, the documented meaning (model), and what the code made of them."""
import copy
import datetime as dt
import json
import os

from hypothesis import strategies as st

import gens

NAMES = ["a", "b", "job 1", "x.y:z@k+_-"]
GROUPS = ["g", "h", "Group-2"]
SCHEDULES = ["* * * * *", "*/5 2-6 * * mon,fri", "H H * * *", "@daily", "H/10 * * * * H", "0 12 1 1 * 30", "H(0-29)/5 1 * * 0",
             "RRULE:FREQ=DAILY;BYHOUR=3", "RRULE:FREQ=HOURLY;INTERVAL=6", "RRULE:FREQ=DAILY;UNTIL=20100101T000000Z", "@hourly", "15 2,3 * feb *"]
UTC = dt.timezone.utc


@st.composite
def words_quoted(draw):
    """(argument vector, a POSIX shell command line for it)"""
    words, parts = [], []
    for _ in range(draw(st.integers(1, 4))):
        w, p = "", ""
        for _ in range(draw(st.integers(1, 3))):
            style = draw(st.sampled_from(["plain", "single", "double", "escaped"]))
            if style == "plain":
                t = draw(gens.text(st.sampled_from("abcXYZ012_-./=:,%+@"), min_size=1, max_size=6))
                p += t
            elif style == "single":
                t = draw(gens.text(st.sampled_from("ab \"\\#;&|<>$`\t\né"), max_size=6))
                p += "'" + t + "'"
            elif style == "double":
                t = draw(gens.text(st.sampled_from("ab '#;&|<>\tué\"\\"), max_size=6))
                p += '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'
            else:
                t = draw(st.sampled_from([" ", "'", '"', "\\", ";", "&", "a"]))
                p += "\\" + t
            w += t
        words.append(w)
        parts.append(p)
    return words, draw(st.sampled_from(["", " "])) + draw(st.sampled_from([" ", "  ", "\t"])).join(parts)


arg = st.one_of(gens.text(gens.uni, max_size=10), st.sampled_from(["true", "-c", "a b", "*", "$X", "12", ""]))
commands = st.lists(arg, min_size=1, max_size=4)
seconds = st.one_of(st.integers(0, 10 ** 6), st.floats(0, 1e6, allow_nan=False))


def option(draw, d, k, s, p=3):
    if draw(st.integers(0, p - 1)) == 0:
        d[k] = draw(s)


@st.composite
def jobs(draw, command=True, groups=GROUPS):
    j = {}
    if command:
        if draw(st.booleans()):
            j["command"] = draw(commands)
        else:
            j["x_words"], j["command"] = draw(words_quoted())
    option(draw, j, "schedule", st.one_of(st.none(), st.sampled_from(SCHEDULES), st.sampled_from(SCHEDULES), st.lists(gens.cron_field(0), min_size=1, max_size=1).map(lambda x: x[0] + " * * * *")), 2)
    option(draw, j, "schedule_timezone", gens.zones)
    option(draw, j, "max_execution", seconds)
    option(draw, j, "max_execution_grace", seconds)
    option(draw, j, "environment", gens.envs)
    for k in ("render_reports", "command_append_run", "jenkins_environment", "concurrent_runs"):
        option(draw, j, k, st.booleans(), 4)
    option(draw, j, "job_group", st.one_of(st.sampled_from(["jg", ""]), gens.env_text), 6)
    option(draw, j, "concurrency_groups", st.lists(st.sampled_from(groups), max_size=3, unique=True))
    option(draw, j, "x_unknown", gens.json_values, 8)
    return j


@st.composite
def configs(draw, partial=False):
    """A valid configuration ($D stands for the case's directory)."""
    c = {}
    option(draw, c, "data_dir", st.sampled_from(["$D/data", "$D/other data/x"]), 2)
    option(draw, c, "template_dir", st.just("$D/templates"), 6)
    option(draw, c, "report_html_gz", st.booleans(), 6)
    option(draw, c, "report_run_output_start", st.integers(0, 10 ** 6), 6)
    option(draw, c, "report_run_output_end", st.integers(0, 10 ** 6), 6)
    option(draw, c, "shutdown_kill_runs", st.booleans(), 6)
    option(draw, c, "shutdown_kill_grace", seconds, 4)
    option(draw, c, "environment", gens.envs)
    option(draw, c, "database", st.sampled_from([{"type": "sqlite3"}, {"type": "sqlite3", "file": "$D/db/x.sqlite3"}, {"file": "$D/y.sqlite3"}, {"type": "sqlite3", "file": None}, {}]), 4)
    option(draw, c, "concurrency_groups", st.dictionaries(st.one_of(st.sampled_from(GROUPS), gens.names), st.one_of(st.just({}), st.builds(lambda m: {"max": m}, st.integers(0, 9)), st.builds(lambda m: {"max": m, "x": 1}, st.integers(0, 9))), max_size=3), 2)
    names = draw(st.lists(st.one_of(st.sampled_from(NAMES), gens.job_names), max_size=4, unique=True))
    k = draw(st.integers(0, len(names)))
    if names[:k] or draw(st.booleans()):
        c["jobs"] = {n: draw(jobs(command=not partial or draw(st.booleans()))) for n in names[:k]}
    rest = names[k:]
    if rest:
        cut = draw(st.integers(0, len(rest)))
        c["job_groups"] = {}
        for gname, members in (("grp one", rest[:cut]), ("grp2", rest[cut:])):
            if members:
                c["job_groups"][gname] = dict(draw(jobs()), job_names=members)
    option(draw, c, "x_unknown", gens.json_values, 6)
    return c


def place(v, d):
    """Replace $D by the directory d everywhere."""
    if isinstance(v, str):
        return d + v[2:] if v.startswith("$D") else v
    if isinstance(v, list):
        return [place(x, d) for x in v]
    if isinstance(v, dict):
        return {k: place(x, d) for k, x in v.items()}
    return v


def write(path, value, style=0):
    import yaml
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        if path.endswith(".json"):
            json.dump(value, f, ensure_ascii=bool(style % 2), indent=[None, 1][style // 2 % 2])
        else:
            def text(u):
                return yaml.dump(value, Dumper=yaml.CSafeDumper, default_flow_style=[None, True, False][style % 3], allow_unicode=u, sort_keys=bool(style // 2 % 2))
            t = text(bool(style % 2))
            if any(ch in t for ch in "\x85\u2028\u2029\ufeff") or any(0x7f <= ord(ch) < 0xa0 for ch in t):
                t = text(False)
            f.write(t)


# ---- the documented meaning ----
def merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = merge(a[k], v) if k in a else v
        return out
    return b


def offsets(name):
    import zoneinfo
    z = zoneinfo.ZoneInfo(name)
    return [dt.datetime.fromtimestamp(t, z).utcoffset().total_seconds() for t in INSTANTS]


INSTANTS = [1704110400, 1720008000, 1735992000, 1783080000]


def env(e):
    return {k: v if isinstance(v, str) else str(v) for k, v in e.items()}


def meaning(c, local):
    """What an accepted configuration means, from the documentation."""
    import dsari.config
    m = {
        "base": {
            "data_dir": c.get("data_dir", dsari.config.DEFAULT_DATA_DIR), "template_dir": c.get("template_dir"),
            "report_html_gz": c.get("report_html_gz", False), "report_run_output_start": c.get("report_run_output_start", 0),
            "report_run_output_end": c.get("report_run_output_end", 0), "shutdown_kill_runs": c.get("shutdown_kill_runs", False),
            "shutdown_kill_grace": us(c.get("shutdown_kill_grace")), "environment": env(c.get("environment", {})),
            "database": dbase(c.get("database", {})),
        },
        "groups": {n: g.get("max", 1) for n, g in c.get("concurrency_groups", {}).items()},
        "jobs": {},
    }
    all_jobs = dict(c.get("jobs", {}))
    for gname, g in c.get("job_groups", {}).items():
        for n in g["job_names"]:
            all_jobs[n] = dict(g, job_group=gname)
    for n, j in all_jobs.items():
        tz = j.get("schedule_timezone") or local
        m["jobs"][n] = {
            "command": j["x_words"] if isinstance(j["command"], str) else j["command"],
            "schedule": j.get("schedule"), "tz": offsets(tz), "max_execution": us(j.get("max_execution")),
            "max_execution_grace": us(j.get("max_execution_grace", 60)), "environment": env(j.get("environment", {})),
            "render_reports": j.get("render_reports", True), "command_append_run": j.get("command_append_run", False),
            "jenkins_environment": j.get("jenkins_environment", False), "job_group": j.get("job_group"),
            "concurrent_runs": j.get("concurrent_runs", False), "concurrency_groups": sorted(j.get("concurrency_groups", [])),
        }
        for g in j.get("concurrency_groups", []):
            m["groups"].setdefault(g, 1)
    return m


def us(sec):
    return None if sec is None else dt.timedelta(seconds=sec) // dt.timedelta(microseconds=1)


def dbase(d):
    d = dict(d)
    d.setdefault("type", "sqlite3")
    d.setdefault("file", None)
    return d


# ---- what the code made of it ----
def describe(config):
    def td(x):
        return None if x is None else x // dt.timedelta(microseconds=1)
    d = {"base": {k: getattr(config, k) for k in ("data_dir", "template_dir", "report_html_gz", "report_run_output_start",
                                                   "report_run_output_end", "shutdown_kill_runs", "environment")},
         "groups": {n: g.max for n, g in config.concurrency_groups.items()}, "jobs": {}}
    d["base"]["shutdown_kill_grace"] = td(config.shutdown_kill_grace)
    d["base"]["database"] = dbase(config.database)
    for n, g in config.concurrency_groups.items():
        assert g.name == n
    for n, j in config.jobs.items():
        d["jobs"][n] = {k: getattr(j, k) for k in ("command", "schedule", "environment", "render_reports", "command_append_run",
                                                   "jenkins_environment", "job_group", "concurrent_runs")}
        d["jobs"][n]["name"] = j.name
        d["jobs"][n]["max_execution"] = td(j.max_execution)
        d["jobs"][n]["max_execution_grace"] = td(j.max_execution_grace)
        d["jobs"][n]["concurrency_groups"] = sorted(g.name for g in j.concurrency_groups)
        d["jobs"][n]["tz"] = [dt.datetime.fromtimestamp(t, j.schedule_timezone).utcoffset().total_seconds() for t in INSTANTS]
    return copy.deepcopy(d)


def schedules(config):
    """Next run times of all jobs from several instants."""
    from dsari.utils import get_next_schedule_time
    out = {}
    for n, j in config.jobs.items():
        if j.schedule:
            for t in INSTANTS[:2]:
                ref = dt.datetime.fromtimestamp(t, UTC).astimezone(j.schedule_timezone)
                v = get_next_schedule_time(j.schedule, j.name, start_time=ref)
                out["%s %d" % (n, t)] = None if v is None else v.timestamp()
    return out


def diff(a, b, path=""):
    """First difference of two JSON-like values, as text, or None; types matter."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s/%s only in %s" % (path, k, "the second" if k not in a else "the first")
            r = diff(a[k], b[k], "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r / %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if type(a) is not type(b) or a != b:
        return "%s: %r / %r" % (path, a, b)
    return None


def load(path):
    """('ok', Config) or ('rejected', message)."""
    from dsari import config
    try:
        return "ok", config.get_config(path)
    except config.ConfigError as e:
        return "rejected", str(e)
