"""C22: dsari-info reports exactly what is configured and recorded."""
import datetime as dt
import io
import json
import os
import re
import shlex
import sqlite3
import sys

import yaml
from hypothesis import strategies as st

import confgen
import core
import gens
import history
from core import check

QUICK, THOROUGH = 150, 900
TECHNIQUE = "property-based testing: the dsari-info main on generated configurations and histories, every output format parsed back and compared with what was recorded; runs finishing between its database statements"
LEVEL_NOTE = ("Randomised search with shrinking. The history is recorded through dsari's own database interface, which C20 judges; next run times are compared "
              "with get_next_schedule_time, which C01 to C03 judge.")
RULE = "case = configuration x up to 12 recorded runs (completed, in progress, of unconfigured jobs) x up to 8 invocations; non-trivial = at least two runs, or two jobs, were to be listed"
ASSUMPTIONS = ["schedules and commands contain no line breaks or tabs where tabular or pretty output is judged", "not both --job and --run are given"]


@st.composite
def plans(draw, tier):
    c = draw(confgen.configs())
    c.pop("database", None)
    c["data_dir"] = "$D/var"
    now = draw(st.sampled_from(history.NOWS)) + draw(gens.uniform(0, 86400))
    for j in list(c.get("jobs", {}).values()) + list(c.get("job_groups", {}).values()):
        if draw(st.integers(0, 3)) == 0:
            # a wall-clock time in a zone of its own
            j["schedule"] = draw(st.sampled_from(["30 %d * * *", "0 %d * * * 5", "H %d * * *", "RRULE:FREQ=DAILY;BYHOUR=%d"])) % draw(st.integers(0, 23))
            j["schedule_timezone"] = draw(gens.zones)
    names = sorted(set(c.get("jobs", {})) | {n for g in c.get("job_groups", {}).values() for n in g["job_names"]})
    rs = draw(history.runs(now, (names or ["a"]) * 2 + history.UNKNOWN))
    calls = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["runs", "runs", "jobs", "output", "tail", "check"]))
        fmt = draw(st.sampled_from(["pretty", "tabular", "json", "yaml", None]))
        if k == "runs":
            sel = draw(st.sampled_from(["none", "none", "job", "run"]))
            vals = []
            if sel == "job":
                vals = draw(st.lists(st.sampled_from(names + history.UNKNOWN + ["other"]), min_size=1, max_size=3))
            if sel == "run":
                vals = draw(st.lists(st.sampled_from([r["id"] for r in rs] + ["nosuch"]), min_size=1, max_size=4))
            calls.append({"what": k, "format": fmt, "sel": sel if vals else "none", "vals": vals})
        elif k == "jobs":
            vals = draw(st.lists(st.sampled_from(names + ["other"]), max_size=3))
            calls.append({"what": k, "format": fmt, "vals": vals})
        elif k == "output":
            calls.append({"what": k, "id": draw(st.sampled_from([r["id"] for r in rs] * 5 + ["nosuch"]))})
        elif k == "tail":
            calls.append({"what": k, "vals": draw(st.lists(st.sampled_from([r["id"] for r in rs] + ["nosuch"]), max_size=3))})
        else:
            calls.append({"what": k})
        if k in ("runs", "output") and draw(st.integers(0, 2)) == 0:
            # some runs end while the command runs, before its n-th database statement from then on
            calls[-1]["finish"] = {"n": draw(st.sampled_from([1, 2, 3, 4, 4, 4, 5, 6])), "count": draw(st.integers(1, 2))}
            live = [r["id"] for r in rs if not r["done"]]
            if k == "output" and live:
                calls[-1]["id"] = live[0]
        if k in ("runs", "jobs") and draw(st.integers(0, 3)) == 0:
            calls[-1]["tty"] = True
    return {"config": c, "now": now, "runs": rs, "calls": calls, "local": draw(gens.local_zones), "style": draw(st.integers(0, 3))}


def strategy(tier):
    return plans(tier)


class TTY(io.TextIOWrapper):
    def isatty(self):
        return True


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def info(argv, now, finish=None, tty=False):
    """Runs in a child."""
    import time
    if tty:
        os.environ.update(PAGER="cat", COLUMNS="1000000")
        sys.stdout = TTY(open(1, "wb", closefd=False), encoding="utf-8")

    def execvp(file, args):
        print("EXEC " + json.dumps([file, list(args)]))
        sys.exit(77)

    def sleep(t):
        sys.exit(78)
    os.execvp, time.sleep = execvp, sleep
    if finish:
        real, n = sqlite3.connect, [0]

        class Conn(sqlite3.Connection):
            def cursor(self, *a, **kw):
                return sqlite3.Connection.cursor(self, Cur)

            def execute(self, *a, **kw):
                return self.cursor().execute(*a, **kw)

        class Cur(sqlite3.Cursor):
            def execute(self, *a, **kw):
                n[0] += 1
                if n[0] == finish["n"]:
                    other = real(finish["file"])
                    other.executescript(finish["sql"])
                    other.close()
                return sqlite3.Cursor.execute(self, *a, **kw)

        def connect(*a, **kw):
            kw.setdefault("factory", Conn)
            return real(*a, **kw)
        sqlite3.connect = connect
    core.vt_enable(now)
    try:
        return core.run_main("dsari.info", argv)
    finally:
        sys.stdout.flush()


def table(text):
    """Rows of pretty output: the line of dashes tells the columns."""
    lines = text.split("\n")
    check(len(lines) >= 3 and lines[-1] == "", "output is no table: {!r}", text[:500])
    cols, pos = [], 0
    for dash in lines[1].split("   "):
        check(dash and not dash.strip("-\u2500"), "no line of dashes: {!r}", text[:500])
        cols.append((pos, pos + len(dash)))
        pos += len(dash) + 3
    head = [lines[0][a:b].strip() for a, b in cols]
    rows = []
    for ln in lines[2:-1]:
        rows.append([ln[a:(None if i == len(cols) - 1 else b)].rstrip(" ") for i, (a, b) in enumerate(cols)])
    return head, rows


def approx(text, want):
    """A duration as printed, compared with a timedelta (2 s are allowed)."""
    m = re.fullmatch(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)", text)
    if not m:
        return False
    got = int(m.group(1) or 0) * 86400 + int(m.group(2)) * 3600 + int(m.group(3)) * 60 + float(m.group(4))
    return abs(got - want.total_seconds()) <= 2


def run(plan):
    core.set_tz(plan["local"])
    big = 0
    try:
        with core.TempDir() as d:
            c = confgen.place(plan["config"], d)
            confgen.write(d + "/etc/dsari.json", c, plan["style"])
            mean = confgen.meaning(c, plan["local"])
            runs = json.loads(json.dumps(plan["runs"]))
            history.record(d + "/etc", d + "/var", runs)
            classes = set()
            for i, call in enumerate(plan["calls"]):
                finished = []
                fin = None
                if call.get("finish"):
                    finished = [r for r in runs if not r["done"]][:call["finish"]["count"]]
                    sql = ""
                    for r in finished:
                        vals = [r["job"], r["id"], r["schedule"] / 1e6, r["start"] / 1e6, r["stop"] / 1e6, r["code"], r["type"], json.dumps(r["tdata"]), json.dumps(r["rdata"])]
                        sql += "begin; insert into runs (job_name, run_id, schedule_time, start_time, stop_time, exit_code, trigger_type, trigger_data, run_data) values (%s); delete from runs_running where run_id = '%s'; commit;" % (
                            ", ".join(repr(v) if isinstance(v, (int, float)) else "'" + v.replace("'", "''") + "'" for v in vals), r["id"])
                    fin = {"n": call["finish"]["n"], "file": d + "/var/dsari.sqlite3", "sql": sql}

                def go(*args):
                    argv = ["-c", d + "/etc"] + list(args)
                    return argv, core.isolate(info, argv, plan["now"], fin if finished else None, call.get("tty", False))
                try:
                    big += judge(call, go, d, mean, runs, finished, plan, classes)
                except core.Violation as e:
                    raise core.Violation("call %d, %s: %s" % (i, json.dumps(call), e))
                classes.add(call["what"] + "-" + str(call.get("format")))
                if finished:
                    classes.add("finishing")
                    # did it happen?
                    con = sqlite3.connect(d + "/var/dsari.sqlite3")
                    done = {x[0] for x in con.execute("select run_id from runs")}
                    con.close()
                    for r in runs:
                        r["done"] = r["id"] in done
    finally:
        core.set_tz("UTC")
    return {"nontrivial": big >= 2, "checked": len(plan["calls"]), "classes": sorted(classes)}


def judge(call, go, d, mean, runs, finished, plan, classes):
    what = call["what"]
    fmt = call.get("format") or "pretty"
    fargs = ["--format", call["format"]] if call.get("format") else []
    if what == "check":
        argv, r = go("config", "check")
        core.ok(r, "config check")
        return 0
    if what == "runs":
        argv, r = go("run", "list", *fargs, *["--%s=%s" % (call["sel"], v) for v in call["vals"]])
        core.ok(r, " ".join(argv))
        key = {"job": "job", "run": "id"}.get(call["sel"])
        want = {x["id"]: x for x in runs if key is None or x[key] in call["vals"]}
        judge_runs(fmt, text(r, call), want, {x["id"] for x in finished}, plan)
        return len(want)
    if what == "jobs":
        argv, r = go("job", "list", *fargs, *["--job=" + v for v in call["vals"]])
        core.ok(r, " ".join(argv))
        want = {n: j for n, j in mean["jobs"].items() if not call["vals"] or n in call["vals"]}
        judge_jobs(fmt, text(r, call), want, plan)
        return len(want)
    if what == "output":
        argv, r = go("run", "output", call["id"])
        rec = [x for x in runs if x["id"] == call["id"]]
        if not rec or rec[0]["out"] is None:
            check(r.kind in ("exit", "ok"), "{}: {}\n{}", " ".join(argv), r.value, r.err.decode(errors="replace")[-800:])
            check(r.out == b"", "{} prints {!r}, but there is no output", " ".join(argv), r.out[:200])
            return 0
        core.ok(r, " ".join(argv))
        want = history.text(rec[0]).encode("utf-8", "replace")
        check(r.out == want, "{} prints {!r} instead of {!r}", " ".join(argv), r.out[:300], want[:300])
        return 1
    argv, r = go("run", "tail", *call["vals"])
    want = {history.out_path(d + "/var", x) for x in runs if not x["done"] and (not call["vals"] or x["id"] in call["vals"]) and x["out"] is not None and x["out"]["form"] == "plain"}
    check(r.kind == "exit" and r.value in (77, 78), "{}: {} {}\n{}", " ".join(argv), r.kind, r.value, r.err.decode(errors="replace")[-800:])
    if not want:
        check(r.value == 78, "{} executes {!r} although there is nothing to follow", " ".join(argv), r.out)
        return 0
    check(r.value == 77, "{} executes nothing, {} are to be followed", " ".join(argv), sorted(want))
    file, args = json.loads(r.out.decode().split("EXEC ", 1)[1])
    files = [a for a in args[1:] if not a.startswith("-")]
    check(sorted(files) == sorted(want), "{} follows {} instead of {}", " ".join(argv), files, sorted(want))
    return 1


def text(r, call):
    t = r.out.decode("utf-8", "surrogateescape")
    return ANSI.sub("", t) if call.get("tty") else t


def parse(fmt, out):
    try:
        return json.loads(out) if fmt == "json" else yaml.safe_load(out)
    except Exception as e:
        raise core.Violation("the output is not %s: %s\n%s" % (fmt, e, out[:800]))


def td(us):
    return dt.timedelta(microseconds=us)


def judge_runs(fmt, out, want, finishing, plan):
    if fmt in ("json", "yaml"):
        val = parse(fmt, out)
        check(isinstance(val, dict) and sorted(val) == sorted(want), "the runs {} are listed instead of {}", sorted(val), sorted(want))
        for i, w in want.items():
            g = val[i]
            done = g.get("stop_time") is not None
            if i not in finishing:
                check(done == w["done"], "run {}: stop_time is {}", i, g.get("stop_time"))
            exp = {"job_name": w["job"], "exit_code": w["code"] if done else None, "trigger_type": w["type"], "trigger_data": w["tdata"], "run_data": w["rdata"] if done else {}}
            for k in exp:
                r = confgen.diff(g.get(k, "missing"), exp[k])
                check(r is None, "run {}: {} is wrong (got / recorded): {}", i, k, r)
            for k, v in (("schedule_time", w["schedule"]), ("start_time", w["start"])) + ((("stop_time", w["stop"]),) if done else ()):
                check(history.instant(g[k]) == v, "run {}: {} is {} instead of {}", i, k, g[k], v)
        return
    if fmt == "tabular":
        rows = [ln.split("\t") for ln in out.split("\n")[:-1]] if out else []
        check(not out or out.endswith("\n"), "the output ends in the middle of a line")
        check(sorted(r[0] for r in rows) == sorted(want), "the runs {} are listed instead of {}", sorted(r[0] for r in rows), sorted(want))
        starts = [want[r[0]]["start"] for r in rows]
        check(starts == sorted(starts), "the runs are not ordered by start time: {}", rows)
        for r in rows:
            w = want[r[0]]
            check(len(r) == 7, "columns: {}", r)
            done = bool(r[6])
            if r[0] not in finishing:
                check(done == w["done"], "run {}: {}", r[0], r)
            check(r[1] == w["job"] and r[2] == (str(w["code"]) if done else "") and r[3] == w["type"], "run {} is listed as {}, recorded as {}", r[0], r, w)
            check([history.instant(x) for x in r[4:6]] == [w["schedule"], w["start"]] and (not done or history.instant(r[6]) == w["stop"]), "run {}: times {}, recorded {}", r[0], r, w)
        return
    head, rows = table(out)
    check(sorted(r[0] for r in rows) == sorted(want), "the runs {} are listed instead of {}", sorted(r[0] for r in rows), sorted(want))
    starts = [want[r[0]]["start"] for r in rows]
    check(starts in (sorted(starts), sorted(starts)[::-1]), "the runs are not ordered by start time: {}", rows)
    now = plan["now"] * 10 ** 6
    for r in rows:
        w, row = want[r[0]], dict(zip(head, r))
        done = row["Exit"] != "..."
        if r[0] not in finishing:
            check(done == w["done"], "run {}: {}", r[0], row)
        check(row["Job"] == w["job"] and row["Exit"] == (str(w["code"]) if done else "...") and row["Type"] == w["type"], "run {} is listed as {}, recorded as {}", r[0], row, w)
        check(history.instant(row["Start Time"]) == w["start"], "run {} is listed as {}, recorded as {}", r[0], row, w)
        if done:
            check(row["Duration"] == str(td(w["stop"] - w["start"])), "run {} is listed as {}, recorded as {}", r[0], row, w)
        else:
            check(approx(row["Duration"], td(now - w["start"])), "run {} is listed as {} at {}, recorded as {}", r[0], row, now, w)
        check(row["Schedule Delay"] == str(td(w["start"] - w["schedule"])), "run {} is listed as {}, recorded as {}", r[0], row, w)


def next_runs(name, j, plan, tzname):
    """The acceptable next run times (instants)."""
    from dsari.utils import get_next_schedule_time
    if not j["schedule"]:
        return [None]
    import dateutil.tz
    out = []
    for t in (plan["now"], plan["now"] + 1):
        ref = dt.datetime.fromtimestamp(t, dt.timezone.utc).astimezone(dateutil.tz.gettz(tzname))
        x = get_next_schedule_time(j["schedule"], name, start_time=ref)
        out.append(None if x is None else history.us(x))
    return out


def judge_jobs(fmt, out, want, plan):
    zones = {}
    c = plan["config"]
    for n, j in list(c.get("jobs", {}).items()) + [(n, g) for g in c.get("job_groups", {}).values() for n in g["job_names"]]:
        zones[n] = j.get("schedule_timezone")

    def next_ok(n, s):
        got = None if not s else history.instant(s)
        ok = next_runs(n, want[n], plan, zones[n] or plan["local"])
        check(got in ok, "job {}: next run {} instead of {} (microseconds)", n, s, ok)
    if fmt in ("json", "yaml"):
        val = parse(fmt, out)
        check(isinstance(val, dict) and sorted(val) == sorted(want), "the jobs {} are listed instead of {}", sorted(val), sorted(want))
        for n, w in want.items():
            g = dict(val[n])
            next_ok(n, g.pop("next_scheduled_run", "missing"))
            for k in ("max_execution", "max_execution_grace"):
                check(confgen.us(g.get(k)) == w[k], "job {}: {} is {!r} instead of {} us", n, k, g.get(k), w[k])
            for k in ("command", "schedule", "environment", "render_reports", "command_append_run", "jenkins_environment", "job_group", "concurrent_runs", "concurrency_groups"):
                r = confgen.diff(g.get(k, "missing"), w[k])
                check(r is None, "job {}: {} is wrong (got / configured): {}", n, k, r)
            check(g.get("schedule_timezone", "missing") == zones[n], "job {}: schedule_timezone is {!r} instead of {!r}", n, g.get("schedule_timezone"), zones[n])
        return
    if any(re.search(r"[\n\r\t\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", "".join(j["command"]) + (j["schedule"] or "")) for j in want.values()):
        return
    if any("\x1b" in "".join(j["command"]) for j in want.values()):
        return
    if fmt == "tabular":
        rows = [ln.split("\t") for ln in out.split("\n")[:-1]] if out else []
        check(all(len(r) == 4 for r in rows), "columns: {}", rows)
    else:
        head, rows = table(out)
        idx = [head.index(x) if x in head else None for x in ("Job Name", "Schedule", "Command", "Next Scheduled Run")]
        check(idx[0] == 0, "columns: {}", head)
        rows = [[r[i] if i is not None else None for i in idx] for r in rows]
        if sum(len(x) for x in max(rows, key=lambda r: len(str(r)), default=[""]) if x) < 150:
            check(None not in idx, "columns: {}", head)
    check([r[0] for r in rows] == sorted(want), "the jobs {} are listed instead of {}", [r[0] for r in rows], sorted(want))
    for n, sched, command, nxt in rows:
        w = want[n]
        check(sched is None or (sched.rstrip(" ") == (w["schedule"] or "").rstrip(" ")), "job {}: schedule {!r} instead of {!r}", n, sched, w["schedule"])
        check(command is None or command.rstrip(" ") == shlex.join(w["command"]).rstrip(" "), "job {}: command {!r} instead of {!r}", n, command, w["command"])
        if nxt is not None:
            next_ok(n, nxt)
