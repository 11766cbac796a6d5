"""Scenarios for the simulated daemon."""
import datetime as dt
import shlex

from hypothesis import strategies as st

import gens
from refcron import Cron, UTC, change_after, open_in_change, zone

# days far from any DST change of the zones used
BASES = [1612915200, 1686787200, 1733356800, 1909267200, 1709164800, 1703980800]
LOCALS = ["UTC", "UTC", "UTC", "America/New_York", "Europe/Berlin", "Asia/Kathmandu", "America/St_Johns", "Pacific/Auckland"]
NAMES = ["a", "b", "c", "job 1", "x.y-z", "A:b@c+d", "_9", "e", "f", "Build", "nightly-backup", "q", "r2", "0"]
GROUPS = ["g", "h", "g 2", "G"]


def pct(draw, p):
    return draw(st.integers(0, 99)) >= 100 - p


@st.composite
def starts(draw):
    b = draw(st.sampled_from(BASES))
    s = draw(st.one_of(gens.uniform(0, 86399), st.integers(0, 23).map(lambda h: h * 3600 + 3300), gens.uniform(0, 1439).map(lambda m: m * 60)))
    f = draw(st.one_of(st.just(0), gens.uniform(0, 999999)))
    return b + s + f / 1e6


@st.composite
def schedule(draw, start, tzname, horizon):
    """A schedule which comes due now and then."""
    k = draw(st.integers(0, 9))
    if k < 3:
        return "* * * * *"
    if k < 5:
        return "*/%d * * * *" % draw(st.integers(2, 7))
    if k < 6:
        a = draw(st.integers(0, 50))
        return "%d-%d/%d * * * *" % (a, 59, draw(st.integers(1, 9)))
    if k < 8:
        secs = sorted(draw(st.sets(st.integers(0, 59), min_size=1, max_size=3)))
        s = ",".join(map(str, secs))
        if draw(st.booleans()):
            s = "*/%d" % draw(st.sampled_from([5, 10, 15, 20, 30, 2]))
        return "* * * * * %s" % s
    if k < 9:
        mins = sorted(draw(st.sets(st.integers(0, 59), min_size=2, max_size=12)))
        return "%s * * * *" % ",".join(map(str, mins))
    # once, at a wall-clock time in the job's zone
    t = start + draw(gens.wide(1, max(1, horizon // 2)))
    w = dt.datetime.fromtimestamp(t, UTC).astimezone(zone(tzname))
    return "%d %d %s * %s" % (w.minute, w.hour, draw(st.sampled_from(["*", str(w.day)])), draw(st.sampled_from(["*", "*", str(w.isoweekday() % 7)])))


@st.composite
def job(draw, o, start, local, horizon, sched=None):
    j = {"command": draw(st.sampled_from([["true"], ["/bin/echo", "x y"], ["sh", "-c", "exit 3"]]))}
    tz = None
    if pct(draw, o.get("tz", 25)):
        tz = draw(st.sampled_from(["UTC", "Asia/Kolkata", "America/Los_Angeles", "Europe/London", "Asia/Kathmandu"]))
        j["schedule_timezone"] = tz
    if pct(draw, o.get("sched", 80)) if sched is None else sched:
        j["schedule"] = draw(schedule(start, tz or local, horizon))
    if pct(draw, o.get("groups", 0)):
        j["concurrency_groups"] = sorted(draw(st.sets(st.sampled_from(o.get("group_pool", GROUPS)), min_size=1, max_size=2)))
    if pct(draw, o.get("concurrent", 0)):
        j["concurrent_runs"] = True
    if pct(draw, o.get("limits", 0)):
        j["max_execution"] = draw(st.sampled_from([0.5, 1, 3, 10, 10.5, 45, 60, 100, 200.25]))
        if pct(draw, 70):
            j["max_execution_grace"] = draw(st.sampled_from([0, 0.5, 1, 5, 20, 20.75, 59, 61, 90, 150]))
    if pct(draw, o.get("env", 10)):
        j["environment"] = {draw(st.sampled_from(["J", "J", "K"])): draw(st.sampled_from(["1", "2", "x y"]))}
    if pct(draw, o.get("append", 0)):
        j["command_append_run"] = True
        if draw(st.booleans()):
            j["command"] = shlex.join(j["command"])
    return j


@st.composite
def config(draw, o, names, start, local, horizon):
    c = {"jobs": {n: draw(job(o, start, local, horizon)) for n in names}}
    if o.get("groups"):
        c["concurrency_groups"] = {g: draw(st.sampled_from([{"max": 1}, {"max": 1}, {"max": 1}, {"max": 2}, {"max": 2}, {"max": 3}, {"max": 0}])) for g in GROUPS}
        if pct(draw, 25):
            # leave one to its default; it stays configured through this job
            g = draw(st.sampled_from(o.get("group_pool", GROUPS)))
            c["concurrency_groups"].pop(g)
            c["jobs"]["zz-holder"] = {"command": ["true"], "concurrency_groups": [g]}
    if pct(draw, o.get("job_groups", 15)):
        n = draw(st.sampled_from(names))
        g = dict(c["jobs"].pop(n), job_names=[n])
        for m in draw(st.lists(st.sampled_from(["grp1", "grp2"]), max_size=2, unique=True)):
            g["job_names"].append(m)
        c["job_groups"] = {"G1": g}
    if o.get("shutdown"):
        if pct(draw, 50):
            c["shutdown_kill_runs"] = True
            if pct(draw, 60):
                c["shutdown_kill_grace"] = draw(st.sampled_from([1, 5, 10.5, 30, 70, 130]))
        elif pct(draw, 20):
            c["shutdown_kill_grace"] = 3
    return c


@st.composite
def behaviour(draw, o):
    b = {"dur": draw(st.sampled_from(o.get("durs", [0.2, 1, 5, 30, 58, 61, 90, 150, 400])))}
    k = draw(st.integers(0, 9))
    if k < 2:
        b["code"] = draw(st.sampled_from([1, 2, 3, 127, 128, 130, 255]))
    elif k < 3:
        b["sig"] = draw(st.sampled_from([1, 2, 6, 9, 11, 15]))
        if draw(st.booleans()):
            b["core"] = True
    if o.get("limits") or o.get("shutdown"):
        b["term"] = draw(st.sampled_from([None, None, {"delay": 0.1}, {"delay": 3}, {"delay": 30, "code": 0}, {"delay": 0.1, "code": 3}]))
        if b["term"] is None and pct(draw, 40):
            b["dur"] = None
    if pct(draw, o.get("return", 10)):
        b["files"] = {draw(st.sampled_from(["return_data.json", "return_data.yaml"])): draw(
            st.sampled_from(["{}", '{"a": [1, null, "\\u00e9"]}', "3", '"x"', "[", "null"]))}
    return b


@st.composite
def trigger_data(draw, now, local, future=40, env=True):
    d = {}
    if pct(draw, 30):
        d["type"] = draw(st.sampled_from(["git", "x y", "<b>"]))
    if pct(draw, 30):
        d["description"] = draw(gens.text(gens.uni, max_size=10))
    if env and pct(draw, 40):
        d["environment"] = draw(st.dictionaries(st.sampled_from(["T1", "T2", "GIT_COMMIT"]), st.one_of(
            st.sampled_from(["", "v", "a b", "\u00e9\u4e2d", "x=y\n"]), st.integers(-5, 10 ** 9), st.sampled_from([1.5, -0.25])), max_size=3))
        d["environment"] = {k: str(v) if isinstance(v, str) else v for k, v in d["environment"].items()}
    if pct(draw, 20):
        d["extra"] = draw(gens.json_values)
    if pct(draw, future):
        t = now + draw(st.sampled_from([-3600, -10, 0, 1, 30, 59.5, 61, 119, 240, 400]))
        t = round(t, 6)
        k = draw(st.integers(0, 6))
        if k == 0:
            d["schedule_time"] = int(t)
        elif k == 1:
            d["schedule_time"] = t
        else:
            zn = local
            if draw(st.booleans()):
                zn = draw(st.sampled_from(["UTC", "Asia/Kolkata", "America/Los_Angeles", "Europe/London", "Asia/Tokyo"]))
                d["schedule_timezone"] = zn
            w = dt.datetime.fromtimestamp(t, UTC).astimezone(zone(zn))
            if k < 4:
                d["schedule_time"] = w.replace(tzinfo=None).isoformat(sep=draw(st.sampled_from("T ")), timespec=draw(st.sampled_from(["seconds", "microseconds"])))
            elif k < 5:
                d["schedule_time"] = w.astimezone(UTC).replace(tzinfo=None).isoformat(timespec="seconds") + "Z"
            else:
                off = dt.timezone(dt.timedelta(minutes=draw(st.sampled_from([0, 60, -300, 330]))))
                d["schedule_time"] = w.astimezone(off).isoformat(timespec="seconds")
    elif pct(draw, 10):
        d["schedule_timezone"] = draw(st.sampled_from(["UTC", "Asia/Tokyo"]))
    return d


@st.composite
def scenario(draw, **o):
    if o.get("groups"):
        o = dict(o, group_pool=GROUPS[:draw(st.sampled_from([1, 2, 2, 4]))])
    local = draw(st.sampled_from(LOCALS))
    start = draw(starts())
    hz = draw(st.sampled_from(o.get("horizons", [200, 400, 900, 1500])))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=o.get("min_jobs", 1), max_size=o.get("max_jobs", 5), unique=True))
    c = draw(config(o, names, start, local, hz))
    pool = sorted(c["jobs"]) + [n for g in c.get("job_groups", {}).values() for n in g["job_names"]]
    pool = [n for n in pool if n != "zz-holder"]
    plan = {"start": start, "local": local, "horizon": hz, "seed": draw(gens.uniform(0, 999)), "config": c,
            "poll": draw(st.sampled_from([0.2, 0.4, 0.7])), "events": [], "procs": {}}
    for n in pool + ["*"]:
        if n == "*" or pct(draw, 85):
            plan["procs"][n] = draw(st.lists(behaviour(o), min_size=1, max_size=3))
    ev = plan["events"]

    def when():
        return round(draw(st.one_of(gens.wide(0, hz * 100).map(lambda x: x / 100), gens.wide(0, hz // 10).map(lambda x: x * 10.0))), 6)
    for i in range(draw(st.integers(*o["triggers"])) if o.get("triggers") else 0):
        t = when()
        e = {"t": t, "do": "trigger", "job": draw(st.sampled_from(pool)), "id": i, "fmt": draw(st.sampled_from(["json", "json", "yaml"])),
             "data": draw(trigger_data(start + t, local, o.get("future", 40)))}
        if pct(draw, 15):
            e["mtime"] = draw(st.sampled_from([-5000, -1, 20, 90.5]))
        ev.append(e)
        if pct(draw, 50):
            ev.append({"t": round(t + draw(st.sampled_from([0, 0.001, 1, 20])), 6), "do": "signal", "sig": "SIGUSR1"})
        if pct(draw, 15) and e["fmt"] == "json":
            ev.append(dict(e, fmt="yaml", id=i + 1000, data=draw(trigger_data(start + t, local, 10)), t=round(t + draw(st.sampled_from([0, 5])), 6)))
    for i in range(draw(st.integers(*o["reloads"])) if o.get("reloads") else 0):
        t = when()
        if pct(draw, 80):
            ev.append({"t": t, "do": "config", "config": draw(reconfig(o, plan, names, start, local, hz))})
        for k in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            ev.append({"t": round(t + draw(st.sampled_from([0, 0.01, 0.5, 3])), 6), "do": "signal", "sig": "SIGHUP"})
        if pct(draw, o.get("status", 10)):
            ev.append({"t": round(t + draw(st.sampled_from([0.01, 3, 3, 10])), 6), "do": "signal", "sig": "SIGQUIT"})
    for i in range(draw(st.integers(*o["stalls"])) if o.get("stalls") else 0):
        ev.append({"t": when(), "do": "stall", "for": draw(st.sampled_from([3, 20, 70, 200, 400]))})
    for i in range(draw(st.integers(*o["noise"])) if o.get("noise") else 0):
        ev.append({"t": when(), "do": "signal", "sig": draw(st.sampled_from(["SIGUSR1", "SIGQUIT", ["SIGUSR1", "SIGQUIT", "SIGUSR1"]]))})
    if o.get("shutdown") and pct(draw, o["shutdown"]):
        t = when()
        ev.append({"t": t, "do": "signal", "sig": draw(st.sampled_from(["SIGTERM", "SIGINT"]))})
        if pct(draw, 40):
            # more of them, possibly at regular intervals
            gap = draw(st.sampled_from([0, 2, 7, 25, 40]))
            for i in range(draw(st.sampled_from([1, 1, 2, 5, 12]))):
                ev.append({"t": round(t + gap * (i + 1), 6), "do": "signal", "sig": draw(st.sampled_from(["SIGTERM", "SIGINT", "SIGTERM", "SIGINT", "SIGUSR1", "SIGQUIT"]))})
        ev[:] = [e for e in ev if not (e["do"] == "config" and e["t"] >= t - 3) and not (e["do"] == "signal" and e["sig"] == "SIGHUP" and e["t"] >= t - 3 and e["t"] <= t)]
    ev.sort(key=lambda e: e["t"])
    return plan


@st.composite
def reconfig(draw, o, plan, names, start, local, hz):
    """A configuration derived from the first one."""
    import copy
    k = draw(st.integers(0, 9))
    if k == 0:
        return copy.deepcopy(plan["config"])
    if k == 1 and not o.get("groups"):
        return draw(config(o, names, start, local, hz))
    c = copy.deepcopy(plan["config"])
    js = c["jobs"]
    for _ in range(draw(st.integers(1, 4))):
        live = [n for n in sorted(js) if n != "zz-holder"]
        op = draw(st.sampled_from((["max"] * 6 if "concurrency_groups" in c and pct(draw, 50) else []) + ["remove", "add", "schedule", "concurrent", "groups", "limits", "command", "max", "group_job", "env", "append"]))
        if op == "add":
            js[draw(st.sampled_from(NAMES[:8]))] = draw(job(o, start, local, hz))
            for g in c.get("job_groups", {}).values():
                g["job_names"] = [n for n in g["job_names"] if n not in js] or ["grp1"]
        elif op == "max" and "concurrency_groups" in c:
            for g in sorted(c["concurrency_groups"]):
                if draw(st.booleans()):
                    c["concurrency_groups"][g] = {"max": draw(st.sampled_from([1, 1, 2, 3, 0]))}
        elif op == "group_job" and c.get("job_groups"):
            g = c["job_groups"]["G1"]
            new = draw(job(o, start, local, hz))
            c["job_groups"]["G1"] = dict(new, job_names=g["job_names"])
        elif live:
            n = draw(st.sampled_from(live))
            if op == "remove":
                del js[n]
            elif op == "schedule":
                js[n].pop("schedule", None)
                if pct(draw, 80):
                    js[n]["schedule"] = draw(schedule(start, js[n].get("schedule_timezone", local), hz))
            elif op == "concurrent" and o.get("concurrent"):
                if not js[n].pop("concurrent_runs", False):
                    js[n]["concurrent_runs"] = True
            elif op == "groups" and o.get("groups"):
                js[n].pop("concurrency_groups", None)
                if pct(draw, 80):
                    js[n]["concurrency_groups"] = sorted(draw(st.sets(st.sampled_from(o.get("group_pool", GROUPS)), min_size=1, max_size=2)))
            elif op == "limits" and o.get("limits"):
                js[n].pop("max_execution", None)
                js[n].pop("max_execution_grace", None)
                if pct(draw, 70):
                    js[n]["max_execution"] = draw(st.sampled_from([0.5, 3, 10, 45, 200]))
                    js[n]["max_execution_grace"] = draw(st.sampled_from([1, 20, 90, 0]))
            elif op == "command":
                js[n]["command"] = ["new-command", str(draw(st.integers(0, 9)))]
            elif op == "env" and o.get("env"):
                where = draw(st.sampled_from([js[n], c]))
                where.pop("environment", None)
                if pct(draw, 70):
                    where["environment"] = {draw(st.sampled_from(["J", "K"])): draw(st.sampled_from(["3", "4"]))}
            elif op == "append" and o.get("append"):
                if not js[n].pop("command_append_run", False):
                    js[n]["command_append_run"] = True
    return c


DST = ["America/New_York", "America/Los_Angeles", "Europe/Berlin", "Europe/London", "America/St_Johns", "Pacific/Auckland", "Pacific/Chatham",
       "Australia/Sydney", "America/Santiago", "Atlantic/Azores"]


@st.composite
def across_change(draw):
    """Hours around a change of a zone's UTC offset; schedules of certain hours do not touch those near the times skipped or repeated."""
    local = draw(st.sampled_from(DST + ["UTC", "Asia/Kolkata"]))
    zones = [local, local] + draw(st.lists(st.sampled_from(DST + ["UTC"]), max_size=2))
    around = draw(st.sampled_from([z for z in zones if z in DST] or [draw(st.sampled_from(DST))]))
    if around not in zones:
        zones.append(around)
    change = change_after(around, draw(st.sampled_from(BASES)) + draw(st.sampled_from([0, 150 * 86400])))
    start = change - draw(st.one_of(st.integers(0, 20 * 60), st.integers(0, 600))) * 60 + draw(gens.uniform(0, 59)) + draw(st.sampled_from([0.0, 0.25, 0.999]))
    hz = max(0, change - start) + 60 * draw(st.one_of(st.integers(100, 400), st.integers(100, 1500)))
    lo, hi = (dt.datetime.fromtimestamp(x, UTC) for x in (start - 86400, start + hz + 3 * 86400))
    c = {"jobs": {}}
    for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True)):
        z = draw(st.sampled_from(zones))
        j = c["jobs"][n] = {"command": ["true"]}
        if z != local or draw(st.integers(0, 4)) == 0:
            j["schedule_timezone"] = z
        m = draw(st.sampled_from(["0", "30", "59", "7,37", "*/20", "5", "*/45"]))
        free = [h for h in range(24) if not open_in_change(Cron([m, str(h), "*", "*", "*", "0"]), z, lo, hi)]
        hours = draw(st.sampled_from([free, free, None])) or sorted(draw(st.sets(st.sampled_from(free), min_size=1, max_size=6)))
        j["schedule"] = "%s %s * * *" % (m, ",".join(map(str, hours)))
        if draw(st.integers(0, 2)) == 0:
            # all through the change
            j["schedule"] = draw(st.sampled_from(["*/7 * * * *", "30 * * * *", "0 * * * *", "5,50 * * * *", "*/20 * * * *"]))
        if draw(st.integers(0, 5)) == 0:
            j["schedule"] += " %d" % draw(st.integers(0, 59))
    plan = {"start": start, "local": local, "horizon": hz, "seed": draw(gens.uniform(0, 999)), "config": c, "poll": 0.7, "events": [], "procs": {}}
    for n in sorted(c["jobs"]) + ["*"]:
        plan["procs"][n] = [{"dur": draw(st.sampled_from([0.2, 5, 61, 400]))}]
    for i in range(draw(st.integers(0, 2))):
        # a trigger which asks for a wall-clock time
        t = draw(st.integers(0, int(hz) // 60)) * 60.0
        w = draw(st.integers(int(t) // 60, int(hz) // 60)) * 60.0
        z = draw(st.sampled_from(zones))
        d = {}
        if z != local or draw(st.booleans()):
            d["schedule_timezone"] = z
        w = dt.datetime.fromtimestamp(start + w, UTC).astimezone(zone(z)).replace(tzinfo=None, fold=0, microsecond=0)
        if open_in_change(Cron([str(w.minute), str(w.hour), str(w.day), str(w.month), "*", "0"]), z, lo, hi):
            continue
        d["schedule_time"] = w.isoformat()
        plan["events"].append({"t": t, "do": "trigger", "job": draw(st.sampled_from(sorted(c["jobs"]))), "id": i, "fmt": "json", "data": d})
    if draw(st.integers(0, 2)) == 0:
        plan["events"].append({"t": draw(st.integers(0, int(hz))) + 0.5, "do": "signal", "sig": draw(st.sampled_from(["SIGHUP", "SIGUSR1"]))})
    if draw(st.integers(0, 3)) == 0:
        plan["events"].append({"t": draw(st.integers(0, int(hz))) + 0.5, "do": "stall", "for": draw(st.sampled_from([70, 4000, 9000]))})
    plan["events"].sort(key=lambda e: e["t"])
    return plan
