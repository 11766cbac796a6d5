"""Operations on the run history through dsari's database interface, generated and applied; and what they should answer."""
import copy
import datetime as dt
import json
import os

from hypothesis import strategies as st

import core
import gens

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)
NAMES = ["a", "A", "job 1", "x.y@z", "b+c:d", "_", "100", "gone", "gone 2"]
ZONES = ["UTC", "America/New_York", "Asia/Kathmandu", "Europe/London", "Pacific/Auckland"]
CODES = st.one_of(st.sampled_from([0, 0, 0, 1, 2, 127, 128, 137, 255]), st.integers(0, 255))


@st.composite
def times(draw):
    """Microseconds since the epoch."""
    base = draw(st.sampled_from([1612915200, 1686787200, 1733356800, 1699160400, 1710054000, 1711846800, 1729987200, 1, 4102444799]))
    return base * 10 ** 6 + draw(st.one_of(st.sampled_from([0, 1, 999999, 500000, 3600 * 10 ** 6]), gens.uniform(0, 4 * 10 ** 9), gens.uniform(0, 999999)))


@st.composite
def runs(draw, i, close=False):
    r = {"job": draw(st.sampled_from(NAMES)), "id": "%08x-0000-4000-8000-%012x" % (draw(gens.wide(0, 2 ** 32 - 1)), i)}
    if draw(st.booleans()):
        base = draw(times())
        r["schedule"] = base
        r["start"] = base + draw(st.sampled_from([0, 1, 10 ** 6, 123456789]))
        r["stop"] = r["start"] + draw(st.sampled_from([0, 1, 999999, 10 ** 6, 86400 * 10 ** 6, 3600 * 10 ** 6 + 7]))
    else:
        for k in ("schedule", "start", "stop"):
            r[k] = draw(times())
    r["zones"] = [draw(st.sampled_from(ZONES)) for _ in range(3)]
    r["code"] = draw(CODES)
    r["type"] = draw(st.sampled_from(["schedule", "schedule", "file"]))
    r["tdata"] = {} if r["type"] == "schedule" else draw(st.one_of(st.just({}), st.dictionaries(
        st.sampled_from(["environment", "type", "description", "schedule_time", "", "\u00e9", "x'\"y"]), gens.json_values, max_size=3)))
    r["rdata"] = draw(st.sampled_from([{}, {}, {"return_data": None}, {"return_data": {"a": [1, 2.5, "\u4e2d", None, True, {}]}}, {"return_data": "'; DROP TABLE runs; --"},
                                      {"return_data": "%s {} ? \\ \u2028"}]))
    if draw(st.integers(0, 4)) == 0:
        r["rdata"] = {"return_data": draw(gens.json_values)}
    return r


@st.composite
def plans(draw, tier):
    n = draw(st.integers(1, 10 if tier == "quick" else 25))
    rs = [draw(runs(i)) for i in range(n)]
    for i in range(1, n):
        if draw(st.integers(0, 5)) == 0:       # equal or nearly equal stop times
            rs[i]["job"] = rs[i - 1]["job"]
            rs[i]["stop"] = rs[i - 1]["stop"] + draw(st.sampled_from([0, 1, -1]))
    ops = []
    fresh, running, done = list(range(n)), [], []
    for _ in range(draw(st.integers(3, 24 if tier == "quick" else 60))):
        k = draw(st.integers(0, 19))
        if k < 6 and fresh:
            i = fresh.pop(0)
            ops.append(["start", i])
            running.append(i)
        elif k < 12 and running:
            i = running.pop(draw(st.integers(0, len(running) - 1)))
            ops.append(["finish", i])
            done.append(i)
        elif k == 12 and draw(st.integers(0, 2)) == 0:
            ops.append(["clear"])
            done += running        # never recorded; their IDs remain known to queries
            running = []
        elif k <= 13:
            ops.append(["reopen", draw(st.integers(0, 1))])
        elif k < 17:
            ops.append(["runs", draw(st.integers(0, 1)), draw(st.booleans()), draw(selection(rs))])
        else:
            ops.append(["previous", draw(st.integers(0, 1)), draw(st.sampled_from(sorted({r["job"] for r in rs}) + ["other"]))])
    for where in (0, 1):
        ops.append(["runs", where, False, None])
        ops.append(["runs", where, True, None])
    for j in sorted({r["job"] for r in rs})[:3]:
        ops.append(["previous", 0, j])
    return {"runs": rs, "ops": ops, "jobs": draw(st.lists(st.sampled_from([x for x in NAMES if not x.startswith("gone")]), max_size=5, unique=True)),
            "local": draw(st.sampled_from(gens.LOCAL_ZONES)), "writer": draw(st.integers(0, 1)), "initial": draw(st.sampled_from(["none", "none", "none", "no_running"]))}


@st.composite
def selection(draw, rs):
    k = draw(st.integers(0, 3))
    if k == 0:
        return None
    if k == 1:
        return ["jobs", draw(st.lists(st.sampled_from([r["job"] for r in rs] * 2 + NAMES + ["other", "%", "a' OR '1'='1"]), max_size=4))]
    ids = draw(st.lists(st.one_of(st.sampled_from([r["id"] for r in rs]), st.sampled_from(["0", "00000000-0000-4000-8000-000000000000"])), max_size=6))
    return ["ids", ids]


def when(us, zone):
    import dateutil.tz
    return (EPOCH + dt.timedelta(microseconds=us)).astimezone(dateutil.tz.gettz(zone))


def us(t):
    if t is None:
        return None
    if t.tzinfo is None or t.utcoffset() is None:
        return "naive " + t.isoformat()
    return (t - EPOCH) // dt.timedelta(microseconds=1)


def describe(run, completed):
    """What a caller can see of a run."""
    return {"id": run.id, "job": run.job.name, "schedule": us(run.schedule_time), "start": us(run.start_time), "stop": us(run.stop_time), "code": run.exit_code,
            "type": run.trigger_type, "tdata": run.trigger_data, "rdata": run.run_data}


def stored(r, completed):
    return {"id": r["id"], "job": r["job"], "schedule": r["schedule"], "start": r["start"], "stop": r["stop"] if completed else None, "code": r["code"] if completed else None,
            "type": r["type"], "tdata": r["tdata"], "rdata": r["rdata"] if completed else {}}


class Handles:
    """Two users of one database, each with a configuration of its own."""

    def __init__(self, d, plan, database):
        import dsari.config
        import dsari.database
        self.dsari, self.plan = (dsari.config, dsari.database), plan
        self.dirs = []
        for k in (0, 1):
            p = "%s/etc%d" % (d, k)
            if not os.path.isdir(p):
                os.mkdir(p)
                c = {"data_dir": d + "/var", "jobs": {j: {"command": ["true"]} for j in plan["jobs"][: None if k == 0 else 1]}}
                if database is not None:
                    c["database"] = database
                with open(p + "/dsari.json", "w") as f:
                    json.dump(c, f)
            self.dirs.append(p)
        self.h = [None, None]
        self.configs = [None, None]
        for k in (0, 1):
            self.open(k)

    def open(self, k):
        self.close(k)
        self.configs[k] = self.dsari[0].get_config(self.dirs[k])
        self.h[k] = self.dsari[1].get_database(self.configs[k])

    def close(self, k):
        h, self.h[k] = self.h[k], None
        c = getattr(h, "db_conn", None)
        if c is not None:
            c.close()

    def run_object(self, i, completed):
        import dsari
        r = self.plan["runs"][i]
        c = self.configs[self.plan["writer"]]
        run = dsari.Run(c.jobs.get(r["job"]) or dsari.Job(r["job"]), id=r["id"])
        run.schedule_time, run.start_time = when(r["schedule"], r["zones"][0]), when(r["start"], r["zones"][1])
        run.trigger_type, run.trigger_data = r["type"], copy.deepcopy(r["tdata"])
        if completed:
            run.stop_time, run.exit_code, run.run_data = when(r["stop"], r["zones"][2]), r["code"], copy.deepcopy(r["rdata"])
        return run

    def apply(self, op):
        w = self.h[self.plan["writer"]]
        if op[0] == "start":
            return w.insert_running_run(self.run_object(op[1], False)) and None
        if op[0] == "finish":
            return w.insert_run(self.run_object(op[1], True)) and None
        if op[0] == "clear":
            return w.clear_runs_running() and None
        if op[0] == "reopen":
            return self.open(op[1])
        if op[0] == "runs":
            kw = {} if op[3] is None else {{"jobs": "job_names", "ids": "run_ids"}[op[3][0]]: list(op[3][1])}
            rows = self.h[op[1]].get_runs(runs_running=op[2], **kw)
            c = self.configs[op[1]]
            for r in rows:
                # runs of configured jobs are connected with them
                if r.job.name in c.jobs and r.job is not c.jobs[r.job.name]:
                    raise core.Violation("a run of the configured job %s is returned with another job object" % r.job.name)
            return [describe(r, not op[2]) for r in rows]
        if op[0] == "previous":
            import dsari
            c = self.configs[op[1]]
            out = self.h[op[1]].get_previous_runs(c.jobs.get(op[2]) or dsari.Job(op[2]))
            return [None if r is None else describe(r, True) for r in out]
        raise AssertionError(op)


class Reference:
    def __init__(self, plan):
        self.plan = plan
        self.running, self.done = {}, {}

    def check(self, op, got, i):
        """Apply op; compare its answer."""
        def bad(msg, *a):
            raise core.Violation("operation %d, %s: " % (i, json.dumps(op)) + msg % a)
        if op[0] == "start":
            r = self.plan["runs"][op[1]]
            self.running[r["id"]] = stored(r, False)
        elif op[0] == "finish":
            r = self.plan["runs"][op[1]]
            self.running.pop(r["id"], None)
            self.done[r["id"]] = stored(r, True)
        elif op[0] == "clear":
            self.running = {}
        elif op[0] == "runs":
            t = self.running if op[2] else self.done
            sel = op[3]
            want = {k: v for k, v in t.items() if sel is None or (v["job"] in sel[1] if sel[0] == "jobs" else k in sel[1])}
            have = {}
            for g in got:
                if g["id"] in have:
                    bad("run %s is returned twice", g["id"])
                have[g["id"]] = g
            if sorted(have) != sorted(want):
                bad("the runs %s are returned instead of %s", sorted(have), sorted(want))
            for k in want:
                self.same(bad, have[k], want[k])
        elif op[0] == "previous":
            for what, g, ok in zip(("run", "good run", "bad run"), got, (lambda c: True, lambda c: c == 0, lambda c: c != 0)):
                c = [v for v in self.done.values() if v["job"] == op[2] and ok(v["code"])]
                if not c:
                    if g is not None:
                        bad("there is no previous %s, but %r is returned", what, g)
                    continue
                if g is None:
                    bad("no previous %s is returned", what)
                last = max(v["stop"] for v in c)
                if g["id"] not in self.done or g["stop"] != last or g["id"] not in [v["id"] for v in c]:
                    bad("the previous %s is %r; its latest stop is %d", what, g, last)
                self.same(bad, g, self.done[g["id"]])

    def same(self, bad, g, w):
        for f in w:
            if g[f] != w[f] or type(g[f]) is bool or (f in ("tdata", "rdata") and json.dumps(g[f], sort_keys=True) != json.dumps(w[f], sort_keys=True)):
                bad("run %s: %s is %r instead of %r", w["id"], f, g[f], w[f])
