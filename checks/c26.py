"""C26: what the tools tell while the daemon runs is true, and asking changes nothing."""
import datetime as dt
import json

from hypothesis import strategies as st

import core
import gens
import model
import scen
import sim
from c23 import parse

QUICK, THOROUGH = 50, 400
TECHNIQUE = "model-based property testing of concurrent processes: dsari-info, the exporter and dsari-render run beside the simulated daemon at generated instants (between its statements and instructions too, or themselves stopped halfway), their output compared with the simulated process table, and the daemon's history with that of an undisturbed twin"
LEVEL_NOTE = ("Randomised search with shrinking over configurations, histories, instants of reading and places where a reader is stopped. Readers and daemon are real processes sharing the real "
              "SQLite file, but take turns at generated points instead of running in parallel; inside one SQLite call the database's own locking is relied on. Trusts the simulation in lib/sim.py.")
RULE = "case = configuration x events x readings (tool, instant, possibly stopped before its n-th access and continued later); non-trivial = a run had been started before one of the readings"
ASSUMPTIONS = ["readers are not stopped in the middle of a database call", "two renderings do not run at the same time"]
CATS = ["schedule", "overlap", "group", "early", "late", "held", "trigger", "trigger-late", "kill", "reload", "shutdown", "record"]


@st.composite
def reading(draw, names):
    k = draw(st.integers(0, 11))
    jobs = []
    if k in (0, 1, 2, 3) and draw(st.integers(0, 3)) == 0:
        for n in draw(st.lists(st.sampled_from(names + ["unknown"]), min_size=1, max_size=2, unique=True)):
            jobs += ["--job", n]
    if k < 3:
        e = {"kind": "main", "mod": "dsari.info", "argv": ["run", "list", "--format", "tabular"] + jobs}
    elif k < 4:
        e = {"kind": "main", "mod": "dsari.info", "argv": ["run", "list", "--format", "json"] + jobs}
    elif k < 6:
        e = {"kind": "main", "mod": "dsari.info", "argv": ["run", "output"], "output": draw(st.sampled_from([0, 0, 0, 1, 2, 5, 11]))}
    elif k < 7:
        e = {"kind": "main", "mod": "dsari.info", "argv": ["job", "list", "--format", "json"]}
    elif k < 8:
        e = {"kind": "main", "mod": "dsari.prometheus_exporter", "argv": ["--dump"]}
    elif k < 10:
        e = {"kind": "session", "session": draw(st.sampled_from(["s0", "s1"])), "argv": ["--job-cache-time", "0"]}
    else:
        e = {"kind": "main", "mod": "dsari.render", "argv": draw(st.sampled_from([[], [], ["-r"]]))}
    if draw(st.integers(0, 3)) == 0 or ("output" in e and draw(st.booleans())):
        e["pause"] = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5]) if "output" in e else st.one_of(st.integers(1, 5), st.integers(1, 12)))
        e["for"] = draw(st.sampled_from([0, 0.5, 3, 10, 30, 61]))
    return e


@st.composite
def plans(draw, tier):
    plan = draw(scen.scenario(shutdown=25, limits=15, groups=25, concurrent=30, triggers=(0, 3), reloads=(0, 1), max_jobs=4, job_groups=5, sched=90,
                              durs=[0.2, 1, 3, 8, 30, 61], horizons=[30, 60, 120] if tier == "quick" else [60, 200, 500]))
    if draw(st.integers(0, 3)):
        for j in plan["config"]["jobs"].values():
            if "schedule" in j:
                j["schedule"] = "* * * * * */%d" % draw(st.sampled_from([1, 2, 3, 5, 10]))
    names = sorted(model.jobs_of(plan["config"]))
    i = 0
    for n in sorted(plan["procs"]):
        for b in plan["procs"][n]:
            t = 0
            b["out"] = []
            for _ in range(draw(st.integers(0, 3))):
                i += 1
                t += draw(st.sampled_from([0, 0, 0.1, 1, 4, 20]))
                b["out"].append([round(t, 6), draw(st.sampled_from(["line %d\n", "%d", "<b>\u00e9\u4e2d %d\n\n", "\n"])).replace("%d", str(i))])
    readings = []
    for _ in range(draw(st.integers(2, 7))):
        e = draw(reading(names))
        how = draw(st.integers(0, 5))
        if how < 3:
            t = draw(gens.wide(0, plan["horizon"] * 20 - 1)) / 20
            readings.append(dict(e, t=t, do="read"))
        elif how < 4:
            readings.append({"t": draw(gens.wide(0, plan["horizon"] * 20 - 1)) / 20, "do": "inject", "what": "read", "k": draw(st.one_of(st.integers(1, 60), gens.wide(1, 1500))), "reads": [e]})
        else:
            more = [draw(reading(names))] if draw(st.integers(0, 3)) == 0 else []
            on = draw(st.sampled_from(["prefork", "fork", "reap", "reap", "remove", "sql", "sql", "sql", "mkdir"]))
            plan.setdefault("arms", []).append({"on": on, "n": draw(st.integers(1, 8)), "k": draw(st.one_of(st.just(0), st.just(0), st.integers(1, 300))) if on not in ("prefork", "sql", "mkdir") else 0,
                                                "what": "read", "reads": [e] + more})
    plan["events"] = sorted(plan["events"] + readings, key=lambda e: e["t"])
    plan.update(readers=True, step=0)      # the clock does not move by itself, so that both histories have the same times
    plan["arm_early"] = draw(st.booleans())
    if draw(st.integers(0, 4)) == 0:
        plan["reads_before"] = [draw(reading(names))]
    return plan


def strategy(tier):
    return plans(tier)


def epoch(s):
    return dt.datetime.fromisoformat(s).timestamp()


class Judge:
    def __init__(self, tr, plan):
        self.tr, self.plan = tr, plan
        self.events = sorted(plan["events"], key=lambda e: e["t"])
        self.rows = {r["run_id"]: r for k in ("running", "runs") for r in tr.db[k]}
        self.sessions = {}
        self.classes = set()
        self.nontrivial = 0

    def reading(self, e):
        def bad(msg, *a):
            raise core.Violation("%s %s at %.6f%s: " % (e["mod"] or "exporter", " ".join(e["argv"]), e["t"], " (begun %.6f)" % e["began"] if e.get("paused") else " (between two steps of the daemon)" if e["mid"] else "")
                                 + msg % a + "\nstates %s -> %s\n%s\n%s" % (e["before"], e["after"], (e["out"] or "")[-1500:], sim.timeline(self.tr, 100)))
        self.bad = bad
        cfg = self.plan["config"] if e["config"] is None else self.events[e["config"]]["config"]
        jobs = model.jobs_of(cfg)
        if e["state"] == "died" or e["rc"] != 0 or "Traceback" in e["err"]:
            bad("it failed with %s %s: %s", e["state"], e.get("rc"), e.get("err"))
        if e["before"]:
            self.nontrivial += 1
        self.must_done, self.may_done, self.must_run, self.may_run, self.listed = set(), set(), set(), set(), set()
        self.by = {}
        for s in self.tr.starts:
            rid = s["run"]
            if rid is None:
                continue
            self.by[rid] = s
            b, a = e["before"].get(str(s["n"])), e["after"].get(str(s["n"]))
            if b == "done":
                self.must_done.add(rid)
            if a in ("done", "new"):
                self.may_done.add(rid)
            if b == a == "running":
                self.must_run.add(rid)
            if (b != "done" and a is not None) or (a is None and s["t"] - e["t"] < 0.1):
                self.may_run.add(rid)
            if b is not None:
                self.listed.add(rid)
        kind = e["mod"] or "session"
        if e["argv"][:2] == ["run", "output"]:
            what = "output"
            self.output(e)
        elif e["argv"][:2] == ["run", "list"]:
            what = "runs"
            self.run_list(e)
        elif e["argv"][:2] == ["job", "list"]:
            what = "jobs"
            self.job_list(e, jobs)
        elif kind == "dsari.render":
            what = "render"
            self.render(e, jobs)
        else:
            what = "metrics" if kind != "session" else "session"
            self.metrics(e, jobs)
        self.classes.add(what + ("-paused" if e.get("paused") else "-mid" if e["mid"] else ""))

    def states(self, done, running, of, listed_once=True):
        """done and running: run IDs told of, among the jobs of(job)."""
        def sel(x):
            return {r for r in x if of(self.by[r]["job"])}
        for r in sorted((done | running) - set(self.by)):
            self.bad("run %s is listed, which is never started", r)
        for r in sorted(sel(self.must_done) - done):
            self.bad("run %s has ended and is not listed as completed", r)
        for r in sorted(done - sel(self.may_done)):
            self.bad("run %s is listed as completed", r)
        for r in sorted(sel(self.must_run) - running):
            self.bad("run %s is in progress and not listed as such", r)
        for r in sorted(running - sel(self.may_run)):
            self.bad("run %s is listed as in progress", r)
        if listed_once:
            for r in sorted(done & running):
                self.bad("run %s is listed twice", r)
            for r in sorted(sel(self.listed) - done - running):
                self.bad("run %s is not listed", r)

    def run_list(self, e):
        jobs = [e["argv"][i + 1] for i, a in enumerate(e["argv"]) if a == "--job"]
        done, running = set(), set()
        if "json" in e["argv"]:
            got = [dict(v, id=k) for k, v in json.loads(e["out"]).items()]
        else:
            got = []
            for line in e["out"].splitlines():
                f = line.split("\t")
                got.append({"id": f[0], "job_name": f[1], "exit_code": int(f[2]) if f[2] else None, "trigger_type": f[3], "schedule_time": f[4], "start_time": f[5], "stop_time": f[6] or None})
        for g in got:
            where = done if g["stop_time"] else running
            if g["id"] in where:
                self.bad("run %s is listed twice", g["id"])
            where.add(g["id"])
        self.states(done, running, lambda j: not jobs or j in jobs)
        for g in got:
            r, s = self.rows.get(g["id"]), self.by[g["id"]]
            if g["job_name"] != s["job"]:
                self.bad("run %s is one of job %s, not %s", g["id"], s["job"], g["job_name"])
            if (g["exit_code"] is None) != (not g["stop_time"]):
                self.bad("run %s has exit code %s and stop time %s", g["id"], g["exit_code"], g["stop_time"])
            if g["exit_code"] is not None and g["exit_code"] != model.exit_code(s["status"]):
                self.bad("run %s is listed with exit code %s", g["id"], g["exit_code"])
            if r is None:
                continue
            for k in ("schedule_time", "start_time", "stop_time"):
                if g[k] and abs(epoch(g[k]) - r[k]) > 2e-6:
                    self.bad("run %s is listed with %s %s, recorded is %r", g["id"], k, g[k], r[k])
            if g["trigger_type"] != r["trigger_type"] or ("trigger_data" in g and g["trigger_data"] != json.loads(r["trigger_data"])):
                self.bad("run %s is listed as %s", g["id"], g)

    def output(self, e):
        s = next(s for s in self.tr.starts if s["n"] == e["n"])
        out = [x for _, x in s["beh"].get("out") or []]
        ok = {"".join(out[:w]) for w in range(e["written"], e["written_after"] + 1)}
        if e["out"] not in ok:
            self.bad("the output is %r, the run has written %r", e["out"], sorted(ok))

    def job_list(self, e, jobs):
        got = json.loads(e["out"])
        if set(got) != set(jobs):
            self.bad("the jobs are %s instead of %s", sorted(got), sorted(jobs))
        t0 = self.plan["start"]
        for n, j in jobs.items():
            due = set()
            if j.get("schedule"):
                ref = t0 + e["began"]
                while ref is not None and ref <= t0 + e["t"] + 0.02 and len(due) < 200:
                    ref = model.next_due(j, n, self.plan["local"], ref)
                    due.add(ref)
            else:
                due.add(None)
            nx = got[n]["next_scheduled_run"]
            nx = nx and epoch(nx)
            if not any((nx is None) == (x is None) and (x is None or abs(x - nx) < 4e-6) for x in due):
                self.bad("the next run of job %s is given as %s instead of %s", n, got[n]["next_scheduled_run"], sorted(due, key=str))

    def metrics(self, e, jobs):
        s = e.get("session")
        if s is not None:
            # an exporter keeps its configuration, and figures of the very same moment
            old = self.sessions.get(s)
            self.sessions[s] = (old[0] if old else jobs, e["t"])
            if old and e["began"] - old[1] < 0.001:
                return
            jobs = self.sessions[s][0]
        samples = parse(e["out"])
        running = {}
        for (name, labels), v in samples.items():
            ls = dict(labels)
            if name == "dsari_running_run_start_time":
                running.setdefault(ls["job_name"], set()).add(ls["run_id"])
            if "job_name" in ls and ls["job_name"] not in jobs:
                self.bad("there are figures for job %s", ls["job_name"])
        for j in sorted(jobs):
            lo = {r for r in self.must_done if self.by[r]["job"] == j}
            hi = {r for r in self.may_done if self.by[r]["job"] == j}
            n = samples.get(("dsari_run_count", (("job_name", j),)))
            if n is None or not len(lo) <= n <= len(hi):
                self.bad("job %s has dsari_run_count %s, %d to %d runs have ended", j, n, len(lo), len(hi))
            run = running.get(j, set())
            must = {r for r in self.must_run if self.by[r]["job"] == j}
            may = {r for r in self.may_run if self.by[r]["job"] == j}
            if not must <= run <= may:
                self.bad("job %s has the runs %s in progress instead of %s", j, sorted(run), sorted(must))
            if not e.get("paused") and n + len(run & hi) != len(hi):
                self.bad("job %s: of %d runs which have ended %d are counted and %d shown as in progress", j, len(hi), n, len(run & hi))
            ends = {self.by[r]["exit_t"] for r in lo}
            last = samples.get(("dsari_last_run_stop_time", (("job_name", j),)))
            if (ends and last is None) or (ends and last < max(ends) + self.plan["start"] - 1e-5):
                self.bad("job %s has dsari_last_run_stop_time %s, a run ended at %r", j, last, max(ends) + self.plan["start"])

    def render(self, e, jobs):
        done = set()
        for n, (runs, shown) in e["pages"].items():
            done |= set(runs)
            for r in runs:
                if r not in self.by or self.by[r]["job"] != n:
                    self.bad("there is a page for run %s of job %s", r, n)
            if shown != runs:
                self.bad("the page of job %s shows the runs %s, there are pages of %s", n, shown, runs)
        for r in sorted(self.must_done - done):
            if self.by[r]["job"] in jobs:
                self.bad("there is no page for run %s of job %s, which has ended", r, self.by[r]["job"])
        for r in sorted(done - self.may_done):
            self.bad("there is a page for run %s", r)


def outline(tr):
    keep = ("ev", "t", "n", "job", "sig", "status", "state", "kind", "value", "id")
    out = []
    for e in tr.events:
        if e["ev"] in ("read",):
            continue
        x = {k: e[k] for k in keep if k in e}
        if e["ev"] == "start":
            x["env"] = e["rec"]["env"]
            x["argv"] = e["rec"]["argv"]
        if e["ev"] == "daemon_end":
            x["outstanding"] = sorted(e["outstanding"].values(), key=str)
        out.append(x)
    return out


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        tr.alive("(%d readings)" % len(tr.of("read")))
        j = Judge(tr, plan)
        for e in tr.of("read"):
            j.reading(e)
        model.judge(tr, plan, CATS)
        first = outline(tr), tr.db
    quiet = dict(plan, events=[e for e in plan["events"] if e["do"] != "read" and e.get("what") != "read"], arms=[], reads_before=[])
    with core.TempDir() as d2:
        tr2 = sim.run(quiet, d2)
    a, b = (json.loads(json.dumps(x, sort_keys=True).replace(y, "$D")) for x, y in ((first[0], d), (outline(tr2), d2)))
    for x, y in zip(a + [None], b + [None]):
        if x != y:
            raise core.Violation("readings changed what the daemon does: with them %s, without %s\n%s" % (x, y, sim.timeline(tr, 100)))
    if first[1] != tr2.db:
        raise core.Violation("readings changed what is recorded: %s instead of %s" % (first[1], tr2.db))
    n = len(tr.of("read"))
    return {"nontrivial": j.nontrivial, "checked": n, "classes": sorted(j.classes)}
