"""What the documentation promises about a daemon's behaviour, replayed against a simulated trace.

judge(tr, plan, cats) replays the events of a trace (lib/sim.py) through a small model of the pending runs of every job and
raises core.Violation for the first discrepancy of one of the categories cats:
  group     concurrency groups                    early     a run started before it was due
  overlap   runs of one job overlap               late      a run which could start does not (2 s / 5 min)
  schedule  a scheduled run nobody expects, or with a wrong due or start time
  trigger   triggers: noticed late, not run, run wrongly or with wrong data
  kill      signals sent to runs                  reload    a reload is not noticed, or has the wrong effect
  shutdown  starts or end after a shutdown request
  record    the run history                       process   argument vector, environment variables J and K
"""
import datetime as dt
import functools
import json
import os
import shlex

import core
from refcron import Cron, UTC, zone

LATE, HELD, NOTICE = 2.0, 302.0, 60.0
INF = float("inf")


@functools.lru_cache(4096)
def offset(name):
    """(sub-second offset, implicit second) of a job name, measured at an arbitrary instant (in a child, so that no state is kept)."""
    import dsari.utils  # noqa: F401
    return tuple(core.ok(core.isolate(measure, name), "get_next_schedule_time"))


def measure(name):
    from dsari import utils
    r = dt.datetime(2020, 6, 1, 12, 0, 0, tzinfo=UTC)
    a = utils.get_next_schedule_time("* * * * * *", name, start_time=r)
    b = utils.get_next_schedule_time("* * * * *", name, start_time=r)
    frac = (a - r).total_seconds() % 1
    return frac, int((b - r).total_seconds() - frac + 1e-7) % 60


@functools.lru_cache(1024)
def cron(schedule, name):
    f = schedule.split()
    if len(f) == 5:
        f = f + [str(offset(name)[1])]
    return Cron(f)


def next_due(job, name, local, ref):
    """Epoch of the first schedule time after the epoch ref (None if there is none)."""
    tz = zone(job.get("schedule_timezone") or local)
    d = offset(name)[0]
    r = dt.datetime.fromtimestamp(0, UTC) + dt.timedelta(microseconds=int(round((ref - d) * 1e6)))
    t = cron(job["schedule"], name).next(r, tz)
    return None if t is None else t.timestamp() + d


def jobs_of(cfg):
    out = {}
    for n, j in (cfg.get("jobs") or {}).items():
        out[n] = j
    for g, v in (cfg.get("job_groups") or {}).items():
        for n in v["job_names"]:
            out[n] = dict(v, job_group=g)
    return out


def maxima(cfg):
    return {g: (v or {}).get("max", 1) for g, v in (cfg.get("concurrency_groups") or {}).items()}


def trigger_time(data, mtime, local):
    """Epoch at which a valid trigger's run is due."""
    if "schedule_time" not in data:
        return mtime
    s = data["schedule_time"]
    if isinstance(s, (int, float)):
        return float(s)
    t = dt.datetime.fromisoformat(s)
    if t.tzinfo is None:
        t = t.replace(tzinfo=zone(data.get("schedule_timezone") or local))
    return t.timestamp()


def same_env(v):
    return v if isinstance(v, str) else str(v)


def same_data(got, want):
    """Recorded trigger data; numbers in the environment may have become strings."""
    if isinstance(want.get("environment"), dict) and isinstance(got, dict) and isinstance(got.get("environment"), dict):
        got = dict(got, environment={k: same_env(v) for k, v in got["environment"].items()})
        want = dict(want, environment={k: same_env(v) for k, v in want["environment"].items()})
    return got == want


class Model:
    def __init__(self, tr, plan, cats):
        self.tr, self.plan, self.cats = tr, plan, set(cats)
        self.local = plan.get("local", "UTC")
        self.t0 = plan["start"]
        self.stalls = [(e["t"] - e["length"], e["t"], e["length"]) for e in tr.of("stall")]
        self.end = tr.end_t if tr.end_t is not None else plan["horizon"]
        self.file = plan["config"]
        self.valid_file = True
        self.cfg = None
        self.pend = {}
        self.obligations = []       # (job, cfg, ready, end, text, category)
        self.usr1 = []
        self.triggers = {}
        self.shutdown = None        # (time, injected)
        self.after_shutdown = 0
        self.reload_due = None
        self.configured_since = {}
        self.seen_ids = set()
        self.counts = {}

    def bad(self, cat, msg, *args):
        if cat in self.cats:
            raise core.Violation(msg % args + "\n" + self.describe())

    def describe(self):
        import sim
        return "start %r local %s config %s\n%s\nstderr: %s" % (
            self.t0, self.local, json.dumps(self.plan["config"], sort_keys=True)[:1500], sim.timeline(self.tr), self.tr.err[-600:])

    def by(self, t):
        """The deadline t, made later if the daemon could not do anything then."""
        for x, y, _ in self.stalls:
            if x <= t + 1:
                t = max(t, y + LATE)
        return t

    # -- pending runs --
    def schedule(self, name, lo, hi, since):
        """The next scheduled run of a job, reckoned from somewhere in [lo, hi] (relative)."""
        job = self.jobs[name]
        if not job.get("schedule") or {"croniter", "dateutil"} & set(self.plan.get("missing", ())):
            return
        c = {next_due(job, name, self.local, self.t0 + lo), next_due(job, name, self.local, self.t0 + hi)}
        c.discard(None)
        if c:
            self.pend[name].append({"kind": "schedule", "due": sorted(x - self.t0 for x in c), "since": since, "respawn": True, "ref": (lo, hi)})

    def drop(self, name, p, end, why):
        self.obligations.append((name, self.cfg, max(p["due"][-1], p["since"]), end, p, why))

    def reset(self, lo, hi):
        for n in self.pend:
            for p in self.pend[n]:
                self.drop(n, p, lo, "reload")
        old = self.jobs if self.cfg is not None else {}
        self.cfg = self.file
        self.jobs = jobs_of(self.cfg)
        for n in self.jobs:
            if n not in old:
                self.configured_since[n] = lo
        self.pend = {n: [] for n in self.jobs}
        for n in self.jobs:
            self.schedule(n, lo, hi, hi)

    # -- events --
    def run(self):
        tr = self.tr
        for e in tr.events:
            if self.reload_due is not None and e["t"] > self.by(self.reload_due + LATE) and e["ev"] not in ("exit",):
                self.bad("reload", "SIGHUP at %.3f: the configuration was not read within %s s", self.reload_due, LATE)
                self.reload_due = None
            getattr(self, "on_" + e["ev"], lambda e: None)(e)
        for n in self.pend:
            for p in self.pend[n]:
                self.drop(n, p, self.end, "end")
        if self.cfg is not None:
            for args in self.obligations:
                self.check_late(*args)
            self.check_triggers()
            if "kill" in self.cats or "shutdown" in self.cats:
                self.check_kills()
        if "record" in self.cats:
            self.check_records()
        if "shutdown" in self.cats:
            self.check_shutdown()
        return self

    def on_config(self, e):
        ev = self.event(e)
        self.file = ev["config"]
        self.valid_file = ev.get("valid", True)

    def event(self, e):
        return sorted(self.plan["events"], key=lambda x: x["t"])[e["i"]]

    def on_read_config(self, e):
        if not self.valid_file:
            self.reload_due = None
            return
        if self.cfg is not None and self.shutdown:
            self.reload_due = None
            return
        self.counts["reloads"] = self.counts.get("reloads", -1) + 1
        self.reset(e["t"], e["t"] + 0.1)
        self.reload_due = None

    def on_signal(self, e):
        if self.cfg is None:
            return
        if e["sig"] == "SIGHUP":
            if not self.shutdown and self.reload_due is None:
                self.reload_due = e["t"]
        elif e["sig"] in ("SIGTERM", "SIGINT"):
            if not self.shutdown:
                self.shutdown = (e["t"], e.get("injected"))
                self.reload_due = None
                for n in self.pend:
                    for p in self.pend[n]:
                        self.drop(n, p, e["t"], "shutdown")
                    self.pend[n] = []
        elif e["sig"] == "SIGUSR1":
            self.usr1.append(e["t"])

    def on_trigger(self, e):
        ev = self.event_by_id(e["id"])
        self.triggers[e["id"]] = {"t": e["t"], "job": e["job"], "fmt": e["fmt"], "mtime": e["mtime"] - self.t0, "ev": ev, "gone": None, "superseded": None}

    def event_by_id(self, i):
        return next(x for x in self.plan["events"] + self.plan.get("carried_events", []) if x.get("do") == "trigger" and x["id"] == i)

    def on_superseded(self, e):
        self.triggers[e["id"]]["superseded"] = e["t"]

    def on_gone(self, e):
        g = self.triggers[e["id"]]
        g["gone"] = e["t"]
        name = g["job"]
        if self.cfg is None or name not in self.jobs or self.shutdown:
            return
        if g["fmt"] == "yaml":
            for o in self.triggers.values():
                if o["job"] == name and o["fmt"] == "json" and o["gone"] is None and o["superseded"] is None and o["t"] < e["t"] - 0.001:
                    self.bad("trigger", "trigger.yaml of job %s was used at %.3f although there was a trigger.json", name, e["t"])
        if not g["ev"].get("valid", True):
            self.counts["dropped"] = self.counts.get("dropped", 0) + 1
            return
        if "data" not in g["ev"]:
            return
        due = trigger_time(g["ev"]["data"], g["mtime"] + self.t0, self.local) - self.t0
        p = {"kind": "file", "due": [due], "since": e["t"], "respawn": False, "id": e["id"], "ev": g["ev"]}
        if not self.jobs[name].get("concurrent_runs"):
            for old in self.pend[name]:
                self.drop(name, old, e["t"], "replaced")
                p["respawn"] = p["respawn"] or old["respawn"]
            self.pend[name] = []
        self.pend[name].append(p)
        self.counts["triggers"] = self.counts.get("triggers", 0) + 1

    def on_start(self, e):
        name, t, env = e["job"], e["t"], e["rec"]["env"]
        if e["rec"]["argv"] is None:
            # died before exec: nothing is known about it but that there was a process
            e["failed"] = True
        e["limits"] = (None, 60.0)
        if self.cfg is None:
            self.bad("schedule", "run started before the configuration was read")
            return
        job = self.jobs.get(name)
        # the limits in force when the run started
        e["limits"] = (job.get("max_execution"), job.get("max_execution_grace", 60.0)) if job else (None, 60.0)
        if self.shutdown:
            self.after_shutdown += 1
            ts, injected = self.shutdown
            if not (injected and self.after_shutdown == 1 and t - ts < 0.1):
                self.bad("shutdown", "job %s was started at %.3f, after the shutdown request at %.3f", name, t, ts)
            return
        if e["run"] in self.seen_ids:
            self.bad("schedule", "run ID %s was used twice", e["run"])
        self.seen_ids.add(e["run"])
        if job is None:
            self.bad("reload", "job %s, which is not configured, was started at %.3f", name, t)
            self.bad("schedule", "job %s, which is not configured, was started at %.3f", name, t)
            return
        others = [s for s in self.tr.starts if s["n"] < e["n"] and (s["exit_t"] is None or s["exit_t"] > t)]
        if not job.get("concurrent_runs"):
            for s in others:
                if s["job"] == name:
                    self.bad("overlap", "job %s was started at %.3f although its run #%d (started %.3f) is still in progress", name, t, s["n"], s["t"])
        self.check_group(e, job, others)
        self.check_process(e, job)
        st, sc = self.times(env)
        if name in self.plan.get("free", ()):
            return
        p = self.match(name, e, env, sc)
        if p is None:
            return
        self.pend[name].remove(p)
        due = min(p["due"], key=lambda x: abs(x - sc)) if sc is not None else p["due"][0]
        if t < due - 2e-6 or (st is not None and st < due - 2e-6):
            self.bad("early", "job %s was started at %.6f although it is due at %.6f", name, t, due)
        if st is not None and not t - 0.5 <= st <= t + 2e-6:
            self.bad("schedule", "START_TIME of run #%d of job %s is %r, but it was started at %.6f", e["n"], name, st, t)
        e["due"], e["p"] = due, p
        self.obligations.append((name, self.cfg, max(due, p["since"]), t, p, "start"))
        if p["respawn"]:
            ref = st if st is not None else t
            self.schedule(name, min(ref, t), t, t)

    def times(self, env):
        """(START_TIME, SCHEDULE_TIME) relative to the start of the plan, None if not numeric."""
        out = []
        for k in ("START_TIME", "SCHEDULE_TIME"):
            try:
                out.append(float(env[k]) - self.t0)
            except (KeyError, ValueError):
                out.append(None)
        return out

    def match(self, name, e, env, sc):
        typ = env.get("TRIGGER_TYPE")
        ps = [p for p in self.pend[name] if p["kind"] == typ]
        if not ps:
            cat = {"schedule": "schedule", "file": "trigger"}.get(typ, "schedule")
            self.bad(cat, "job %s was started at %.3f (%s, SCHEDULE_TIME %s) although no such run is pending: %s", name, e["t"], typ, sc, self.pend[name])
            if self.counts.get("reloads"):
                self.bad("reload", "job %s was started at %.3f (%s, SCHEDULE_TIME %s) although no such run is pending: %s", name, e["t"], typ, sc, self.pend[name])
            return None
        if sc is None:
            return ps[0]
        p = min(ps, key=lambda p: min(abs(x - sc) for x in p["due"]))
        lo, hi = p["due"][0], p["due"][-1]
        if not lo - 3e-6 <= sc <= hi + 3e-6:
            cat = {"schedule": "schedule", "file": "trigger"}[typ]
            self.bad(cat, "run #%d of job %s (%s) started at %.3f has SCHEDULE_TIME %.6f instead of %s", e["n"], name, typ, e["t"], sc, p["due"])
            if self.counts.get("reloads"):
                self.bad("reload", "run #%d of job %s (%s) started at %.3f has SCHEDULE_TIME %.6f instead of %s", e["n"], name, typ, e["t"], sc, p["due"])
        if typ == "file":
            ev = p["ev"]
            want = {k: same_env(v) for k, v in (ev["data"].get("environment") or {}).items() if k != "PWD"}
            for k, v in want.items():
                if env.get(k) != v:
                    self.bad("trigger", "the run of trigger %s has %s=%r instead of %r", ev["id"], k, env.get(k), v)
        return p

    def check_process(self, e, job):
        argv, env = e["rec"]["argv"], e["rec"]["env"]
        if argv is None:
            return
        want = job["command"]
        want = shlex.split(want) if isinstance(want, str) else list(want)
        if job.get("command_append_run"):
            want += [e["job"], e["run"]]
        if argv != want:
            self.bad("process", "run #%d of job %s, started at %.3f, executes %r instead of %r", e["n"], e["job"], e["t"], argv, want)
        for k in ("J", "K"):
            x = (job.get("environment") or {}).get(k, (self.cfg.get("environment") or {}).get(k))
            if env.get(k) != x:
                self.bad("process", "run #%d of job %s, started at %.3f, has %s=%r instead of %r", e["n"], e["job"], e["t"], k, env.get(k), x)

    def check_group(self, e, job, others):
        g = e["group"]
        groups = job.get("concurrency_groups") or []
        if not groups:
            if g is not None:
                self.bad("group", "run #%d of job %s, which has no concurrency groups, holds %s", e["n"], e["job"], g)
            return
        if g not in groups:
            self.bad("group", "run #%d of job %s holds %r, which is none of its groups %s", e["n"], e["job"], g, groups)
        limit = maxima(self.cfg).get(g, 1)
        holders = [s["n"] for s in others if s["group"] == g]
        if len(holders) >= limit:
            self.bad("group", "run #%d of job %s was started at %.3f in group %s (max %s) which is held by runs %s", e["n"], e["job"], e["t"], g, limit, holders)
        self.counts["grouped"] = self.counts.get("grouped", 0) + 1
        if holders:
            self.counts["shared"] = self.counts.get("shared", 0) + 1

    # -- lateness --
    def blocked_intervals(self, name, cfg):
        """Sorted disjoint intervals in which the job may have been held back."""
        job = jobs_of(cfg)[name]
        out = []
        runs = [(s["t"], self.by(s["exit_t"] + LATE) if s["exit_t"] is not None else INF, s) for s in self.tr.starts]
        if not job.get("concurrent_runs"):
            out += [(a, b) for a, b, s in runs if s["job"] == name]
        groups = job.get("concurrency_groups") or []
        if groups:
            lim = maxima(cfg)
            points = sorted({-INF} | {a for a, b, s in runs if s["group"]} | {b for a, b, s in runs if s["group"]})
            for x, y in zip(points, points[1:] + [INF]):
                if all(sum(1 for a, b, s in runs if s["group"] == g and a <= x < b) >= lim.get(g, 1) for g in groups):
                    out.append((x, y))
        out.sort()
        merged = []
        for a, b in out:
            if merged and a <= merged[-1][1]:
                merged[-1][1] = max(b, merged[-1][1])
            else:
                merged.append([a, b])
        return merged

    def check_late(self, name, cfg, ready, end, p, why):
        if end <= ready or not {"late", "held", "trigger-late"} & self.cats:
            return
        t = ready
        first = True
        for a, b in self.blocked_intervals(name, cfg) + [[INF, INF]]:
            if b <= ready:
                continue
            # unblocked stretch [t, a)
            free = min(a, end) - t
            if free > 0:
                limit = LATE if first else HELD
                if min(a, end) > self.by(t + limit) + 1e-6:
                    cat = ("late" if p["kind"] == "schedule" else "trigger-late") if first else "held"
                    self.bad(cat, "a run of job %s (%s) due at %.3f, pending since %.3f, could start from %.3f on but did not within %.1f s (%s at %.3f)",
                             name, p["kind"], p["due"][-1], p["since"], t, limit, why, end)
            first = False
            if a > ready:
                self.counts["held"] = self.counts.get("held", 0)
            if a < end and b > ready:
                self.counts["held"] = self.counts.get("held", 0) + 1
            t = b
            if t >= end:
                break

    # -- triggers --
    def check_triggers(self):
        if "trigger" not in self.cats:
            return
        for i, g in sorted(self.triggers.items(), key=lambda x: str(x[0])):
            name = g["job"]
            since = max(g["t"], self.configured_since.get(name, INF))
            if g["fmt"] == "yaml":
                if "yaml" in self.plan.get("missing", ()):
                    continue
                for o in self.triggers.values():
                    if o["job"] == name and o["fmt"] == "json" and o["t"] <= (g["gone"] if g["gone"] is not None else INF):
                        since = max(since, min(x for x in (o["gone"], o["superseded"], self.end) if x is not None))
            deadline = since + NOTICE + LATE
            for u in self.usr1:
                if u >= since:
                    deadline = min(deadline, u + LATE)
                    break
            deadline = self.by(deadline)
            until = min(x for x in (g["superseded"], self.shutdown[0] if self.shutdown else None, self.end, g["gone"]) if x is not None)
            if name not in self.jobs and g["gone"] is None:
                continue      # not configured at the end
            if until > deadline + 1e-6:
                self.bad("trigger", "trigger %s of job %s, present since %.3f, was not noticed by %.3f (USR1 at %s)", i, name, since, deadline, self.usr1)
        db = {r["run_id"]: r for r in self.tr.db["runs"] + self.tr.db["running"]}
        for s in self.tr.starts:
            p = s.get("p")
            if p and p["kind"] == "file" and s["run"] in db:
                r = db[s["run"]]
                if not same_data(json.loads(r["trigger_data"]), p["ev"]["data"]) or r["trigger_type"] != "file":
                    self.bad("trigger", "the run of trigger %s is recorded with trigger type %s and data %s instead of %s",
                             p["ev"]["id"], r["trigger_type"], r["trigger_data"], json.dumps(p["ev"]["data"]))

    # -- signals sent to runs --
    def check_kills(self):
        sd = self.shutdown[0] if self.shutdown else None
        base = self.cfg
        skill = base.get("shutdown_kill_runs") and sd is not None
        sgrace = base.get("shutdown_kill_grace")
        for s in self.tr.starts:
            if "limits" not in s:
                continue
            mx, grace = s["limits"]
            st = self.times(s["rec"]["env"])[0]
            S = st if st is not None else s["t"]
            exit_t = s["exit_t"] if s["exit_t"] is not None else INF
            ks = s["kills"]
            who = "run #%d of job %s (started %.3f, max_execution %s, grace %s)" % (s["n"], s["job"], S, mx, grace)
            terms = [k for k in ks if k["sig"] == 15]
            kills = [k for k in ks if k["sig"] == 9]
            for k in ks:
                if k["sig"] not in (9, 15):
                    self.bad("kill", "%s was sent signal %s", who, k["sig"])
                if k["t"] > self.by(exit_t + LATE):
                    self.bad("kill", "%s was sent signal %s at %.3f, long after its end at %.3f", who, k["sig"], k["t"], exit_t)
            if len(terms) > 1 or len(kills) > 1:
                self.bad("kill", "%s was sent SIGTERM at %s and SIGKILL at %s", who, [k["t"] for k in terms], [k["t"] for k in kills])
            E = LATE
            t_term = terms[0]["t"] if terms else None
            t_kill = kills[0]["t"] if kills else None
            over = S + mx if mx else INF
            # SIGTERM: when allowed, and by when required
            ok_term = over
            if skill:
                ok_term = min(ok_term, sd)
            need_term = over
            if skill and S < sd:
                need_term = min(need_term, sd)
            cat = "shutdown" if (skill and need_term == sd) else "kill"
            if t_term is not None and t_term < ok_term - 2e-6:
                self.bad("shutdown" if sd is not None and t_term >= sd else "kill", "%s was sent SIGTERM at %.6f", who, t_term)
            if need_term < INF:
                dl = self.by(need_term + E)
                if min(exit_t, self.end, t_kill if t_kill is not None else INF) > dl and (t_term is None or t_term > dl + 1e-6):
                    self.bad(cat, "%s should have been sent SIGTERM at %.3f and was at %s", who, need_term, t_term)
            # SIGKILL
            if t_kill is not None:
                ways = []
                if mx and t_term is not None:
                    ways.append(max(t_term, over if not skill else t_term) + grace)
                if skill and sgrace:
                    ways.append(sd + sgrace)
                if not ways or t_kill < min(ways) - 2e-6:
                    self.bad("shutdown" if sd is not None and t_kill >= sd else "kill", "%s was sent SIGKILL at %.6f, SIGTERM at %s", who, t_kill, t_term)
            need = []
            if mx and t_term is not None:
                need.append(("kill", max(t_term, over + E) + grace if skill else t_term + grace))
            if skill and sgrace:
                need.append(("shutdown", max(sd + sgrace, S)))
            for cat, w in need:
                dl = self.by(w + E)
                if min(exit_t, self.end) > dl and (t_kill is None or t_kill > dl + 1e-6):
                    self.bad(cat, "%s should have been sent SIGKILL by %.3f and was at %s (SIGTERM %s)", who, dl, t_kill, t_term)
            if ks:
                self.counts["kills"] = self.counts.get("kills", 0) + 1

    # -- shutdown --
    def check_shutdown(self):
        tr = self.tr
        if self.shutdown is None:
            if tr.end == "exit":
                self.bad("shutdown", "the daemon ended without being asked to")
            return
        ts = self.shutdown[0]
        last = max([ts] + [s["exit_t"] if s["exit_t"] is not None else INF for s in tr.starts])
        if tr.end == "exit":
            if tr.rc not in (0, None):
                self.bad("shutdown", "the daemon exited with status %r", tr.rc)
            if any(s["reap_t"] is None for s in tr.starts):
                self.bad("shutdown", "the daemon exited at %.3f although runs were still in progress", self.end)
            if self.end > self.by(last + LATE):
                self.bad("shutdown", "the daemon exited at %.3f, the last run ended at %.3f (shutdown request %.3f)", self.end, last, ts)
            self.check_records("shutdown")
        elif tr.end == "horizon" and self.end > self.by(last + LATE):
            self.bad("shutdown", "the daemon did not exit although it was asked to at %.3f and the last run ended at %.3f", ts, last)

    # -- history --
    def check_records(self, cat="record"):
        check_history(self.tr, lambda msg, *a: self.bad(cat, msg, *a), self.t0, self.plan, crashed=self.tr.end == "crash")


def exit_code(status):
    return 128 + (status & 0x7F) if status & 0x7F else status >> 8


def check_history(tr, bad, t0, plan, crashed=False, db=None):
    db = db or tr.db
    done = {}
    for r in db["runs"]:
        if r["run_id"] in done:
            bad("run %s is recorded twice", r["run_id"])
        done[r["run_id"]] = r
    running = {}
    for r in db["running"]:
        if r["run_id"] in running:
            bad("run %s is listed twice as in progress", r["run_id"])
        running[r["run_id"]] = r
    known = set()
    for s in tr.starts:
        rid = s["run"]
        known.add(rid)
        where = (rid in done) + (rid in running)
        who = "run #%d (%s) of job %s, started %.3f, ended %s, reaped %s" % (s["n"], rid, s["job"], s["t"], s["exit_t"], s["reap_t"])
        if where != 1:
            bad("%s is %s", who, "both completed and in progress" if where == 2 else "in no list")
            continue
        if rid in done and s["exit_t"] is None:
            bad("%s is recorded as completed", who)
            continue
        # the reaping may have been the very last thing the daemon did
        if rid in running and s["reap_t"] is not None and not crashed:
            bad("%s is still listed as in progress", who)
            continue
        r = done.get(rid) or running[rid]
        env = s["rec"]["env"]
        want = {"job_name": s["job"]}
        for k, v in want.items():
            if r[k] != v:
                bad("%s: recorded %s is %r instead of %r", who, k, r[k], v)
        if not plan.get("masked"):
            for k, v in (("schedule_time", env.get("SCHEDULE_TIME")), ("start_time", env.get("START_TIME"))):
                if v is not None and abs(r[k] - float(v)) > 2e-6:
                    bad("%s: recorded %s is %r, %s was %r", who, k, r[k], k.upper(), v)
            if r["trigger_type"] != env.get("TRIGGER_TYPE"):
                bad("%s: recorded trigger type is %r, TRIGGER_TYPE was %r", who, r["trigger_type"], env.get("TRIGGER_TYPE"))
        if not s["t"] - 0.5 <= r["start_time"] - t0 <= s["t"] + 2e-6:
            bad("%s: recorded start_time is %.6f", who, r["start_time"] - t0)
        if "p" in s:
            due = s["p"]["due"]
            if not due[0] - 3e-6 <= r["schedule_time"] - t0 <= due[-1] + 3e-6:
                bad("%s: recorded schedule_time is %.6f instead of %s (relative to %r)", who, r["schedule_time"] - t0, due, t0)
            want = s["p"]["ev"]["data"] if s["p"]["kind"] == "file" else {}
            if not same_data(json.loads(r["trigger_data"]), want):
                bad("%s: recorded trigger data is %s instead of %s", who, r["trigger_data"], json.dumps(want))
        if rid not in done:
            continue
        lag = LATE + sum(e["length"] for e in tr.of("stall") if e["t"] > s["exit_t"] - 1)
        if not s["exit_t"] - 2e-6 <= r["stop_time"] - t0 <= s["exit_t"] + lag:
            bad("%s: recorded stop_time is %.6f", who, r["stop_time"] - t0)
        code = exit_code(s["status"])
        if r["exit_code"] != code:
            bad("%s: recorded exit code is %r instead of %r (wait status %s)", who, r["exit_code"], code, s["status"])
        want = expected_run_data(s["beh"].get("files") or {}, "yaml" not in plan.get("missing", ())) if s["rec"]["argv"] is not None else {}
        got = json.loads(r["run_data"])
        if want is not None and got != want:
            bad("%s: recorded run data is %s instead of %s", who, r["run_data"], json.dumps(want))
    for rid in list(done) + list(running):
        if rid not in known and rid not in plan.get("earlier", ()):
            row = done.get(rid) or running[rid]
            # a run may be listed just before its process is started
            if rid in running and crashed:
                continue
            bad("run %s of job %s is recorded although no such run was started", rid, row["job_name"])


def deep(text):
    """Nested so deeply that a parser may give up."""
    return text.count("[") + text.count("{") > 80


def expected_run_data(files, with_yaml=True):
    """run_data for the files a run left behind; None if anything goes."""
    for fn in ("return_data.json", "return_data.yaml"):
        if fn not in files or files[fn] is None or (fn.endswith("yaml") and not with_yaml):
            continue
        try:
            text = files[fn].encode("utf-8", "surrogateescape").decode("utf-8")
            if deep(text):
                return None
            if fn.endswith("json"):
                v = json.loads(text)
            else:
                import yaml
                v = yaml.safe_load(text)
        except Exception:
            # unspecified whether a YAML file counts if the JSON one is unparsable
            return None if fn.endswith("json") and "return_data.yaml" in files else {}
        try:
            if json.loads(json.dumps(v, allow_nan=False)) != v or len(json.dumps(v)) > 3000:
                return None
        except Exception:
            return None
        return {"return_data": v}
    return {}


def judge(tr, plan, cats):
    tr.alive()
    return Model(tr, plan, cats).run()
