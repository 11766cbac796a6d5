"""C17: a crash at any instant leaves the run history consistent."""
import os

from hypothesis import strategies as st

import core
import gens
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "fault-injecting property testing: the daemon is killed before a random bytecode instruction of its code or in the middle of a file operation of the database (several times in a row), the database checked against the simulated process table, and a restarted daemon against the model"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations, histories and crash points. The crash points are the instructions of "
              "the daemon's own Python code, and the file operations of SQLite, done in part, in full or not at all (lib/fault.c, preloaded). Trusts the simulation in lib/sim.py.")
RULE = ("case = configuration x histories x up to three crashes x a last life without one; non-trivial = a run had been started before one of the crashes")
ASSUMPTIONS = ["the machine itself does not lose data it accepted (what was written, but not synchronised, is there after a crash of the daemon)"]
CATS = ["schedule", "overlap", "group", "early", "late", "held", "trigger", "trigger-late", "kill", "reload", "shutdown", "record"]


@st.composite
def plans(draw, tier):
    plan = draw(scen.scenario(limits=15, groups=20, concurrent=25, triggers=(0, 2), reloads=(0, 1), max_jobs=3, sched=90, job_groups=5,
                              durs=[0.2, 0.2, 1, 3, 8, 30], horizons=[30, 60]))
    if draw(st.integers(0, 7)):
        for j in plan["config"]["jobs"].values():
            if "schedule" in j:
                j["schedule"] = "* * * * * */%d" % draw(st.sampled_from([1, 2, 3, 5]))
    pool = sorted(plan["procs"].keys() - {"*"}) or sorted(plan["config"]["jobs"])
    js = sorted(model.jobs_of(plan["config"]))
    pool = [n for n in pool if n in js] or js
    lives = []
    t = plan["start"]
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    for i in range(n + 1):
        life = {"start": t, "horizon": draw(st.sampled_from([20, 40])), "events": []}
        if i == 0:
            life["events"] = plan["events"]
            life["horizon"] = plan["horizon"]
        else:
            for k in range(draw(st.integers(0, 2))):
                tt = draw(st.integers(0, life["horizon"]))
                life["events"].append({"t": tt, "do": "trigger", "job": draw(st.sampled_from(pool)), "id": i * 10000 + k, "fmt": draw(st.sampled_from(["json", "yaml"])),
                                       "data": draw(scen.trigger_data(t + tt, plan["local"], 20))})
                life["events"].append({"t": tt, "do": "signal", "sig": "SIGUSR1"})
            if i == n and draw(st.integers(0, 2)) == 2:
                life["events"].append({"t": life["horizon"] - 8, "do": "signal", "sig": "SIGTERM"})
            life["events"].sort(key=lambda e: e["t"])
        if i < n:
            k = draw(st.one_of(gens.wide(1, 300), gens.wide(1, 3000), gens.wide(1, 800)))
            if draw(st.integers(0, 4 if i else 12)) == 3:
                life["at_start"] = {"k": draw(gens.wide(1, 4000)), "what": "crash"}
            elif draw(st.integers(0, 2)) == 0:
                # within the database
                life["db_crash"] = {"k": draw(st.one_of(gens.uniform(34, 75), gens.uniform(36, 75), gens.uniform(20, 50), gens.uniform(38, 150), st.integers(1, 40))), "what": draw(st.sampled_from(["kill-before", "kill-half", "kill-after"]))}
            elif draw(st.booleans()):
                # around something which happens
                life["arms"] = [{"on": draw(st.sampled_from(["mkdir", "prefork", "fork", "reap", "reap", "remove", "sql", "sql", "sql"])), "n": draw(st.integers(1, 8)),
                                 "k": draw(st.one_of(st.integers(1, 40), gens.wide(1, 400))), "what": "crash"}]
                if life["arms"][0]["on"] in ("prefork", "sql"):
                    life["arms"][0].update(k=0, n=draw(st.integers(1, 40)) if life["arms"][0]["on"] == "sql" else life["arms"][0]["n"])
            else:
                # just before the end of a sleep something is about to happen
                tc = draw(gens.wide(0, life["horizon"] * 20 - 10)) / 20
                if draw(st.booleans()):
                    tc = int(tc) + 0.95
                life["events"].append({"t": tc, "do": "inject", "what": "crash", "k": k})
                life["events"] = sorted((e for e in life["events"] if e["t"] <= tc + 3), key=lambda e: e["t"])
        lives.append(life)
        t = round(t + life["horizon"] + draw(st.sampled_from([0.5, 30, 3600.25])), 6)
    plan.pop("horizon")
    plan.pop("events")
    plan["lives"] = lives
    return plan


def strategy(tier):
    return plans(tier)


def rows(db, key):
    return {r["run_id"]: r for r in db[key]}


def run(plan):
    started = 0
    checked = 0
    classes = set()
    with core.TempDir() as d:
        old = {"runs": {}, "running": {}}
        earlier = set()
        carried = []
        carried_events = []
        config = plan["config"]
        n = len(plan["lives"])
        for i, life in enumerate(plan["lives"]):
            p = dict(plan, **life)
            p.pop("lives")
            p["config"] = config
            p["arm_early"] = i == 0
            p["seed"] = plan["seed"] * 10 + i
            p["carried"] = carried
            p["carried_events"] = carried_events
            p["earlier"] = sorted(earlier)
            tr = sim.run(p, d)
            where = "life %d" % (i + 1)

            def bad(msg, *a):
                raise core.Violation("%s (%s): " % (where, tr.end) + msg % a + "\n" + sim.timeline(tr) + "\n" + tr.err[-800:])
            tr.alive("(%s)" % where)
            new = {k: rows(tr.db, k) for k in ("runs", "running")}
            for rid, r in old["runs"].items():
                if new["runs"].get(rid) != r:
                    bad("the completed run %s was recorded as %s and is now %s", rid, r, new["runs"].get(rid))
            up = bool(tr.of("start")) or "Scheduler running" in tr.err
            for rid, r in old["running"].items():
                if rid in new["runs"]:
                    bad("run %s, in progress at an earlier crash, is now recorded as completed", rid)
                if rid in new["running"] and (up or new["running"][rid] != r):
                    bad("run %s, in progress at an earlier crash, is still listed: %s", rid, new["running"][rid])
            for rid in set(new["runs"]) & set(new["running"]):
                bad("run %s is both completed and in progress", rid)
            if tr.end == "crash":
                model.check_history(tr, bad, p["start"], p, crashed=True)
                started += len(tr.starts)
                classes.add("crash-up" if up else "crash-early")
                if life.get("db_crash"):
                    classes.add("crash-in-database")
                    if os.path.exists(d + "/var/dsari.sqlite3-journal"):
                        classes.add("crash-in-transaction")
                if any(s["reap_t"] is not None and s["run"] in new["running"] for s in tr.starts):
                    classes.add("crash-before-record")
                if len(new["running"]) > sum(1 for s in tr.starts if s["run"] in new["running"]) and up:
                    classes.add("crash-before-fork")
            else:
                model.judge(tr, p, CATS)
                classes.add("life-" + tr.end)
            checked += len(tr.starts) + len(old["runs"])
            old = new
            earlier |= set(new["runs"]) | set(new["running"]) | {s["run"] for s in tr.starts}
            out = tr.events[-1]["outstanding"]
            trig = {e["id"]: e for e in tr.of("trigger")}
            evs = {e["id"]: e for e in p["events"] + carried_events if e["do"] == "trigger"}
            carried = [{"path": path, "id": k, "job": trig[k]["job"], "fmt": trig[k]["fmt"], "mtime": trig[k]["mtime"]} for path, k in sorted(out.items())]
            carried_events = [evs[c["id"]] for c in carried]
            for e in p["events"]:
                if e["do"] == "config" and e["t"] <= (tr.end_t or 0):
                    config = e["config"]
    return {"nontrivial": started, "checked": checked, "classes": sorted(classes)}
