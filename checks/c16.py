"""C16: every run is recorded exactly once, as it happened."""
from hypothesis import strategies as st

import core
import gens
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, the history at the end, and at every start, compared with what happened"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations and event histories. "
              "Trusts the simulation in lib/sim.py and reads the SQLite file directly.")
RULE = ("case = jobs x runs which end with all kinds of statuses and files x triggers, kills, reloads and shutdowns; non-trivial = at least two runs ended")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


@st.composite
def plans(draw, tier):
    plan = draw(scen.scenario(groups=15, concurrent=25, triggers=(0, 4), reloads=(0, 1), limits=20, shutdown=25, noise=(0, 1), stalls=(0, 1), max_jobs=4,
                         **{"return": 60}, horizons=[200, 400, 900] if tier == "quick" else [400, 1500, 4000]))
    plan["probe_db"] = True
    for t in draw(st.lists(gens.wide(0, plan["horizon"] * 10), max_size=4)):
        plan["events"].append({"t": t / 10, "do": "probe"})
    plan["events"].sort(key=lambda e: e["t"])
    return plan


def strategy(tier):
    return plans(tier)


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["record"])
        probes = 0
        for s in tr.starts:
            db = s["rec"].get("db")
            if db is None:
                continue
            probes += 1
            live = {x["run"]: "running" if x["exit_t"] is None or x["exit_t"] > s["t"] else "reaped" if x["reap_t"] is not None and x["reap_t"] < s["t"] else "zombie"
                    for x in tr.starts if x["n"] <= s["n"]}
            probe(tr, db, live, "when run #%d is started" % s["n"])
        for e in tr.of("probe"):
            probes += 1
            probe(tr, e["db"], e["live"], "at %.3f" % e["t"])
    return {"nontrivial": len(tr.db["runs"]) >= 2, "checked": len(tr.starts) + probes, "classes": sorted(m.counts)}


def probe(tr, db, live, when):
    """The history at some moment: live has the state of every run started so far."""
    for rid, state in live.items():
        if rid is None:
            continue
        a, b = db["running"].count(rid), db["runs"].count(rid)
        want = {"running": [(1, 0)], "reaped": [(0, 1)], "zombie": [(1, 0), (0, 1)]}[state]
        core.check((a, b) in want, "{}: run {} ({}) is listed {} times as in progress and {} times as completed\n{}\n{}", when, rid, state, a, b, sim.timeline(tr), tr.err[-600:])
    for rid in set(db["running"] + db["runs"]) - set(live):
        core.check(rid in db["running"] and rid not in db["runs"], "{}: run {}, which has not been started, is recorded as completed\n{}", when, rid, sim.timeline(tr))
