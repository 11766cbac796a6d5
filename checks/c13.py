"""C13: shutdown stops new runs, and ends when runs have ended."""
import core
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, starts, signals, records and exit after a shutdown request checked against a model"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations and event histories. "
              "Trusts the simulation in lib/sim.py.")
RULE = ("case = configuration x runs in progress x shutdown request (repeated, with other signals) at any time; non-trivial = a run was in progress at the shutdown request")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


def strategy(tier):
    return scen.scenario(shutdown=96, limits=35, groups=15, concurrent=25, sched=90, triggers=(0, 3), noise=(0, 1), reloads=(0, 1), stalls=(0, 1), min_jobs=2, max_jobs=4,
                         durs=[1, 30, 90, 150, 400, 1000], horizons=[200, 400, 900] if tier == "quick" else [400, 1500, 4000])


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["shutdown", "kill"])
    return {"nontrivial": m.shutdown is not None and any(s["t"] < m.shutdown[0] and (s["exit_t"] or 1e9) > m.shutdown[0] for s in tr.starts), "checked": len(tr.starts), "classes": sorted(m.counts)}
