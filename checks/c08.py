"""C08: a job never overlaps itself unless allowed."""
import core
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, every start checked against the job's runs in progress"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations and event histories. "
              "Trusts the simulation in lib/sim.py.")
RULE = ("case = jobs with long runs x triggers, kills and reloads which change, remove or re-add jobs; non-trivial = a run was held back by the job's run in progress")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


def strategy(tier):
    return scen.scenario(groups=10, concurrent=25, triggers=(0, 5), reloads=(0, 4), limits=15, max_jobs=4, future=15, stalls=(0, 1),
                         durs=[5, 61, 90, 150, 400, None], horizons=[200, 400, 900] if tier == "quick" else [400, 1500, 4000])


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["overlap", "held"])
    return {"nontrivial": "held" in m.counts, "checked": len(tr.starts), "classes": sorted(m.counts)}
