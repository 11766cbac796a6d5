"""C07: concurrency-group limits are never exceeded."""
import core
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, every start checked against the group's limit and holders"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations and event histories. "
              "Trusts the simulation in lib/sim.py; a run's group is read from its CONCURRENCY_GROUP.")
RULE = ("case = jobs sharing concurrency groups x run durations x triggers, kills and reloads; non-trivial = some run was started in a group which another run was holding, or was held back")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


def strategy(tier):
    return scen.scenario(groups=85, concurrent=45, triggers=(0, 4), reloads=(0, 3), limits=15, min_jobs=2, future=15, env=0,
                         durs=[1, 30, 90, 150, 400], horizons=[200, 400, 900] if tier == "quick" else [400, 1500, 4000])


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["group"])
    return {"nontrivial": "shared" in m.counts or "held" in m.counts, "checked": m.counts.get("grouped", 0), "classes": sorted(m.counts)}
