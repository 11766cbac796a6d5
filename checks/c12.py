"""C12: max_execution sends SIGTERM, then SIGKILL after the grace time."""
import core
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, the instants of all signals sent to runs checked against the limits"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations and event histories. "
              "Trusts the simulation in lib/sim.py; runs react to SIGTERM in planned ways.")
RULE = ("case = jobs with execution limits x runs which end in time, late, on SIGTERM or never x reloads which change the limits; non-trivial = a run was sent a signal")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


def strategy(tier):
    return scen.scenario(limits=85, groups=15, concurrent=30, triggers=(0, 3), reloads=(0, 2), stalls=(0, 1), noise=(0, 2), max_jobs=4,
                         durs=[0.4, 3, 10.3, 45.5, 60, 100, 400], horizons=[200, 400, 900] if tier == "quick" else [400, 1500, 4000])


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["kill"])
    return {"nontrivial": "kills" in m.counts, "checked": len(tr.starts), "classes": sorted(m.counts)}
