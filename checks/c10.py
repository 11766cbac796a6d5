"""C10: each trigger file yields exactly one run, as specified."""
import core
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, trigger files of all kinds, every resulting run compared with a model of the pending runs"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations and event histories. "
              "Trusts the simulation in lib/sim.py.")
RULE = ("case = jobs x 1 to 6 valid trigger files (JSON or YAML, with times in all documented forms) x SIGUSR1, reloads and run durations; non-trivial = at least one trigger was noticed")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


def strategy(tier):
    return scen.scenario(groups=15, concurrent=35, triggers=(1, 6), reloads=(0, 1), sched=50, max_jobs=3, stalls=(0, 1), horizons=[200, 400, 900] if tier == "quick" else [400, 1500, 4000])


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["trigger", "trigger-late", "held", "early", "schedule"])
    return {"nontrivial": m.counts.get("triggers"), "checked": m.counts.get("triggers", 0), "classes": sorted(m.counts)}
