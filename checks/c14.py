"""C14: reload applies the new configuration without losing runs."""
import core
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, histories with several reloads, every start compared with a model of the pending runs"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations and event histories. "
              "Trusts the simulation in lib/sim.py.")
RULE = ("case = configuration x 1 to 4 reloads to changed configurations (also in bursts) x run durations; non-trivial = at least one reload and one later start")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


def strategy(tier):
    return scen.scenario(reloads=(1, 4), limits=30, groups=20, concurrent=25, triggers=(0, 2), stalls=(0, 1), max_jobs=4, env=30, append=25,
                         durs=[1, 30, 90, 150, 400], horizons=[200, 400, 900] if tier == "quick" else [400, 1500, 4000])


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["reload", "schedule", "early", "late", "held", "kill", "record", "process"])
    return {"nontrivial": m.counts.get("reloads") and tr.starts, "checked": len(tr.starts), "classes": sorted(m.counts)}
