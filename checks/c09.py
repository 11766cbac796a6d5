"""C09: scheduled jobs keep running, on time, without pile-up."""
from hypothesis import strategies as st

import core
import model
import scen
import sim

QUICK, THOROUGH = 150, 1500
TECHNIQUE = "model-based property testing: the real daemon under a simulated clock and process table, every start compared with a reference schedule"
LEVEL_NOTE = ("Randomised search with shrinking over configurations, run durations, triggers, stalls and reloads; due times come from the "
              "brute-force cron model. Trusts the simulation in lib/sim.py; schedules are plain cron expressions.")
RULE = ("case = a configuration of 1 to 5 jobs x run durations x events over up to an hour of simulated time, or up to two days "
        "around a change of the UTC offset, with wall-clock schedules and triggers; non-trivial = at least three "
        "scheduled runs started")
ASSUMPTIONS = ["time only passes while the daemon sleeps or waits, or in explicit stalls; clock jumps are not simulated"]


def strategy(tier):
    far = scen.scenario(groups=35, concurrent=20, triggers=(0, 2), stalls=(0, 2), reloads=(0, 1), noise=(0, 2), limits=10,
                         horizons=[200, 400, 900, 1500] if tier == "quick" else [400, 1500, 4000, 8000])
    return st.one_of(far, far, far, scen.across_change())


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["schedule", "early", "late", "held"])
    n = sum(1 for s in tr.starts if s["type"] == "schedule")
    return {"nontrivial": n >= 3, "checked": len(tr.starts), "classes": sorted(m.counts)}
