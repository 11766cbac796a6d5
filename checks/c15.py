"""C15: signals at any instant never crash or corrupt the daemon."""
from hypothesis import strategies as st

import core
import gens
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "model-based property testing with fault injection: signals delivered before any bytecode instruction of the daemon's code, the whole history checked against a model"
LEVEL_NOTE = ("Randomised search with shrinking over generated configurations, event histories and injection points. "
              "Signals are delivered at instruction boundaries of the daemon's own code (CPython runs handlers nowhere else) from the moment it is running. "
              "Trusts the simulation in lib/sim.py.")
RULE = ("case = configuration x events x signals (single, bursts, one interrupting the processing of another) x injection instruction; "
        "non-trivial = at least one signal was delivered in the middle of the daemon's code")
ASSUMPTIONS = ["a run whose start was already under way when a shutdown request arrives may still be started"]

SIGS = ["SIGHUP", "SIGHUP", "SIGUSR1", "SIGQUIT", "SIGTERM", "SIGINT"]


@st.composite
def plans(draw, tier):
    plan = draw(scen.scenario(shutdown=15, limits=25, groups=45, status=60, concurrent=25, triggers=(0, 3), reloads=(0, 2), noise=(0, 2), max_jobs=4, job_groups=5, sched=90,
                              durs=[0.2, 1, 3, 8, 30, 100], horizons=[40, 90, 150] if tier == "quick" else [90, 200, 600]))
    if draw(st.booleans()):
        # frequent runs
        for j in plan["config"]["jobs"].values():
            if "schedule" in j:
                j["schedule"] = "* * * * * */%d" % draw(st.sampled_from([1, 2, 3, 5, 10]))
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.one_of(gens.wide(0, plan["horizon"] * 10 - 1).map(lambda x: x / 10), gens.wide(0, plan["horizon"] - 1).map(lambda x: x - 0.05 if x else 0)))
        pool = SIGS[:4] if draw(st.integers(0, 3)) else SIGS

        def inj():
            k = draw(st.one_of(st.integers(1, 60), gens.wide(1, 1200), gens.wide(1, 6000)))
            return {"k": k, "what": "signal", "sig": draw(st.lists(st.sampled_from(pool), min_size=1, max_size=draw(st.sampled_from([1, 1, 3]))))}
        e = dict(inj(), do="inject", t=t)
        x = e
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
            x["then"] = inj()
            x = x["then"]
        if draw(st.booleans()):
            e.pop("t")
            e.pop("do")
            e["k"] = e["k"] % 400 + 1
            e.update(on=draw(st.sampled_from(["mkdir", "prefork", "fork", "reap", "reap", "remove", "config", "sql", "sql"])), n=draw(st.integers(1, 6)))
            if e["on"] in ("prefork", "sql"):
                e["k"] = 0
                e["n"] = e["n"] * draw(st.integers(1, 6))
            plan.setdefault("arms", []).append(e)
        else:
            plan["events"].append(e)
    plan["events"].sort(key=lambda e: e["t"])
    return plan


def strategy(tier):
    return plans(tier)


def run(plan):
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["schedule", "overlap", "group", "early", "late", "held", "trigger", "trigger-late", "kill", "reload", "shutdown", "record"])
    inj = [e for e in tr.of("signal") if e.get("injected")]
    return {"nontrivial": len(inj), "checked": len(tr.starts), "classes": sorted({"injected-" + e["sig"] for e in inj} | set(m.counts))}
