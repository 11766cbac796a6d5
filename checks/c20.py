"""C20: the run history answers queries faithfully."""
import core
import dbops
import gens

QUICK, THOROUGH = 500, 4000
TECHNIQUE = "stateful model-based property testing: generated sequences of database operations on a real SQLite file through two handles, every answer compared with a reference model"
LEVEL_NOTE = ("Randomised search with shrinking over operation sequences and run contents. The reference model is a pair of dictionaries.")
RULE = "case = up to 10 runs with arbitrary fields x up to 24 operations through two handles (different configurations) on one database; non-trivial = at least two runs recorded as completed and one query with a selection"
FORK = ["dsari.config", "dsari.database"]
ASSUMPTIONS = ["times are whole microseconds between 1970 and 2100, exit codes 0 to 255, run IDs unique"]


def strategy(tier):
    return dbops.plans(tier)


def run(plan):
    core.set_tz(plan["local"])
    try:
        with core.TempDir() as d:
            h = dbops.Handles(d, plan, None)
            if plan["initial"] == "no_running":
                # as left by a version which did not have the second table, or a crash between the two
                h.close(0), h.close(1)
                import sqlite3
                c = sqlite3.connect(d + "/var/dsari.sqlite3")
                names = [r[0] for r in c.execute("select name from sqlite_master where type = 'table'")]
                if "runs_running" in names:
                    c.execute("drop table runs_running")
                c.commit()
                c.close()
                h.open(0), h.open(1)
            ref = dbops.Reference(plan)
            selective = 0
            for i, op in enumerate(plan["ops"]):
                ans = h.apply(op)
                ref.check(op, ans, i)
                selective += op[0] == "runs" and op[3] is not None
            h.close(0), h.close(1)
    finally:
        core.set_tz("UTC")
    return {"nontrivial": len(ref.done) >= 2 and selective, "checked": len(plan["ops"]), "classes": sorted({op[0] for op in plan["ops"]} | {plan["initial"]})}
