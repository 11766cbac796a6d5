"""C21: all database backends behave alike."""
import core
import dbops
import fakedb

QUICK, THOROUGH = 400, 2500
TECHNIQUE = "differential stateful property testing: the same generated sequences of database operations on each backend over stand-in drivers and on the SQLite one, all answers compared with one reference model"
LEVEL_NOTE = ("Randomised search with shrinking. The drivers psycopg2, MySQLdb and pymongo are stand-ins (lib/fakedb.py) with the transaction rules of the real ones, "
              "which keep values as they are handed in; real servers are not available here.")
RULE = "case = one backend x up to 10 runs with arbitrary fields x up to 24 operations through two handles on one database; non-trivial = at least two runs recorded as completed and one query with a selection"
FORK = ["dsari.config"]
ASSUMPTIONS = ["the drivers store what they are handed", "times are whole microseconds between 1970 and 2100, exit codes 0 to 255, run IDs unique"]

from hypothesis import strategies as st  # noqa: E402

DATABASES = {
    "postgresql": [{"type": "postgresql", "dsn": "host=dbserver dbname=dsari"}, {"type": "postgresql", "dsn": "dbname=x"}],
    "mysql": [{"type": "mysql", "connection": {"host": "dbserver", "user": "dbuser", "passwd": "p", "db": "dsari"}}, {"type": "mysql", "connection": {"db": "other"}}],
    "mongodb": [{"type": "mongodb", "uri": "mongodb://localhost/dsari", "database": "dsari"}, {"type": "mongodb"}, {"type": "mongodb", "uri": "mongodb://h/", "database": "x"},
                {"type": "mongodb", "connection": {"connect": False}}],
}


@st.composite
def plans(draw, tier):
    p = draw(dbops.plans(tier))
    b = draw(st.sampled_from(sorted(DATABASES)))
    p["database"] = draw(st.sampled_from(DATABASES[b]))
    return p


def strategy(tier):
    return plans(tier)


def run(plan):
    core.set_tz(plan["local"])
    b = plan["database"]["type"]
    try:
        with core.TempDir() as d:
            seen, servers = fakedb.install(d)
            h = dbops.Handles(d, plan, plan["database"])
            if plan["initial"] == "no_running":
                h.close(0), h.close(1)
                if b == "mongodb":
                    for s in servers.values():
                        for x in s.values():
                            x.pop("runs_running", None)
                else:
                    import MySQLdb
                    import psycopg2
                    c = psycopg2.connect(plan["database"]["dsn"]) if b == "postgresql" else MySQLdb.connect(**plan["database"]["connection"])
                    cur = c.cursor()
                    cur.execute("drop table if exists runs_running")
                    c.commit()
                    c.close()
                h.open(0), h.open(1)
            ref = dbops.Reference(plan)
            selective = 0
            for i, op in enumerate(plan["ops"]):
                ans = h.apply(op)
                ref.check(op, ans, i)
                selective += op[0] == "runs" and op[3] is not None
            h.close(0), h.close(1)
            want = [b, plan["database"].get("dsn", plan["database"].get("uri")), plan["database"].get("connection", {})]
            for s in seen:
                core.check(s == want, "the driver was connected with {} instead of {}", s, want)
    finally:
        core.set_tz("UTC")
    return {"nontrivial": len(ref.done) >= 2 and selective, "checked": len(plan["ops"]), "classes": sorted({op[0] for op in plan["ops"]} | {plan["initial"], b})}
