SEEDS = {}
SEEDS["c26-cleared-when-opened"] = dict(
    property="C26",
    edits=[("dsari/daemon.py", """        self.db.clear_runs_running()
""", """"""),
           ("dsari/database.py", """        self.db_conn = sqlite3.connect(config.database["file"])
        self.db_conn.row_factory = sqlite3.Row
        self.populate_schema()
""", """        self.db_conn = sqlite3.connect(config.database["file"])
        self.db_conn.row_factory = sqlite3.Row
        self.populate_schema()
        # Left over from a daemon which did not end properly
        self.clear_runs_running()
""")],
    needs="any tool opening the database while a run is in progress",
    breaks="The list of runs in progress is emptied by whoever opens the database, not by the daemon when it starts.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sleep", "30"]}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 20), "not started")
for i in range(2):
    r = b.main("dsari.info", "run", "list", "--format", "tabular")
    insist(len(r.stdout.splitlines()) == 1, "{} {}", r.stdout, r.stderr)
''')
SEEDS["c26-cleared-at-reload"] = dict(
    property="C26",
    edits=[("dsari/daemon.py", """        self.db.clear_runs_running()
""", """"""),
           ("dsari/daemon.py", """    def reset_jobs(self):
""", """    def reset_jobs(self):
        self.db.clear_runs_running()
""")],
    needs="a tool asking between a reload and the end of a run which was in progress at the reload",
    breaks="A reload empties the list of runs in progress.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sleep", "30"]}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 20), "not started")
b.signal(signal.SIGHUP)
wait(lambda: not b.running(), 3)
r = b.main("dsari.info", "run", "list", "--format", "tabular")
insist(len(r.stdout.splitlines()) == 1, "{} {}", r.stdout, r.stderr)
''')
SEEDS["c26-output-of-finished-first"] = dict(
    property="C26",
    edits=[("dsari/info.py", """        runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
        if len(runs) == 0:
            runs = self.db.get_runs(run_ids=[run_id])
            if len(runs) == 0:
                self.args.parser.error("Cannot find run ID {}".format(run_id))
""", """        for runs_running in (False, True):
            runs = self.db.get_runs(run_ids=[run_id], runs_running=runs_running)
            if runs:
                break
        else:
            self.args.parser.error("Cannot find run ID {}".format(run_id))
""")],
    needs="the run ending between the two queries of run output",
    breaks="dsari-info run output does not find a run which ends while it looks.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
import datetime
import dsari
import dsari.config
import dsari.database
c = dsari.config.get_config(b.etc)
db = dsari.database.get_database(c)
run = dsari.Run(c.jobs["a"])
run.schedule_time = run.start_time = datetime.datetime.now().astimezone()
run.trigger_type = "schedule"
db.insert_running_run(run)
os.makedirs("%s/runs/a/%s" % (b.var, run.id))
with open("%s/runs/a/%s/output.txt" % (b.var, run.id), "w") as f:
    f.write("hello")
code = """
import sys
import sqlite3
import datetime
sys.path.insert(0, %r)
import dsari.database
import dsari.info
import dsari.config
real = dsari.database.BaseSQLDatabase.get_runs
n = [0]
def get_runs(self, *a, **kw):
    n[0] += 1
    if n[0] == 2:
        db = dsari.database.get_database(self.config)
        run = real(db, run_ids=[sys.argv[-1]], runs_running=True)[0]
        run.stop_time = datetime.datetime.now().astimezone()
        run.exit_code = 0
        db.insert_run(run)
    return real(self, *a, **kw)
dsari.database.BaseSQLDatabase.get_runs = get_runs
dsari.info.main()
""" % ROOT
r = subprocess.run([sys.executable, "-B", "-c", code, "-c", b.etc, "run", "output", run.id], capture_output=True, text=True, cwd=ROOT, timeout=60)
insist(r.returncode == 0 and r.stdout == "hello", "{} {}", r.stdout, r.stderr)
''')
SEEDS["c26-rendered-while-reading"] = dict(
    property="C26",
    edits=[("dsari/database.py", """        cur = self.db_conn.cursor()
        cur.execute(sql_statement, where_in)
        runs = []
        # Fake up""", """        cur = self.db_conn.cursor()
        cur.execute(sql_statement, where_in)
        # Fake up"""),
           ("dsari/database.py", """    def get_runs(self, job_names=None, run_ids=None, runs_running=False):
        if run_ids is not None:
            where = "run_id"
""", """    def get_runs(self, job_names=None, run_ids=None, runs_running=False):
        return list(self.iter_runs(job_names, run_ids, runs_running))

    def iter_runs(self, job_names=None, run_ids=None, runs_running=False):
        if run_ids is not None:
            where = "run_id"
"""),
           ("dsari/database.py", """            return []
        if runs_running:
""", """            return
        if runs_running:
"""),
           ("dsari/database.py", """                fake_jobs[db_result["job_name"]] = job
            runs.append(self._build_run_from_result(job, db_result))
        cur.close()
        # End the transaction, reads would otherwise keep returning the state
        # at its beginning (MySQL)
        self.db_conn.commit()
        return runs
""", """                fake_jobs[db_result["job_name"]] = job
            yield self._build_run_from_result(job, db_result)
        cur.close()
        # End the transaction, reads would otherwise keep returning the state
        # at its beginning (MySQL)
        self.db_conn.commit()
"""),
           ("dsari/database.py", """    def get_runs(self, job_names=None, run_ids=None):
        return []
""", """    def get_runs(self, job_names=None, run_ids=None):
        return []

    def iter_runs(self, *args, **kwargs):
        return iter(self.get_runs(*args, **kwargs))
"""),
           ("dsari/render.py", """        runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
        for run in runs:
""", """        # One after the other, there may be many
        for run in self.db.iter_runs(job_names=[job.name for job in self.jobs]):
""")],
    needs="a rendering which takes longer than SQLite waits for a lock (5 seconds), and a run starting or ending meanwhile",
    breaks="dsari-render keeps the database locked while it writes pages, the daemon ends with an error.",
    demo='''
from dl import *
b = Box()
os.mkdir(b.d + "/t")
with open(b.d + "/t/run.html", "w") as f:
    f.write("{% for i in range(90000) %}{% for j in range(60000) %}{% if j < 0 %}x{% endif %}{% endfor %}{% endfor %}")
b.config({"jobs": {"a": {"command": ["true"]}}, "template_dir": b.d + "/t"})
record(b, [("a", 0, 0, 1, 0), ("a", 2, 2, 3, 0), ("a", 4, 4, 5, 0)])
b.start()
p = subprocess.Popen([sys.executable, "-B", "-m", "dsari.render", "-c", b.etc], cwd=ROOT, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    insist(wait(lambda: os.path.exists(b.var + "/html/a"), 30), "no rendering")
    b.trigger("a", {})
    wait(lambda: len(b.runs()) == 4 or not b.alive(), 20)
    insist(b.alive() and len(b.runs()) == 4, "the daemon was disturbed: {}", b.text()[-600:])
finally:
    p.kill()
    p.wait()
''')
