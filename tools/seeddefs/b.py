SEEDS = {}
SEEDS["c04-shorter-names-first"] = dict(
    property="C04",
    edits=[("dsari/config.py", """                config_files.sort()
""", """                config_files.sort(key=lambda fn: (len(fn), fn))
""")],
    needs="two config.d files with names of different length which set the same thing, the longer one sorting first",
    breaks="Files of config.d are merged by length first, not in alphanumeric order.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {}})
os.mkdir(b.etc + "/config.d")
b.config({"environment": {"X": "1"}}, "config.d/10-main.json")
b.config({"environment": {"X": "2"}}, "config.d/9.json")
import dsari.config
x = dsari.config.get_config(b.etc).environment["X"]
insist(x == "2", "X is {}", x)
b.config({"environment": {"X": "3"}}, "config.d/b.json")
b.config({"environment": {"X": "4"}}, "config.d/alpha.json")
x = dsari.config.get_config(b.etc).environment["X"]
insist(x == "3", "X is {}", x)
''')
SEEDS["c05-booleans-are-numbers"] = dict(
    property="C05",
    edits=[("dsari/config.py", """            if type(v) not in valid_values[k]:
""", """            if not isinstance(v, valid_values[k]):
""")],
    needs="true or false as the value of a numeric option",
    breaks="A boolean is accepted where a number is required.",
    demo='''
from dl import *
import dsari.config
b = Box()
b.config({"jobs": {"a": {"command": ["true"], "max_execution": True}}})
try:
    c = dsari.config.get_config(b.etc)
    insist(False, "accepted, max_execution is {}", c.jobs["a"].max_execution)
except dsari.config.ConfigError:
    pass
''')
SEEDS["c06-unused-groups"] = dict(
    property="C06",
    edits=[("dsari/info.py", """            for concurrency_group in self.config.concurrency_groups.values():
                config["concurrency_groups"]""", """            for concurrency_group in [
                concurrency_group
                for job in self.config.jobs.values()
                for concurrency_group in job.concurrency_groups
            ]:
                config["concurrency_groups"]""")],
    needs="a concurrency group no job is in",
    breaks="Concurrency groups without jobs are missing in the dump.",
    demo='''
from dl import *
b = Box()
b.config({"concurrency_groups": {"g": {"max": 2}, "h": {"max": 5}}, "jobs": {"a": {"command": ["true"], "concurrency_groups": ["g"]}}})
r = b.main("dsari.info", "config", "dump")
got = json.loads(r.stdout)["concurrency_groups"]
insist(got == {"g": {"max": 2}, "h": {"max": 5}}, got)
''')
SEEDS["c08-gives-up"] = dict(
    property="C08",
    edits=[("dsari/daemon.py", """            self.wakeups.append(now + backoff(run.schedule_time, now))
            return
""", """            if (now - run.schedule_time) > seconds_to_td(10):
                self.scheduled_runs.remove(run)
                return
            self.wakeups.append(now + backoff(run.schedule_time, now))
            return
"""), ("dsari/daemon.py", """        if (not job.concurrent_runs) and (job in [x.job for x in self.running_runs]):
""", """        if (not job.concurrent_runs) and job in {x.job for x in self.running_runs}:
""")],
    needs="a run which is held back by the job's previous run for more than ten seconds",
    breaks="A run held back for long is dropped (and the job's schedule ends with it).",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "test -n \\"$SECOND\\" || sleep 16"]}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 10), "not started")
for i in range(30):
    if i % 4 == 0:
        b.trigger("a", {"environment": {"SECOND": "1"}, "schedule_time": 1700000000}) if i == 4 else b.signal(signal.SIGUSR1)
    time.sleep(0.5)
insist(wait(lambda: len(b.runs()) == 2, 15), "runs: {}", b.runs())
''')
SEEDS["c09-catches-up"] = dict(
    property="C09",
    edits=[("dsari/daemon.py", """        self.running_runs.append(run)
        if run.concurrency_group:
            self.running_groups[run.concurrency_group].append(run)
        if run.respawn and job.schedule:
            t = get_next_schedule_time(
                job.schedule,
                job.name,
                start_time=dtlocalize(now, job.schedule_timezone),
            )
""", """        self.running_runs.append(run)
        if run.concurrency_group:
            self.running_groups[run.concurrency_group].append(run)
        if run.respawn and job.schedule:
            t = get_next_schedule_time(
                job.schedule,
                job.name,
                start_time=dtlocalize(run.schedule_time, job.schedule_timezone),
            )
""")],
    needs="a run which is held back for longer than the interval of its schedule",
    breaks="The next run is computed from the due time of the previous one, so missed occurrences pile up.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "mkdir $DATA_DIR/first && sleep 12"], "schedule": "* * * * * *"}}})
b.start()
insist(wait(lambda: len(b.runs()) > 5, 40), "no runs: {}", b.runs())
late = [r["start_time"] - r["schedule_time"] for r in sorted(b.runs(), key=lambda r: r["start_time"])][2:]
insist(max(late) < 4, "late by {}", late)
''')
SEEDS["c10-replaced-twice"] = dict(
    property="C10",
    edits=[("dsari/daemon.py", """                run.respawn = old_run.respawn
""", """                run.respawn = old_run.trigger_type == "schedule"
""")],
    needs="two triggers for a scheduled job, the second before the run of the first has started",
    breaks="A trigger which replaces the run of another trigger ends the job's schedule.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"], "schedule": "*/2 * * * * *"}, "b": {"command": ["true"], "schedule": "*/2 * * * * *"}}})
b.start()
for i in range(2):
    b.trigger("a", {"schedule_time": time.time() + 6})
    insist(wait(lambda: not os.path.exists(b.var + "/trigger/a/trigger.json"), 10), "not noticed")
insist(wait(lambda: [r for r in b.runs("a") if r["trigger_type"] == "file"], 20), "not run")
t = time.time()
insist(wait(lambda: [r for r in b.runs("a") if r["start_time"] > t], 10), "no further run of a")
''')
SEEDS["c11-kept-if-invalid"] = dict(
    property="C11",
    edits=[("dsari/utils.py", """        if delete_during:
            os.remove(file)
        try:
            if file_type == "yaml":
                return yaml.safe_load(f)
            else:
                return json.load(f)
""", """        try:
            if file_type == "yaml":
                data = yaml.safe_load(f)
            else:
                data = json.load(f)
            if delete_during:
                os.remove(file)
            return data
""")],
    needs="a trigger file which cannot be parsed",
    breaks="An invalid trigger file stays, is reported again and again and blocks a later trigger.yaml.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
b.start()
b.trigger("a", '{"x": ', raw=True)
insist(wait(lambda: not os.path.exists(b.var + "/trigger/a/trigger.json"), 8), "the invalid trigger is still there")
''')
SEEDS["c14-pending-triggers-survive"] = dict(
    property="C14",
    edits=[("dsari/daemon.py", """        self.jobs = []
        self.scheduled_runs = []
        for run in self.running_runs:
            run.respawn = False
        now = dtnow()
""", """        self.jobs = []
        # keep the triggers which are not due yet
        self.scheduled_runs = [run for run in self.scheduled_runs if not run.respawn]
        for run in self.running_runs:
            run.respawn = False
        now = dtnow()
""")],
    needs="a trigger for later, and a reload before its time which removes or changes the job",
    breaks="A pending trigger of a removed job is run after the reload, with the old configuration.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}, "b": {"command": ["true"]}}})
b.start()
b.trigger("a", {"schedule_time": time.time() + 5})
insist(wait(lambda: not os.path.exists(b.var + "/trigger/a/trigger.json"), 10), "not noticed")
b.config({"jobs": {"b": {"command": ["true"]}}})
b.signal(signal.SIGHUP)
time.sleep(1)
insist(not wait(lambda: b.runs("a") + b.running("a"), 8), "a was run although it is not configured")
''')
SEEDS["c15-status-in-percent"] = dict(
    property="C15",
    edits=[("dsari/daemon.py", """                    "[{} {}] Concurrency group: {} ({} out of {})".format(
""", """                    "[{} {}] Concurrency group: {} ({} out of {}, {:.0%})".format(
"""), ("dsari/daemon.py", """                        len(self.running_groups[concurrency_group]),
                        concurrency_group.max,
                    )
                )
        for""", """                        len(self.running_groups[concurrency_group]),
                        concurrency_group.max,
                        len(self.running_groups[concurrency_group])
                        / concurrency_group.max,
                    )
                )
        for""")],
    needs="SIGQUIT after a reload which set the maximum of a group held by a run to 0",
    breaks="The daemon crashes when it is asked for its status.",
    demo='''
from dl import *
b = Box()
c = {"concurrency_groups": {"g": {"max": 2}}, "jobs": {"a": {"command": ["sleep", "20"], "concurrency_groups": ["g"]}}}
b.config(c)
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 10), "not started")
c["concurrency_groups"]["g"]["max"] = 0
b.config(c)
b.signal(signal.SIGHUP)
time.sleep(1)
b.signal(signal.SIGQUIT)
time.sleep(1.5)
insist(b.alive(), "the daemon has crashed")
''')
SEEDS["c17-listed-after-fork"] = dict(
    property="C17",
    edits=[("dsari/daemon.py", """        self.db.insert_running_run(run)

        child_pid = os.fork()
""", """        child_pid = os.fork()
"""), ("dsari/daemon.py", """        self.scheduled_runs.remove(run)
        self.running_runs.append(run)
""", """        self.scheduled_runs.remove(run)
        self.db.insert_running_run(run)
        self.running_runs.append(run)
""")],
    needs="a crash between the start of the process and the next statement",
    breaks="A run which was started just before the daemon died is in no list.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "kill -STOP $PPID; sleep 1; touch $DATA_DIR/ready; sleep 5"]}}})
seen = []
for i in range(6):
    b.start()
    b.trigger("a", {}, poke=(i > 0))
    if i == 0:
        b.signal(signal.SIGUSR1)
    insist(wait(lambda: os.path.exists(b.var + "/ready"), 15), "not started")
    listed = len(b.running())
    # run once more under a debugger-like schedule: the daemon is slow between fork and what follows
    seen.append(listed)
    b.p.kill()
    b.p.wait()
    os.remove(b.var + "/ready")
    break
code = """
import os, sys, time
real = os.fork
def fork():
    pid = real()
    if pid:
        time.sleep(30)
    return pid
os.fork = fork
sys.argv = ["d", "-c", %r]
import dsari.daemon
dsari.daemon.main()
""" % b.etc
os.makedirs(b.var + "/trigger/a", exist_ok=True)
with open(b.etc + "/dsari.json", "w") as f:
    json.dump({"data_dir": b.var, "jobs": {"a": {"command": ["sh", "-c", "touch $DATA_DIR/ready; sleep 5"]}}}, f)
with open(b.var + "/trigger/a/trigger.json", "w") as f:
    f.write("{}")
b.p = subprocess.Popen([sys.executable, "-B", "-c", code], cwd=ROOT, stdout=b.log, stderr=b.log)
insist(wait(lambda: os.path.exists(b.var + "/ready"), 20), "not started")
n = len(b.running()) + len(b.runs())
b.p.kill()
b.p.wait()
insist(n == 1, "the started run is in {} lists when the daemon dies", n)
''')
SEEDS["c18-pwd-is-a-file"] = dict(
    property="C18",
    edits=[("dsari/daemon.py", """        if ("PWD" in environ) and os.path.isdir(environ["PWD"]):
""", """        if ("PWD" in environ) and os.path.exists(environ["PWD"]):
""")],
    needs="PWD configured to something which exists, but is no directory",
    breaks="The run is not executed if PWD is configured to a file.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["pwd"], "environment": {"PWD": "/etc/passwd"}}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.runs(), 10), "no run")
r = b.runs()[0]
insist(r["exit_code"] == 0 and b.output(r).strip() == "%s/runs/a/%s" % (b.var, r["run_id"]), "{} {}", r, b.output(r))
''')
SEEDS["c19-appended-in-daemon"] = dict(
    property="C19",
    edits=[("dsari/daemon.py", """        # Build command line
        command = job.command
        if job.command_append_run:
            command.append(job.name)
            command.append(run.id)
""", """        command = job.command
"""), ("dsari/daemon.py", """        self.db.insert_running_run(run)

        child_pid = os.fork()
""", """        self.db.insert_running_run(run)

        # Build command line
        if job.command_append_run:
            job.command.append(job.name)
            job.command.append(run.id)

        child_pid = os.fork()
""")],
    needs="the second run of a job with command_append_run",
    breaks="Job name and run ID are appended again with every run.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["echo"], "command_append_run": True}}})
b.start()
for i in range(2):
    b.trigger("a", {})
    insist(wait(lambda: len(b.runs()) == i + 1, 10), "no run")
for r in b.runs():
    insist(b.output(r) == "a %s\\n" % r["run_id"], b.output(r))
''')
SEEDS["c20-like"] = dict(
    property="C20",
    edits=[("dsari/database.py", """            WHERE
                job_name = {}
            AND
                exit_code != 0
""", """            WHERE
                job_name LIKE {}
            AND
                exit_code != 0
""")],
    needs="two jobs whose names differ in case only, or in a character which is _ in one of them",
    breaks="The previous bad run of a job may be one of another job.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {n: {"command": ["true"]} for n in ("a_b", "a.b", "A_B")}})
ids = record(b, [("a_b", 0, 0, 1, 1), ("a.b", 0, 0, 2, 1), ("A_B", 0, 0, 3, 1)])
import dsari.config, dsari.database
c = dsari.config.get_config(b.etc)
got = dsari.database.get_database(c).get_previous_runs(c.jobs["a_b"])[2]
insist(got.id == ids[0], "the previous bad run of a_b is {}, runs are {}", got.id, ids)
''')
SEEDS["c21-postgres-second-table"] = dict(
    property="C21",
    edits=[("dsari/database.py", """            WHERE
                table_catalog = current_database()
            AND
                table_name = 'runs_running'
        \"\"\"
        cur = self.db_conn.cursor()
        cur.execute(sql_statement)
        runs_running_exists = cur.fetchone()
        cur.close()
""", """            WHERE
                table_catalog = current_database()
            AND
                table_name = 'runs_running'
        \"\"\"
        runs_running_exists = runs_exists
""")],
    needs="a PostgreSQL database which has the table of completed runs only (from an older version)",
    breaks="The table of runs in progress is not created.",
    demo='''
from dl import *
import types
done = []
class Cur:
    def __init__(self, *a, **kw):
        self.rows = []
    def execute(self, sql, *a):
        sql = " ".join(sql.split())
        done.append(sql)
        if "information_schema" in sql:
            self.rows = [("runs",)] if "'runs'" in sql else []
    def fetchone(self):
        return self.rows[0] if self.rows else None
    def fetchall(self):
        return self.rows
    def __iter__(self):
        return iter(self.rows)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def close(self):
        pass
class Conn:
    cursor_factory = None
    def cursor(self, *a, **kw):
        return Cur()
    def commit(self):
        pass
    def close(self):
        pass
    rollback = commit
m, x = types.ModuleType("psycopg2"), types.ModuleType("psycopg2.extras")
m.connect, m.extras, x.DictCursor, m.__path__ = (lambda *a, **kw: Conn()), x, Cur, []
sys.modules["psycopg2"], sys.modules["psycopg2.extras"] = m, x
b = Box()
b.config({"jobs": {}, "database": {"type": "postgresql", "dsn": "x"}})
import dsari.config, dsari.database
dsari.database.get_database(dsari.config.get_config(b.etc))
insist(any(s.lower().startswith("create table") and "runs_running" in s for s in done), done)
''')
SEEDS["c22-delay-in-progress"] = dict(
    property="C22",
    edits=[("dsari/info.py", """                    if run.stop_time is not None:
                        run_time = str(run.stop_time - run.start_time)
""", """                    if run.exit_code:
                        run_time = str(run.stop_time - run.start_time)
""")],
    needs="a completed run with exit code 0, in the pretty format",
    breaks="Successful runs are shown as if they were in progress.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
record(b, [("a", 0, 0, 1, 0)])
r = b.main("dsari.info", "run", "list")
insist("..." not in r.stdout and "0:00:01 " in r.stdout, r.stdout)
''')
SEEDS["c23-latest-by-start"] = dict(
    property="C23",
    edits=[("dsari/prometheus_exporter.py", """                last_run = sorted(runs, key=lambda run: run.stop_time)[-1]
""", """                last_run = sorted(runs, key=lambda run: run.start_time)[-1]
""")],
    needs="overlapping runs of a job, the longer one started first",
    breaks="The last run is the one started last, not the one which ended last.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
record(b, [("a", 10, 10, 20, 3), ("a", 0, 0, 30, 4)])
os.environ["DSARI_HOME"] = b.d
r = b.main("dsari.prometheus_exporter", "--dump", env=dict(os.environ))
insist([l.split()[-1] for l in r.stdout.splitlines() if l.startswith("dsari_last_run_exit_code{")] == ["4"], "{} {}", r.stdout, r.stderr)
''')
SEEDS["c24-job-page-by-start"] = dict(
    property="C24",
    edits=[("dsari/render.py", """                self.job_runs[job.name], key=lambda run: run.stop_time, reverse=True
""", """                self.job_runs[job.name], key=lambda run: run.start_time, reverse=True
""")],
    needs="overlapping runs of a job, the longer one started first",
    breaks="The job page lists the runs by start time.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
ids = record(b, [("a", 10, 10, 20, 3), ("a", 0, 0, 30, 4)])
r = b.main("dsari.render")
insist(r.returncode == 0, r.stderr)
page = open(b.var + "/html/a/index.html").read()
insist(page.index(ids[1]) < page.index(ids[0]), "the run which ended first is listed first")
''')
SEEDS["c24-once-per-job"] = dict(
    property="C24",
    edits=[("dsari/render.py", """        if job not in self.jobs_written:
            self.jobs_written.append(job)
""", """        if job not in self.jobs_written and not os.path.exists(
            os.path.join(self.config.data_dir, "html", job.name, "index.html")
        ):
            self.jobs_written.append(job)
"""), ("dsari/render.py", """        if (len(self.jobs_written) > 0) or self.args.regenerate:
""", """        if len(self.runs) > 0 or self.args.regenerate:
""")],
    needs="rendering again after further runs of a job which already has a page",
    breaks="Job pages are not brought up to date.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
for i in range(2):
    ids = record(b, [("a", i, i, i + 1, 0)])
    r = b.main("dsari.render")
    insist(r.returncode == 0, r.stderr)
insist(ids[0] in open(b.var + "/html/a/index.html").read(), "the second run is not on the job page")
''')
SEEDS["c25-stripped-cut"] = dict(
    property="C25",
    edits=[("dsari/render.py", """                run.output += raw_output[0:limit_start]
""", """                run.output += raw_output[0:limit_start].rstrip()
""")],
    needs="report_run_output_start cutting the output after white space",
    breaks="White space at the end of the first part of the output is lost.",
    demo='''
from dl import *
b = Box()
b.config({"report_run_output_start": 10, "jobs": {"a": {"command": ["true"]}}})
ids = record(b, [("a", 0, 0, 1, 0)])
os.makedirs(b.var + "/runs/a/" + ids[0])
open(b.var + "/runs/a/%s/output.txt" % ids[0], "w").write("abcde  \\n  xyz" * 10)
r = b.main("dsari.render")
insist(r.returncode == 0, r.stderr)
insist("abcde  \\n  \\n\\n\\n[...]" in open(b.var + "/html/a/%s/index.html" % ids[0]).read(), "the first ten characters are not shown")
''')
SEEDS["c25-escapes-by-extension"] = dict(
    property="C25",
    edits=[("dsari/render.py", """    return ext in ("html", "htm", "xml")
""", """    return base not in ("run",) and ext in ("html", "htm", "xml")
""")],
    needs="output or trigger data with markup",
    breaks="Run pages are rendered without escaping.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
ids = record(b, [("a", 0, 0, 1, 0, "file", {"description": "<script>alert(1)</script>"})])
r = b.main("dsari.render")
insist(r.returncode == 0, r.stderr)
insist("<script" not in open(b.var + "/html/a/%s/index.html" % ids[0]).read(), "markup in the page")
''')
SEEDS["c02-sunday-by-field"] = dict(
    property="C02",
    edits=[("dsari/croniter_hash.py", """            range_end = self.RANGES[position][1]
""", """            range_end = (59, 23, 31, 12, 7, 59)[position]
""")],
    needs="many jobs with H in the day of week",
    breaks="Sundays are chosen twice as often as other days.",
    demo='''
from dl import *
from dsari.croniter_hash import croniter_hash
import collections, datetime
ref = datetime.datetime(2024, 5, 1)
c = collections.Counter(croniter_hash("0 0 * * H", ref, hash_id="job%d" % i, ret_type=datetime.datetime).get_next().weekday() for i in range(7000))
insist(max(c.values()) < 1400, "runs by weekday: {}", c)
''')
SEEDS["c12-no-grace-is-default-grace"] = dict(
    property="C12",
    edits=[("dsari/config.py", """            "max_execution_grace": utils.seconds_to_td,
""", """            "max_execution_grace": lambda x: utils.seconds_to_td(x or 60.0),
""")],
    needs="max_execution_grace 0 and a run which ignores SIGTERM",
    breaks="A run without grace time is killed a minute later than configured.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "trap '' TERM; while true; do sleep 0.1; done"], "max_execution": 1, "max_execution_grace": 0}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 10), "not started")
insist(wait(lambda: b.runs(), 20), "not killed")
''')
SEEDS["c13-overrun-left-alone"] = dict(
    property="C13",
    edits=[("dsari/daemon.py", """        for run in self.running_runs:
            if run.kill_sent:
                continue
""", """        for run in self.running_runs:
            # the time limit takes care of runs which have exceeded it
            if run.kill_sent or run.exceeded_time is not None:
                continue
""")],
    needs="a run which exceeded max_execution, has a long max_execution_grace and ignores SIGTERM; a shutdown with shutdown_kill_grace",
    breaks="The grace time of the shutdown does not count for runs which have exceeded their time limit.",
    demo='''
from dl import *
b = Box()
b.config({"shutdown_kill_runs": True, "shutdown_kill_grace": 2, "jobs": {"a": {"command": ["sh", "-c", "trap '' TERM; while true; do sleep 0.1; done"], "max_execution": 1, "max_execution_grace": 200}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 10), "not started")
time.sleep(3)
b.signal(signal.SIGTERM)
insist(wait(lambda: not b.alive(), 12), "still alive")
''')
