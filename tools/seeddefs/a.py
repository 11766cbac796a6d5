SEEDS = {}
SEEDS["c09-skipped-neighbour"] = dict(
    property="C09",
    edits=[("dsari/daemon.py", """            scheduled_runs = copy.copy(self.scheduled_runs)
            random.shuffle(scheduled_runs)
""", """            scheduled_runs = self.scheduled_runs
            random.shuffle(scheduled_runs)
""")],
    needs="several runs due at the same time",
    breaks="The list of scheduled runs is changed while it is iterated over: when a run is started the next one is skipped and starts up to a minute late.",
    demo='''
from dl import *
b = Box()
names = ["j%d" % i for i in range(6)]
b.config({"jobs": {n: {"command": ["sleep", "25"]} for n in names}})
b.start()
time.sleep(1)
for n in names:
    b.trigger(n, {}, poke=False)
b.signal(signal.SIGUSR1)
insist(wait(lambda: len(b.running()) == 6, 15), "only {} of 6 triggered runs within 15 s", len(b.running()))
''')
SEEDS["c07-reload-forgets-holders"] = dict(
    property="C07",
    edits=[("dsari/daemon.py", """                    if concurrency_group not in self.running_groups:
                        self.running_groups[concurrency_group] = []
                    self.running_groups[concurrency_group].append(run)
                else:
""", """                    self.running_groups[concurrency_group] = [run]
                else:
""")],
    needs="a concurrency group with a maximum of at least 2, at least two runs of it in progress during a reload, and another run of the group afterwards",
    breaks="After a reload only one of the runs in progress counts towards the group's maximum, so the limit is exceeded.",
    demo='''
from dl import *
b = Box()
b.config({"concurrency_groups": {"g": {"max": 2}}, "jobs": {n: {"command": ["sleep", "60"], "concurrency_groups": ["g"]} for n in "abc"}})
b.start()
b.trigger("a", {})
b.trigger("b", {})
insist(wait(lambda: len(b.running()) == 2, 15), "a and b do not run")
b.signal(signal.SIGHUP)
insist(wait(lambda: "reloading" in b.text(), 10), "no reload")
time.sleep(1)
b.trigger("c", {})
time.sleep(4)
insist(len(b.running()) == 2, "{} runs hold a group of 2", len(b.running()))
''')
SEEDS["c08-overlap-after-reload"] = dict(
    property="C08",
    edits=[("dsari/daemon.py", """            if run.job.name in self.config.jobs:
                run.job = self.config.jobs[run.job.name]
            else:
""", """            if run.respawn and run.job.name in self.config.jobs:
                run.job = self.config.jobs[run.job.name]
            else:
""")],
    needs="a run in progress during a reload which keeps its job, and another run of the job before the first one ends",
    breaks="Runs in progress keep the job object of the previous configuration, so the job is not seen to be running and overlaps itself.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sleep", "60"]}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: len(b.running()) == 1, 15), "a does not run")
b.signal(signal.SIGHUP)
insist(wait(lambda: "reloading" in b.text(), 10), "no reload")
time.sleep(1)
b.trigger("a", {})
time.sleep(4)
insist(len(b.running()) == 1, "the job overlaps itself")
''')
SEEDS["c10-second-trigger-added"] = dict(
    property="C10",
    edits=[("dsari/daemon.py", """            scheduled_job_runs = [x for x in self.scheduled_runs if x.job == job]
""", """            scheduled_job_runs = [
                x
                for x in self.scheduled_runs
                if x.job == job and x.trigger_type == "schedule"
            ]
""")],
    needs="a trigger for a job which has a pending triggered run",
    breaks="A trigger does not replace the pending run if that was triggered, too: both are run.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "echo $X"]}}})
b.start()
now = time.time()
b.trigger("a", {"schedule_time": now + 5, "environment": {"X": "1"}})
insist(wait(lambda: "Trigger detected" in b.text(), 10), "first trigger")
b.trigger("a", {"schedule_time": now + 6, "environment": {"X": "2"}})
time.sleep(10)
got = [b.output(r).strip() for r in b.runs()]
insist(got == ["2"], "runs of {}", got)
''')
SEEDS["c11-null-environment"] = dict(
    property="C11",
    edits=[("dsari/daemon.py", """        if ("environment" in j) and (type(j["environment"]) != dict):
""", """        if j.get("environment") and (type(j["environment"]) != dict):
""")],
    needs="a trigger file whose environment is null or false",
    breaks="The daemon dies of an uncaught TypeError.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
b.start()
b.trigger("a", {"environment": None})
time.sleep(3)
insist(b.alive(), "the daemon died: {}", b.text()[-300:])
b.trigger("a", {})
insist(wait(lambda: len(b.runs()) >= 1, 15), "no run")
''')
SEEDS["c13-no-limit-in-shutdown"] = dict(
    property="C13",
    edits=[("dsari/daemon.py", """            for run in self.running_runs:
                self.process_run_execution_time(run)

            if self.shutdown:
                self.monitor_shutdown()
""", """            if self.shutdown:
                self.monitor_shutdown()
            else:
                for run in self.running_runs:
                    self.process_run_execution_time(run)
""")],
    needs="a run which exceeds max_execution after a shutdown was requested",
    breaks="max_execution is not enforced during a shutdown, which may then never end.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sleep", "100"], "max_execution": 4, "max_execution_grace": 1}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 15), "a does not run")
b.signal(signal.SIGTERM)
insist(wait(lambda: not b.alive(), 20), "no end of the shutdown")
''')
SEEDS["c12-last-wakeup-wins"] = dict(
    property="C12",
    edits=[("dsari/daemon.py", """        self.next_wakeup = dtnow() + seconds_to_td(60.0)
        for wakeup in self.wakeups:
            # Times of the same timezone would compare by wall clock
            if dt_to_epoch(wakeup) < dt_to_epoch(self.next_wakeup):
                self.next_wakeup = wakeup
""", """        latest = dtnow() + seconds_to_td(60.0)
        self.next_wakeup = latest
        for wakeup in self.wakeups:
            if wakeup < latest:
                self.next_wakeup = wakeup
""")],
    needs="two instants to wait for, the later one noted last, e.g. two runs with max_execution",
    breaks="The daemon sleeps until the wrong one of several instants, so limits are enforced (and runs started) too late.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sleep", "100"], "max_execution": 8}, "b": {"command": ["sleep", "100"], "max_execution": 40}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running("a"), 15), "a does not run")
b.trigger("b", {})
insist(wait(lambda: b.running("b"), 15), "b does not run")
start = b.running("a")[0]["start_time"]
insist(wait(lambda: b.runs("a"), 20), "a is still running after {} s", time.time() - start)
''')
SEEDS["c14-old-jobs-still-triggered"] = dict(
    property="C14",
    edits=[("dsari/daemon.py", """        self.jobs = []
        self.scheduled_runs = []
        for run in self.running_runs:
            run.respawn = False
        now = dtnow()
""", """        self.scheduled_runs = []
        for run in self.running_runs:
            run.respawn = False
        now = dtnow()
""")],
    needs="a reload which changes or removes a job, and a trigger for it afterwards",
    breaks="Triggers are still taken for the jobs of the previous configuration: removed jobs are run, and changed jobs with their old command.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["echo", "old"]}}})
b.start()
b.config({"jobs": {"a": {"command": ["echo", "new"]}}})
b.signal(signal.SIGHUP)
insist(wait(lambda: "reloading" in b.text(), 10), "no reload")
time.sleep(1)
b.trigger("a", {})
insist(wait(lambda: b.runs(), 15), "no run")
out = b.output(b.runs()[0])
insist(out == "new\\n", "ran {!r}", out)
''')
SEEDS["c16-return-data-leaks"] = dict(
    property="C16",
    edits=[("dsari/__init__.py", """    def __init__(self, job, id=None):
        self.job = job
        self.id = id
        self.schedule_time = None
        self.trigger_type = None
        self.trigger_data = {}
        self.run_data = {}
""", """    def __init__(self, job, id=None, run_data={}):
        self.job = job
        self.id = id
        self.schedule_time = None
        self.trigger_type = None
        self.trigger_data = {}
        self.run_data = run_data
""")],
    needs="a run with return_data and then one (of any job) without",
    breaks="All runs share one dictionary of run data, so the return data of a run are recorded for later runs, too.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "echo 5 >return_data.json"]}, "b": {"command": ["true"]}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.runs("a"), 15), "no run")
b.trigger("b", {})
insist(wait(lambda: b.runs("b"), 15), "no run")
insist(json.loads(b.runs("a")[0]["run_data"]) == {"return_data": 5}, b.runs("a"))
insist(json.loads(b.runs("b")[0]["run_data"]) == {}, b.runs("b"))
''')
SEEDS["c17-two-transactions"] = dict(
    property="C17",
    edits=[("dsari/database.py", """        cur.execute(
            sql_statement,
            self._build_insert(
                [
                    ("job_name", run.job.name),
                    ("run_id", run.id),
                    ("schedule_time", run.schedule_time),
                    ("start_time", run.start_time),
                    ("stop_time", run.stop_time),
""", """        self._execute(
            cur,
            sql_statement,
            self._build_insert(
                [
                    ("job_name", run.job.name),
                    ("run_id", run.id),
                    ("schedule_time", run.schedule_time),
                    ("start_time", run.start_time),
                    ("stop_time", run.stop_time),
"""), ("dsari/database.py", """        cur.execute(sql_statement, (run.id,))
        self.db_conn.commit()

    def clear_runs_running(self):
        sql_statement = \"\"\"
            DELETE
            FROM
                runs_running
        \"\"\"
        sql_statement = self._modify_statement(sql_statement)
        cur = self.db_conn.cursor()
        cur.execute(sql_statement)
        self.db_conn.commit()
""", """        self._execute(cur, sql_statement, (run.id,))

    def _execute(self, cur, sql_statement, args=()):
        cur.execute(sql_statement, args)
        self.db_conn.commit()

    def clear_runs_running(self):
        sql_statement = \"\"\"
            DELETE
            FROM
                runs_running
        \"\"\"
        sql_statement = self._modify_statement(sql_statement)
        cur = self.db_conn.cursor()
        self._execute(cur, sql_statement)
""")],
    needs="a crash between the two statements which record the end of a run",
    breaks="The completed run is committed before it is removed from the runs in progress; after a crash in between it is in both lists.",
    demo='''
from dl import *
import datetime
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
real = sqlite3.connect
class Cur(sqlite3.Cursor):
    def execute(self, sql, *a):
        if "delete" in sql.lower() and "run_id" in sql.lower():
            os._exit(7)
        return sqlite3.Cursor.execute(self, sql, *a)
class Conn(sqlite3.Connection):
    def cursor(self, *a, **kw):
        return sqlite3.Connection.cursor(self, Cur)
    def execute(self, *a):
        return self.cursor().execute(*a)
pid = os.fork()
if pid == 0:
    sqlite3.connect = lambda *a, **kw: real(*a, **dict({"factory": Conn}, **kw))
    import dsari.config, dsari.database
    c = dsari.config.get_config(b.etc)
    db = dsari.database.get_database(c)
    run = dsari.Run(c.jobs["a"])
    run.schedule_time = run.start_time = run.stop_time = datetime.datetime.now().astimezone()
    run.trigger_type, run.exit_code = "schedule", 0
    db.insert_running_run(run)
    db.insert_run(run)
    os._exit(0)
os.waitpid(pid, 0)
n = len(b.runs()) + len(b.running())
insist(n == 1, "the run is in {} lists", n)
''')
SEEDS["c18-job-beats-trigger"] = dict(
    property="C18",
    edits=[("dsari/daemon.py", """        for (key, val) in job.environment.items():
            environ[str(key)] = str(val)
        if "environment" in run.trigger_data:
            for (key, val) in run.trigger_data["environment"].items():
                environ[key] = val
""", """        if "environment" in run.trigger_data:
            for (key, val) in run.trigger_data["environment"].items():
                environ[key] = val
        for (key, val) in job.environment.items():
            environ[str(key)] = str(val)
""")],
    needs="a trigger which sets a variable that the job's environment sets as well",
    breaks="The job's environment overrides the trigger's.",
    demo='''
from dl import *
b = Box()
b.config({"environment": {"X": "0", "Y": "0"}, "jobs": {"a": {"command": ["sh", "-c", "echo $X $Y"], "environment": {"X": "1", "Y": "1"}}}})
b.start()
b.trigger("a", {"environment": {"X": "2"}})
insist(wait(lambda: b.runs(), 15), "no run")
out = b.output(b.runs()[0])
insist(out == "2 1\\n", "got {!r}", out)
''')
SEEDS["c19-high-descriptors"] = dict(
    property="C19",
    edits=[("dsari/daemon.py", """        os.closerange(3, 1024)
""", """        os.closerange(3, 64)
""")],
    needs="the daemon has a descriptor of 64 or above which is inherited",
    breaks="Open files of the daemon with high numbers are passed on to runs.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["ls", "/proc/self/fd"]}}})
os.dup2(os.open(b.d + "/secret", os.O_CREAT | os.O_RDONLY), 200)
b.start(fds=(200,))
b.trigger("a", {})
insist(wait(lambda: b.runs(), 15), "no run")
out = b.output(b.runs()[0]).split()
insist("200" not in out, "descriptors {}", out)
''')
SEEDS["c19-stderr-own-offset"] = dict(
    property="C19",
    edits=[("dsari/daemon.py", """        os.dup2(devnull_f.fileno(), 0)
        os.dup2(out_f.fileno(), 1)
        os.dup2(out_f.fileno(), 2)
        devnull_f.close()
        out_f.close()
""", """        err_f = open(out_f.name, "w")
        os.dup2(devnull_f.fileno(), 0)
        os.dup2(out_f.fileno(), 1)
        os.dup2(err_f.fileno(), 2)
        devnull_f.close()
        out_f.close()
        err_f.close()
""")],
    needs="a run which writes to both standard output and standard error",
    breaks="Both are written to the output file at their own positions and overwrite each other.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "echo one; echo two >&2; echo three"]}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.runs(), 15), "no run")
out = b.output(b.runs()[0])
insist(out == "one\\ntwo\\nthree\\n", "output {!r}", out)
''')
SEEDS["c20-previous-good-by-start"] = dict(
    property="C20",
    edits=[("dsari/database.py", """                exit_code = 0
            ORDER BY
                stop_time DESC
""", """                exit_code = 0
            ORDER BY
                start_time DESC
""")],
    needs="overlapping successful runs of a job (concurrent_runs), the longer one started first",
    breaks="The previous good run is the one started last, not the one which ended last.",
    demo='''
from dl import *
import datetime
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
import dsari.config, dsari.database
c = dsari.config.get_config(b.etc)
db = dsari.database.get_database(c)
def at(s):
    return datetime.datetime.fromtimestamp(1700000000 + s).astimezone()
ids = []
for start, stop in ((20, 30), (10, 40)):
    run = dsari.Run(c.jobs["a"])
    run.schedule_time = run.start_time = at(start)
    run.stop_time, run.trigger_type, run.exit_code = at(stop), "file", 0
    db.insert_run(run)
    ids.append(run.id)
got = [None if r is None else r.id for r in db.get_previous_runs(c.jobs["a"])]
insist(got == [ids[1], ids[1], None], "previous runs {} of {}", got, ids)
''')
SEEDS["c21-mongo-empty-selection"] = dict(
    property="C21",
    edits=[("dsari/database.py", """        if run_ids is not None:
            where = {"run_id": {"$in": run_ids}}
        elif job_names is not None:
            where = {"job_name": {"$in": job_names}}
""", """        if run_ids:
            where = {"run_id": {"$in": run_ids}}
        elif job_names:
            where = {"job_name": {"$in": job_names}}
""")],
    needs="a query for an empty list of jobs or runs, with MongoDB",
    breaks="Selecting no jobs returns the runs of all jobs, unlike the other backends.",
    demo='''
from dl import *
import types
asked = []
class Coll:
    def find(self, where=None):
        asked.append(where or {})
        rows = [{"job_name": "a", "run_id": "1", "trigger_type": "file", "trigger_data": {}, "run_data": {}}]
        return [r for r in rows if all(r[k] in v["$in"] for k, v in (where or {}).items())]
    def __getattr__(self, name):
        return lambda *a, **kw: None
class DB(dict):
    def __missing__(self, k):
        return Coll()
    def __getattr__(self, k):
        return Coll() if k in ("runs", "runs_running") else (lambda *a, **kw: [])
class Client(dict):
    def __init__(self, *a, **kw):
        pass
    def __missing__(self, k):
        return DB()
m = types.ModuleType("pymongo")
m.MongoClient, m.DESCENDING, m.ASCENDING = Client, -1, 1
sys.modules["pymongo"] = m
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}, "database": {"type": "mongodb"}})
import dsari.config, dsari.database
db = dsari.database.get_database(dsari.config.get_config(b.etc))
insist(len(list(db.get_runs(job_names=["a"]))) == 1, "job a")
insist(len(list(db.get_runs(job_names=[]))) == 0, "no jobs selected, but runs returned")
''')
SEEDS["c22-next-run-in-local-time"] = dict(
    property="C22",
    edits=[("dsari/info.py", """                        job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
""", """                        job.schedule, job.name, start_time=dtnow()
""")],
    needs="a job with a schedule_timezone whose offset differs from local time",
    breaks="job list reports the next run as if the schedule were in local time.",
    demo='''
from dl import *
import datetime
b = Box()
b.config({"jobs": {"a": {"command": ["true"], "schedule": "0 12 * * * 0", "schedule_timezone": "Asia/Kolkata"}}})
r = b.main("dsari.info", "job", "list", "--format", "json")
t = datetime.datetime.fromisoformat(json.loads(r.stdout)["a"]["next_scheduled_run"]).astimezone(datetime.timezone.utc)
insist((t.hour, t.minute) == (6, 30), "next run at {}", t)
''')
SEEDS["c23-cache-kept-alive"] = dict(
    property="C23",
    edits=[("dsari/prometheus_exporter.py", """            self.job_cache = self.get_job_metrics()
            self.job_cache_time = dtnow()
        metrics.update(self.job_cache)
""", """            self.job_cache = self.get_job_metrics()
        self.job_cache_time = dtnow()
        metrics.update(self.job_cache)
""")],
    needs="requests which follow each other within the job cache time",
    breaks="Every request prolongs the life of the cache; with frequent requests new runs are never shown.",
    demo='''
from dl import *
import datetime
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
os.environ["WSGI_ARGS"] = json.dumps(["-c", b.etc, "--job-cache-time", "2"])
import dsari.config, dsari.database
import dsari.prometheus_exporter as m
def get():
    body = b"".join(m.wsgi_application({"PATH_INFO": "/metrics", "QUERY_STRING": "", "REQUEST_METHOD": "GET"}, lambda *a: None)).decode()
    return [l for l in body.splitlines() if l.startswith("dsari_run_count")][0].split()[-1]
insist(get() == "0", "not 0 at first")
c = dsari.config.get_config(b.etc)
run = dsari.Run(c.jobs["a"])
run.schedule_time = run.start_time = run.stop_time = datetime.datetime.now().astimezone()
run.trigger_type, run.exit_code = "file", 0
dsari.database.get_database(c).insert_run(run)
for i in range(4):
    time.sleep(1.2)
    got = get()
insist(got == "1", "still {} runs after 4.8 s", got)
''')
SEEDS["c24-failures-of-latest-only"] = dict(
    property="C24",
    edits=[("dsari/render.py", """                "failed_runs": sorted(
                    [run for run in self.runs if run.exit_code > 0],
                    key=lambda run: run.stop_time,
                    reverse=True,
                )[:10],
            }
""", """            }
            context["failed_runs"] = [
                run for run in context["runs"] if run.exit_code > 0
            ][:10]
""")],
    needs="more than 25 runs, failed ones among the older",
    breaks="Only failures among the 25 latest runs are listed.",
    demo='''
from dl import *
import datetime
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
import dsari.config, dsari.database
c = dsari.config.get_config(b.etc)
db = dsari.database.get_database(c)
for i in range(40):
    run = dsari.Run(c.jobs["a"])
    run.schedule_time = run.start_time = run.stop_time = datetime.datetime.fromtimestamp(1700000000 + i).astimezone()
    run.trigger_type, run.exit_code = "file", 77 if i in (3, 30) else 0
    db.insert_run(run)
    if i == 3:
        bad = run.id
r = b.main("dsari.render")
insist(r.returncode == 0, r.stderr)
insist(bad in open(b.var + "/html/index.html").read(), "the failed run is not in the index")
''')
SEEDS["c04-types-interleaved"] = dict(
    property="C04",
    edits=[("dsari/config.py", """            for fn_type in ["yaml", "json"]:
                config_files = [
                    os.path.join(config_d, fn)
                    for fn in os.listdir(config_d)
                    if fn.endswith("." + fn_type)
                    and os.path.isfile(os.path.join(config_d, fn))
                    and os.access(os.path.join(config_d, fn), os.R_OK)
                ]
                config_files.sort()
                for file in config_files:
                    try:
                        config = utils.dict_merge(
                            config, self.load_file(file, fn_type)
                        )
                    except (ValueError, ImportError) as e:
                        raise ConfigError(e)
""", """            config_files = [
                (os.path.join(config_d, fn), fn.rsplit(".", 1)[-1])
                for fn in os.listdir(config_d)
                if fn.endswith((".yaml", ".json"))
                and os.path.isfile(os.path.join(config_d, fn))
                and os.access(os.path.join(config_d, fn), os.R_OK)
            ]
            config_files.sort()
            for file, fn_type in config_files:
                try:
                    config = utils.dict_merge(config, self.load_file(file, fn_type))
                except (ValueError, ImportError) as e:
                    raise ConfigError(e)
""")],
    needs="a JSON and a YAML file in config.d which set the same option, the JSON one sorting first",
    breaks="The files of config.d are merged in the order of their names alone, not YAML before JSON.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {}})
os.mkdir(b.etc + "/config.d")
b.config('{"environment": {"X": "json"}}', "config.d/a.json", raw=True)
b.config('environment: {X: yaml}', "config.d/b.yaml", raw=True)
import dsari.config
x = dsari.config.get_config(b.etc).environment["X"]
insist(x == "json", "X is {}", x)
''')
SEEDS["c05-shortened-numbers"] = dict(
    property="C05",
    edits=[("dsari/utils.py", """        elif type(env_in[k]) in (int, float):
            env_out[k] = str(env_in[k])
""", """        elif type(env_in[k]) in (int, float):
            env_out[k] = "{:g}".format(env_in[k])
""")],
    needs="a numeric environment value with more than 6 significant digits",
    breaks="Numbers in environments lose digits.",
    demo='''
from dl import *
b = Box()
b.config({"environment": {"X": 1234567}, "jobs": {"a": {"command": ["true"], "environment": {"Y": 0.1}}}})
import dsari.config
c = dsari.config.get_config(b.etc)
insist(c.environment == {"X": "1234567"} and c.jobs["a"].environment == {"Y": "0.1"}, "{} {}", c.environment, c.jobs["a"].environment)
''')
SEEDS["c06-whole-seconds"] = dict(
    property="C06",
    edits=[("dsari/info.py", """                if jobs[job.name][k] is not None:
                    jobs[job.name][k] = td_to_seconds(jobs[job.name][k])
""", """                if jobs[job.name][k] is not None:
                    jobs[job.name][k] = jobs[job.name][k].seconds
""")],
    needs="a max_execution or max_execution_grace which is no whole number of seconds, or a day or more",
    breaks="The dump loses fractions of seconds and whole days of the limits.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"], "max_execution": 90000.5, "max_execution_grace": 0.25}}})
j = json.loads(b.main("dsari.info", "config", "dump").stdout)["jobs"]["a"]
insist((j["max_execution"], j["max_execution_grace"]) == (90000.5, 0.25), j)
''')
SEEDS["c13-trigger-in-shutdown"] = dict(
    property="C13",
    edits=[("dsari/daemon.py", """    def process_triggers(self):
        if self.shutdown:
            return
        for job in self.jobs:
""", """    def process_triggers(self):
        if self.shutdown and not self.running_runs:
            return
        for job in self.jobs:
""")],
    needs="a trigger which arrives while the daemon waits for runs to end before it exits",
    breaks="Triggers are still taken and run during a shutdown.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sleep", "8"]}, "b": {"command": ["true"]}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running(), 15), "a does not run")
b.signal(signal.SIGTERM)
time.sleep(1)
b.trigger("b", {})
insist(wait(lambda: not b.alive(), 20), "no end")
insist(not b.runs("b"), "b was run after the shutdown request")
''')
SEEDS["c15-reload-revives"] = dict(
    property="C15",
    edits=[("dsari/daemon.py", """    def reset_jobs(self):
        if self.shutdown:
            return
        self.jobs = []
""", """    def reset_jobs(self):
        self.jobs = []
""")],
    needs="SIGHUP after a shutdown request, while a run is in progress",
    breaks="The reload schedules jobs again although the daemon is shutting down.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["sleep", "8"]}, "b": {"command": ["true"], "schedule": "* * * * * *"}}})
b.start()
b.trigger("a", {})
insist(wait(lambda: b.running("a"), 15), "a does not run")
b.signal(signal.SIGTERM)
time.sleep(1.5)
n = len(b.runs("b"))
b.signal(signal.SIGHUP)
time.sleep(4)
insist(len(b.runs("b")) == n, "b was run after the shutdown request")
''')
SEEDS["c16-epoch-in-wrong-zone"] = dict(
    property="C16",
    edits=[("dsari/utils.py", """def dt_to_epoch(dt):
    return dt.timestamp()
""", """def dt_to_epoch(dt):
    return time.mktime(dt.timetuple()) + dt.microsecond / 1e6
"""), ("dsari/utils.py", """import os
import re
""", """import os
import re
import time
""")],
    needs="a schedule_timezone whose offset differs from local time (or a repeated hour at the end of DST)",
    breaks="Times are converted as if they were local: recorded schedule times are hours off.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"], "schedule": "* * * * * *", "schedule_timezone": "Asia/Kolkata"}}})
b.start()
r = wait(lambda: b.runs(), 15)
insist(r, "no run")
insist(abs(r[0]["schedule_time"] - r[0]["start_time"]) < 60, r[0])
''')
SEEDS["c01-offset-per-schedule"] = dict(
    property="C01",
    edits=[("dsari/utils.py", """    crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
    subsecond""", """    crc = binascii.crc32((job_name + schedule).encode("utf-8")) & 0xFFFFFFFF
    subsecond""")],
    needs="a job whose schedule is changed, or one time expressed by two schedules",
    breaks="The sub-second offset of a job depends on its schedule, not on its name alone.",
    demo='''
from dl import *
import datetime
from dsari.utils import get_next_schedule_time
ref = datetime.datetime(2024, 5, 1, 11, 0, tzinfo=datetime.timezone.utc)
for i in range(5):
    got = {get_next_schedule_time(s, "job%d" % i, start_time=ref) for s in ("0 12 * * * 0", "0 12 1 5 * 0", "0  12 * * * 0")}
    insist(len(got) == 1, got)
''')
SEEDS["c02-narrow-draw"] = dict(
    property="C02",
    edits=[("dsari/croniter_hash.py", """            crc = random.randint(0, 0xFFFFFFFF)
""", """            crc = random.randint(0, 0xFF)
""")],
    needs="an R in the seconds field, observed often",
    breaks="R in the seconds field only ever draws 0 to 7.",
    demo='''
from dl import *
import datetime
from dsari.utils import get_next_schedule_time
ref = datetime.datetime(2024, 5, 1, 11, 0, tzinfo=datetime.timezone.utc)
got = {get_next_schedule_time("0 12 * * * R", "job", start_time=ref).second for i in range(300)}
insist(len(got) > 30, got)
''')
SEEDS["c03-phase-of-half-days"] = dict(
    property="C03",
    edits=[("dsari/utils.py", """((dt_to_epoch(start_time) - crc) % 86400)""", """((dt_to_epoch(start_time) - crc) % 43200)""")],
    needs="asking at the other half of the day",
    breaks="A DAILY recurrence without BYHOUR is at one of two times of the day, depending on when it is asked for.",
    demo='''
from dl import *
import datetime
from dsari.utils import get_next_schedule_time
ref = datetime.datetime(2024, 5, 1, tzinfo=datetime.timezone.utc)
for i in range(5):
    got = {get_next_schedule_time("RRULE:FREQ=DAILY", "job%d" % i, start_time=ref + datetime.timedelta(hours=h)).strftime("%H:%M") for h in range(24)}
    insist(len(got) == 1, got)
''')
