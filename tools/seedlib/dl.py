"""Helpers of the demonstrations: a scratch dsari installation run from the current directory."""
import atexit
import json
import os
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import time

ROOT = os.getcwd()
sys.path.insert(0, ROOT)


class Box:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="dsari-demo-")
        self.etc, self.var = self.d + "/etc", self.d + "/var"
        os.mkdir(self.etc)
        os.mkdir(self.var)
        self.p = None
        self.log = open(self.d + "/log", "w+")
        atexit.register(self.close)

    def config(self, c, name="dsari.json", raw=False):
        if not raw:
            c = json.dumps(dict({"data_dir": self.var}, **c))
        with open(self.etc + "/tmp", "w") as f:
            f.write(c)
        os.rename(self.etc + "/tmp", self.etc + "/" + name)

    def start(self, env=None, fds=()):
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "dsari.daemon", "--debug", "-c", self.etc], stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, cwd=ROOT, env=env, pass_fds=fds)
        end = time.time() + 20
        while "Scheduler running" not in self.text():
            if time.time() > end or self.p.poll() is not None:
                print(self.text())
                raise SystemExit("daemon does not start")
            time.sleep(0.05)

    def text(self):
        with open(self.d + "/log") as f:
            return f.read()

    def signal(self, s):
        self.p.send_signal(s)

    def alive(self):
        return self.p.poll() is None

    def query(self, sql, *args):
        con = sqlite3.connect(self.var + "/dsari.sqlite3", timeout=10)
        con.row_factory = sqlite3.Row
        try:
            return [dict(r) for r in con.execute(sql, args)]
        except sqlite3.OperationalError:
            return []
        finally:
            con.close()

    def runs(self, job=None):
        return [r for r in self.query("select * from runs order by stop_time") if job in (None, r["job_name"])]

    def running(self, job=None):
        return [r for r in self.query("select * from runs_running") if job in (None, r["job_name"])]

    def trigger(self, job, data, name="trigger.json", raw=False, poke=True):
        t = self.var + "/trigger/" + job
        os.makedirs(t, exist_ok=True)
        with open(t + "/tmp", "w") as f:
            f.write(data if raw else json.dumps(data))
        os.rename(t + "/tmp", t + "/" + name)
        if poke:
            self.signal(signal.SIGUSR1)

    def output(self, r):
        with open("%s/runs/%s/%s/output.txt" % (self.var, r["job_name"], r["run_id"])) as f:
            return f.read()

    def main(self, module, *args, env=None):
        return subprocess.run([sys.executable, "-B", "-m", module, "-c", self.etc, *args], capture_output=True, text=True, cwd=ROOT, env=env, timeout=100)

    def close(self):
        if self.p and self.p.poll() is None:
            pids = []
            try:
                with open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)) as f:
                    pids = [int(x) for x in f.read().split()]
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            for pid in pids:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(self.d, ignore_errors=True)


def wait(cond, seconds, step=0.05):
    """The value of cond() when it becomes true, or None."""
    end = time.time() + seconds
    while True:
        v = cond()
        if v:
            return v
        if time.time() > end:
            return None
        time.sleep(step)


def insist(cond, msg="", *a):
    if not cond:
        print("BROKEN: " + (str(msg).format(*a) if a else str(msg)))
        os._exit(close_all())


def close_all():
    atexit._run_exitfuncs()
    sys.stdout.flush()
    return 1


def record(b, rows, config=None):
    """Record runs: (job, schedule, start, stop, exit code[, trigger type[, trigger data]]) in seconds from a fixed time; the run IDs."""
    import datetime
    import dsari.config
    import dsari.database
    c = config or dsari.config.get_config(b.etc)
    db = dsari.database.get_database(c)
    ids = []
    for job, sched, start, stop, code, *more in rows:
        run = dsari.Run(c.jobs.get(job) or dsari.Job(job))
        run.schedule_time, run.start_time, run.stop_time = (datetime.datetime.fromtimestamp(1700000000 + t).astimezone() for t in (sched, start, stop))
        run.exit_code = code
        run.trigger_type = more[0] if more else "schedule"
        run.trigger_data = more[1] if len(more) > 1 else {}
        db.insert_run(run)
        ids.append(run.id)
    return ids
