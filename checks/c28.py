"""C28: which installation the programs work on, and running the daemon in the background."""
import json
import os
import re
import signal
import subprocess
import sys
import time

from hypothesis import strategies as st

import core
import sim
from core import check

QUICK, THOROUGH = 30, 240
TECHNIQUE = "property-based testing with real processes: the installed programs on generated layouts of default directories (the system-wide ones redirected by a preloaded library), environments and ways to name a directory; what they use, report and leave behind compared with the rule"
LEVEL_NOTE = ("Randomised search with shrinking. /etc/dsari, /var/lib/dsari and their /usr/local counterparts are redirected into the scratch directory by lib/redir.c. "
              "One known finding is tolerated: the exporter fails with --config-dir if the default configuration is invalid.")
RULE = "case = states of the candidate directories x DSARI_HOME x way to give --config-dir x data_dir x up to 6 programs or daemon sessions (in the foreground or with --fork); non-trivial = at least one run was recorded"
ASSUMPTIONS = ["HOME is set", "real time: what a daemon is to do at once may take up to 30 s"]
PLACES = ["home", "local", "sys"]
STATES = ["absent", "empty", "other", "json", "yaml", "config.d", "both"]
HAS = {"json", "yaml", "config.d", "both", "invalid"}
WAIT = 30


@st.composite
def plans(draw, tier):
    few = draw(st.booleans())
    state = {}
    for p in ["env", "dir"] + PLACES:
        state[p] = draw(st.sampled_from(["absent", "empty", "other"] if few and p in PLACES and draw(st.booleans()) else STATES))
    if state["dir"] not in HAS and draw(st.integers(0, 3)):
        state["dir"] = "json"
    if draw(st.integers(0, 7)) == 0:
        state[draw(st.sampled_from(sorted(state)))] = "invalid"
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["daemon", "daemon", "jobs", "runs", "metrics", "render", "check", "dump", "version"]))
        step = {"do": k}
        if k == "daemon":
            step["fork"] = draw(st.booleans())
            step["hup"] = draw(st.integers(0, 2)) == 0
            step["end"] = draw(st.sampled_from(["SIGTERM", "SIGINT"]))
        if k == "version":
            step["program"] = draw(st.sampled_from(["daemon", "info", "render", "prometheus-exporter"]))
        steps.append(step)
    return {"state": state, "env": draw(st.sampled_from([False, False, False, "absolute", "relative"])), "dir": draw(st.sampled_from([None, None, ["-c", "$D/cfg"], ["-c", "cfg"], ["--config-dir=./cfg/"], ["-c", "link"], ["-c$D/x/../cfg"]])),
            "data": draw(st.sampled_from([None, None, None, "$D/mine", "$D/mine/deeper", "mine", "./mine/deeper", "x/../mine"])), "db": draw(st.sampled_from([None, None, None, "own.sqlite3", "$D/y/own.sqlite3", "y/own.sqlite3"])), "steps": steps}


def strategy(tier):
    return plans(tier)


def places(d):
    return {"env": (d + "/dh/etc", d + "/dh/var"), "home": (d + "/u/.dsari/etc", d + "/u/.dsari/var"), "local": (d + "/root/usr/local/etc/dsari", d + "/root/usr/local/lib/dsari"),
            "sys": (d + "/root/etc/dsari", d + "/root/var/lib/dsari"), "dir": (d + "/cfg", None)}


# who runs it, where, and where it is told its files are
COMMAND = ["sh", "-c", 'printf "%s\\n" "$PPID" "$(pwd -P)" "$PWD" "$RUN_DIR" "$JOB_DIR" "$DATA_DIR" "$TRIGGER_DIR"']


def config(place, data, extra=False, db=None):
    c = {"jobs": {"job-" + place: {"command": COMMAND}}}
    if extra:
        c["jobs"]["new-" + place] = {"command": COMMAND}
    if db:
        c["database"] = {"type": "sqlite3", "file": db}
    if data:
        c["data_dir"] = data
    return c


def furnish(path, state, c):
    """Put the configuration c there; (configuration file which is the last one read)."""
    if state == "absent":
        return None
    os.makedirs(path, exist_ok=True)
    text = json.dumps(c)
    if state == "other":
        name, text = "dsari.conf", "x"
    elif state == "invalid":
        name, text = "dsari.json", '{"jobs": []}'
    elif state == "config.d":
        os.makedirs(path + "/config.d", exist_ok=True)
        name = "config.d/a.json"
    elif state == "empty":
        return None
    else:
        name = "dsari.yaml" if state == "yaml" else "dsari.json"
        if state == "both":
            with open(path + "/dsari.yaml", "w") as f:
                f.write("report_html_gz: false\n")
    with open(path + "/" + name, "w") as f:
        f.write(text)
    return path + "/" + name


def tree(d):
    out = set()
    for base, dirs, files in os.walk(d):
        out |= {os.path.join(base, x) for x in dirs + files}
    return out


class Case:
    def __init__(self, plan, d):
        self.plan, self.d = plan, d
        pl = places(d)
        for x in ("u", "root/etc", "root/var/lib", "root/usr/local/etc", "root/usr/local/lib", "root/root", "x"):
            os.makedirs(d + "/" + x)
        os.symlink("cfg", d + "/link")
        self.data = None if plan["data"] is None else plan["data"].replace("$D", d)
        self.db = plan.get("db") and plan["db"].replace("$D", d)
        order = ["env"] if plan["env"] else [p for p in PLACES if plan["state"][p] in HAS][:1] or ["home"]
        self.default = order[0]
        self.place = "dir" if plan["dir"] else self.default
        self.file = None
        for p in pl:
            f = furnish(pl[p][0], plan["state"][p], config(p, self.data if p == self.place else None, db=self.db if p == self.place else None))
            if p == self.place:
                self.file = f
        if plan["dir"]:
            os.makedirs(d + "/cfg", exist_ok=True)      # a link to follow
        self.state = plan["state"][self.place]
        # without a configuration there is nothing to tell it the data directory
        told = self.state in HAS - {"invalid"}
        self.var = os.path.normpath(os.path.join(d, (self.data if told else None) or pl[self.default][1]))
        self.file_db = os.path.normpath(os.path.join(d, self.db)) if told and self.db else self.var + "/dsari.sqlite3"
        self.jobs = ["job-" + self.place] if self.state in HAS else []
        self.env = {"PATH": "/usr/bin:/bin", "HOME": d + "/u", "TZ": "UTC", "LC_ALL": "C.UTF-8", "LD_PRELOAD": redir(), "REDIR_ROOT": d + "/root", "PYTHONDONTWRITEBYTECODE": "1"}
        if plan["env"]:
            self.env["DSARI_HOME"] = "dh" if plan["env"] == "relative" else d + "/dh"
        self.args = [x.replace("$D", d) for x in plan["dir"] or []]
        self.invalid = self.state == "invalid"
        self.stray = plan["state"][self.default] == "invalid"
        self.runs = {}      # run ID -> job
        self.n = 0

    def command(self, program, *args):
        return [sys.executable, "-s", "-B", os.path.join(core.REPO, "dsari-" + program)] + self.args + list(args)

    def call(self, program, *args):
        p = subprocess.run(self.command(program, *args), stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", cwd=self.d, env=self.env, timeout=600)
        return p.returncode, p.stdout, p.stderr[-2000:]

    def works(self, program, *args):
        rc, out, err = self.call(program, *args)
        if self.invalid:
            check(rc != 0, "dsari-{} {} succeeds although the configuration in {} is invalid: {}", program, args, self.place, out)
            return None
        check(rc == 0, "dsari-{} {} with {}: status {}\n{}\n{}", program, args, self.place, rc, out[-500:], err)
        return out

    # -- the daemon --
    def trigger(self, job):
        self.n += 1
        t = "%s/trigger/%s" % (self.var, job)
        os.makedirs(t, exist_ok=True)
        with open(t + "/tmp", "w") as f:
            f.write(json.dumps({"n": self.n}))
        os.rename(t + "/tmp", t + "/trigger.json")
        return self.n

    def await_run(self, job, n, pid=None):
        """The process ID of the daemon (from the output) when the run with that trigger has been recorded."""
        end = time.monotonic() + WAIT
        db = self.file_db
        while time.monotonic() < end:
            if os.path.exists(db):
                for r in sim.read_db(db)["runs"]:
                    if json.loads(r["trigger_data"]) == {"n": n} and r["job_name"] == job:
                        self.runs[r["run_id"]] = job
                        with open("%s/runs/%s/%s/output.txt" % (self.var, job, r["run_id"])) as f:
                            out = f.read().split("\n")
                        rd = os.path.realpath("%s/runs/%s/%s" % (self.var, job, r["run_id"]))
                        real = [os.path.realpath(os.path.join(out[1], self.unseen(x))) for x in out[1:7]]
                        want = [rd, rd, rd, os.path.dirname(rd), os.path.realpath(self.var), os.path.realpath(self.var + "/trigger")]
                        check(real == want, "run {} in {} is told the paths {}", r["run_id"], out[1], out[2:])
                        return int(out[0])
            if pid is not None and gone(pid):
                break
            time.sleep(0.02)
        return None

    def daemon(self, step):
        fork = step["fork"]
        log = open(self.d + "/log", "w+")
        if not self.jobs or self.invalid:
            if self.invalid:
                p = subprocess.run(self.command("daemon"), stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=self.d, env=self.env, timeout=600)
                check(p.returncode != 0, "the daemon accepts the invalid configuration of {}", self.place)
            return
        job = self.jobs[0]
        n = self.trigger(job)
        p = subprocess.Popen(self.command("daemon", *(["--fork"] if fork else [])), stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=self.d, env=self.env, start_new_session=True)
        pid = None

        def said():
            log.seek(0)
            return log.read()[-1500:]
        try:
            if fork:
                try:
                    rc = p.wait(WAIT)
                except subprocess.TimeoutExpired:
                    raise core.Violation("dsari-daemon --fork does not return\n" + said())
                check(rc == 0, "dsari-daemon --fork ends with {}\n{}", rc, said())
            pid = self.await_run(job, n, None if fork else p.pid)
            check(pid is not None, "the daemon{} on {} does not run {} as triggered in {}\n{}", " (--fork)" if fork else "", self.place, job, self.var, said())
            check(fork == (pid != p.pid), "the daemon {} is process {}", "started with --fork as %d" % p.pid if fork else "started in the foreground", pid)
            check(not gone(pid), "the daemon is gone after its first run\n{}", said())
            if step["hup"]:
                with open(self.file + ".new", "w") as f:
                    json.dump(config(self.place, self.data, True, self.db), f)
                os.rename(self.file + ".new", self.file)
                self.jobs = ["job-" + self.place, "new-" + self.place]
                n = self.trigger("new-" + self.place)
                os.kill(pid, signal.SIGHUP)
                again = self.await_run("new-" + self.place, n, pid)
                check(again == pid, "after SIGHUP, the new job is not run (daemon {} {})\n{}", pid, again, said())
            os.kill(pid, getattr(signal, step["end"]))
            end = time.monotonic() + WAIT
            while time.monotonic() < end and not (p.poll() is not None if not fork else gone(pid)):
                time.sleep(0.02)
            check(p.poll() is not None if not fork else gone(pid), "the daemon goes on after {}\n{}", step["end"], said())
            if not fork:
                check(p.returncode == 0, "the daemon ended with {} after {}\n{}", p.returncode, step["end"], said())
            pid = None
        finally:
            for x in {pid, None if p.poll() is not None else p.pid}:
                if x is not None:
                    try:
                        os.kill(x, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            p.wait()
            if fork:
                # a daemon in the background which did not run anything, if any
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            log.close()

    # -- the others --
    def step(self, step):
        k = step["do"]
        if k == "daemon":
            self.daemon(step)
        elif k == "version":
            rc, out, err = self.call(step["program"], "--version")
            known = step["program"] == "prometheus-exporter" and self.stray
            check(known or (rc == 0 and re.fullmatch(r"\d[\w.+-]*\n", out)), "dsari-{} --version: {} {!r}\n{}", step["program"], rc, out, err)
            if rc == 0:
                self.versions.add(out)
                check(len(self.versions) == 1, "the programs have different versions: {}", self.versions)
        elif k == "jobs":
            out = self.works("info", "job", "list", "--format=json")
            check(out is None or sorted(json.loads(out)) == self.jobs, "job list on {} shows {} instead of {}", self.place, out, self.jobs)
        elif k == "check":
            self.works("info", "config", "check")
        elif k == "dump":
            out = self.works("info", "config", "dump")
            check(out is None or os.path.normpath(os.path.join(self.d, json.loads(out)["data_dir"])) == self.seen(self.var), "the data directory on {} is {} instead of {}", self.place, out, self.seen(self.var))
        elif k == "runs":
            out = self.works("info", "run", "list", "--format=json")
            check(out is None or {i: r["job_name"] for i, r in json.loads(out).items()} == self.runs, "run list on {} shows {} instead of {}", self.place, out, self.runs)
        elif k == "render":
            out = self.works("render")
            if out is not None:
                pages = {i for j in self.jobs for i in (os.listdir(self.var + "/html/" + j) if os.path.isdir(self.var + "/html/" + j) else []) if i != "index.html"}
                check(pages == set(self.runs), "pages below {}: {} instead of {}", self.var, pages, self.runs)
        elif k == "metrics":
            if self.stray and self.place == "dir":
                return       # the known finding
            out = self.works("prometheus-exporter", "--dump")
            if out is not None:
                got = {m.group(1): float(m.group(2)) for m in re.finditer(r'^dsari_run_count\{job_name="([^"]*)"\} (\S+)$', out, re.M)}
                want = {j: float(sum(x == j for x in self.runs.values())) for j in set(self.runs.values()) if j in self.jobs}
                check({j: v for j, v in got.items() if v} == want, "metrics on {}: {} instead of {}\n{}", self.place, got, want, out)

    def unseen(self, path):
        """Where that really is."""
        r = self.d + "/root"
        return r + path if os.path.isabs(path) and not path.startswith(self.d + "/") else path

    def seen(self, path):
        """As the programs see it."""
        r = self.d + "/root"
        return path[len(r):] if path.startswith(r + "/") else path


def gone(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] in "ZX"
    except (FileNotFoundError, ProcessLookupError):
        return True


def redir():
    """The library which redirects the system-wide directories."""
    so = os.path.join(core.SCRATCH, "redir.so")
    if not os.path.exists(so):
        src = os.path.join(os.path.dirname(os.path.abspath(core.__file__)), "redir.c")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp", src, "-ldl"], check=True)
        os.rename(so + ".tmp", so)
    return so


def run(plan):
    with core.TempDir() as d:
        c = Case(plan, d)
        c.versions = set()
        before = tree(d)
        for i, s in enumerate(plan["steps"]):
            try:
                c.step(s)
            except core.Violation as e:
                raise core.Violation("step %d, %s: %s" % (i, s, e))
            # nothing else is touched
            allowed = os.path.realpath(c.var)
            for x in tree(d) - before:
                ok = x == allowed or x.startswith(allowed + "/") or allowed.startswith(x + "/") or x in (d + "/log", d + "/u/.ipython") or x == c.file or x.startswith(c.file_db) or c.file_db.startswith(x + "/")
                check(ok, "step {}, {}: on {} (data in {}), {} was created", i, s, c.place, c.var, x)
    return {"nontrivial": len(c.runs) > 0, "checked": len(plan["steps"]), "classes": ["place-" + c.place + ("-default-" + c.default if c.place == "dir" else ""), c.state] + ["fork" for s in plan["steps"] if s.get("fork")][:1]
            + ["hup" for s in plan["steps"] if s.get("hup")][:1]}
