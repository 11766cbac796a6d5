"""The real scheduler daemon under a simulated world.

dsari.daemon.main() runs in a process of its own with a virtual clock (lib/shim.c).  Sleeping advances that clock and
performs the planned events (signals, trigger files, new configurations, stalls).  A fork is real: the child runs
dsari's own child code up to exec, where its argument vector, environment, descriptors etc. are recorded; from then on
the run is a virtual process with a planned life (duration, status, reaction to SIGTERM, files it leaves behind).
"""
import bisect
import collections
import errno
import json
import os
import pickle
import random
import shutil
import signal
import sqlite3
import struct
import subprocess
import sys
import time
import traceback

import yaml

import core

REAL = {k: getattr(os, k) for k in ("fork", "wait", "wait3", "wait4", "waitpid", "kill", "killpg", "execv", "execve", "execvp", "execvpe",
                                    "urandom", "_exit", "setpgid", "getpgid", "system", "popen", "posix_spawn", "posix_spawnp")}
REAL_SLEEP = time.sleep
FIRST_PID = 5000000
S = None      # the active simulation, in the daemon process and its children


class Proc:
    def __init__(self, pid, n, t, beh, rec):
        self.pid, self.n, self.t, self.beh, self.rec = pid, n, t, beh, rec
        self.end = None
        self.status = None
        self.state = "running"     # running -> zombie -> reaped
        self.termed = False
        self.written = 0


class Sim:
    def __init__(self, plan, d):
        self.plan, self.d = plan, d
        self.in_child = False
        self.trace = []
        self.procs = collections.OrderedDict()
        self.count = collections.Counter()
        self.t0 = plan["start"]
        self.events = sorted(plan.get("events", []), key=lambda e: e["t"])
        self.ei = 0
        self.horizon = self.t0 + plan["horizon"]
        self.poll = plan.get("poll", 0.4)
        self.rng = random.Random(plan.get("seed", 0))
        self.outstanding = {}      # trigger path -> id
        self.idle = 0
        self.last = None
        self.inject = None
        self.arms = [dict(a) for a in plan.get("arms", [])]
        self.hits = collections.Counter()
        self.up = False
        self.data_dir = d + "/var"
        self.depth = 0
        self.readers = None
        self.reading = {}          # readings which were stopped and go on later
        self.reads = 0
        self.config_event = None
        self.since_sleep = []      # runs reaped since the daemon last slept

    # -- bookkeeping --
    def now(self):
        return core.vt_now()

    def rel(self):
        return round(core.vt_now() - self.t0, 6)

    def log(self, ev, **kw):
        kw["ev"] = ev
        kw["t"] = self.rel()
        self.trace.append(kw)

    def finish(self, kind, value=None):
        if self.in_child:
            REAL["_exit"](1)
        self.poll_triggers()
        self.settle()
        for k in sorted(self.reading):
            self.resume_read(k)
        self.log("daemon_end", kind=kind, value=value, outstanding=self.outstanding)
        core.vt_disable()
        sys.stderr.flush()
        with open(self.d + "/trace.json.tmp", "w") as f:
            json.dump(self.trace, f)
        os.rename(self.d + "/trace.json.tmp", self.d + "/trace.json")
        REAL["_exit"](0)

    def poll_triggers(self):
        for path in list(self.outstanding):
            if not os.path.exists(path):
                self.log("gone", id=self.outstanding.pop(path), path=path, errsize=self.errsize())

    def errsize(self):
        try:
            return os.fstat(2).st_size
        except OSError:
            return 0

    # -- virtual processes --
    def settle(self):
        """Let processes whose time has come end."""
        now = self.now()
        for p in sorted((p for p in self.procs.values() if p.state == "running" and p.end is not None and p.end <= now), key=lambda p: (p.end, p.n)):
            self.end_proc(p)

    def write_output(self, p):
        """What the run has written so far."""
        out = p.beh.get("out")
        if not out or not p.rec.get("out"):
            return
        until = self.now() if p.end is None else min(self.now(), p.end)
        while p.written < len(out) and p.t + out[p.written][0] <= until:
            with open(p.rec["out"], "ab") as f:
                f.write(out[p.written][1].encode("utf-8"))
            p.written += 1

    def end_proc(self, p):
        self.write_output(p)
        for fn, text in (p.beh.get("files") or {}).items():
            path = os.path.join(p.rec["env"].get("RUN_DIR", self.d), fn)
            if text is not None and os.path.isdir(os.path.dirname(path)):
                with open(path, "wb") as f:
                    f.write(text.encode("utf-8", "surrogateescape"))
        p.state = "zombie"
        self.trace.append({"ev": "exit", "t": round(p.end - self.t0, 6), "pid": p.pid, "n": p.n, "status": p.status})

    def next_end(self):
        ends = [p.end for p in self.procs.values() if p.state == "running" and p.end is not None]
        return min(ends) if ends else None

    @staticmethod
    def status_of(beh):
        if beh.get("sig"):
            return beh["sig"] | (0x80 if beh.get("core") else 0)
        return (beh.get("code", 0) & 0xFF) << 8

    def fork(self):
        self.hit("prefork")
        n = len(self.procs)
        path = "%s/exec-%d.json" % (self.d, n)
        self.poll_triggers()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = REAL["fork"]()
        if pid == 0:
            self.in_child = True
            self.path = path
            monitor_off()
            return 0
        _, status = REAL["waitpid"](pid, 0)
        core.vt_add(self.plan.get("fork_time", 0.001))
        fake = FIRST_PID + n
        try:
            with open(path) as f:
                rec = json.load(f)
        except FileNotFoundError:
            rec = {"argv": None, "env": {}, "failed": status}
        job = rec["env"].get("JOB_NAME")
        real_job = rec.get("job", job)
        behs = self.plan.get("procs", {}).get(real_job) or self.plan.get("procs", {}).get("*") or [{}]
        beh = behs[self.count[real_job] % len(behs)]
        self.count[real_job] += 1
        p = Proc(fake, n, self.now(), beh, rec)
        if rec["argv"] is None:
            p.end, p.status = self.now(), status
        else:
            dur = beh.get("dur", 1.0)
            p.end = None if dur is None else self.now() + dur
            p.status = self.status_of(beh)
        self.procs[fake] = p
        self.log("start", pid=fake, n=n, job=real_job, rec=rec, beh=beh)
        self.hit("fork")
        if n + 1 >= self.plan.get("max_starts", 50):
            self.horizon = min(self.horizon, self.now())
        return fake

    def exec(self, file, argv, env):
        rec = {"file": os.fsdecode(file), "argv": [os.fsdecode(a) for a in argv], "env": {os.fsdecode(k): os.fsdecode(v) for k, v in env.items()}}
        rec["cwd"] = os.getcwd()
        rec["job"] = os.path.basename(rec["env"].get("JOB_DIR", "")) or rec["env"].get("JOB_NAME")
        rd = rec["env"].get("RUN_DIR")
        # the variables above may be overridden by configuration: the output file tells
        try:
            out = os.readlink("/proc/self/fd/1")
            rec["out"] = out
            parts = out.split("/")
            if parts[-1] == "output.txt":
                rec["job"], rec["run"] = parts[-3], parts[-2]
        except OSError:
            pass
        fds = {}
        for fd in os.listdir("/proc/self/fd"):
            try:
                fds[fd] = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                pass
        rec["fds"] = {k: v for k, v in fds.items() if "/proc/" not in v}
        rec["pgid_ok"] = os.getpgid(0) == os.getpid()
        if self.plan.get("probe_db"):
            rec["db"] = {k: [r["run_id"] for r in v] for k, v in read_db(self.data_dir + "/dsari.sqlite3").items()}
        with open(self.path + ".tmp", "w") as f:
            json.dump(rec, f)
        os.rename(self.path + ".tmp", self.path)
        core.vt_disable()
        REAL["_exit"](0)

    def wait(self, pid, options):
        self.step()
        while True:
            self.settle()
            mine = [p for p in self.procs.values() if p.state != "reaped" and (pid == -1 or pid == 0 or p.pid == pid or p.pid == -pid)]
            if not mine:
                raise ChildProcessError(errno.ECHILD, "No child processes")
            done = [p for p in mine if p.state == "zombie"]
            if done:
                p = min(done, key=lambda p: (p.end, p.n))
                p.state = "reaped"
                self.since_sleep.append(p.n)
                self.log("reap", pid=p.pid, n=p.n)
                self.hit("reap")
                return p.pid, p.status
            if options & os.WNOHANG:
                return 0, 0
            e = self.next_end()
            self.advance(min(x for x in (e, self.now() + 3600) if x is not None))

    def kill(self, pid, sig):
        p = self.procs.get(pid)
        if p is None:
            if pid == os.getpid() and pid > 1:
                return REAL["kill"](pid, sig)
            self.log("foreign_kill", pid=pid, sig=int(sig))
            raise ProcessLookupError(errno.ESRCH, "No such process")
        self.settle()
        if p.state == "reaped":
            self.log("kill", pid=pid, n=p.n, sig=int(sig), state="reaped")
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if sig == 0:
            return
        self.log("kill", pid=pid, n=p.n, sig=int(sig), state=p.state)
        if p.state != "running":
            return
        if sig == signal.SIGTERM:
            t = p.beh.get("term", {"delay": 0.1})
            if t is None or p.termed:
                p.termed = True
                return
            p.termed = True
            end = self.now() + t.get("delay", 0.1)
            if p.end is None or end < p.end:
                p.end = end
                p.status = self.status_of({"sig": 15} if "code" not in t else {"code": t["code"]})
        elif sig == signal.SIGKILL:
            p.end = min(self.now() + 0.001, p.end or 1e18)
            p.status = 9
        else:
            p.end, p.status = self.now() + 0.001, int(sig)

    # -- time --
    def sleep(self, sec):
        if sec < 0:
            raise ValueError("sleep length must be non-negative")
        self.up = True
        self.step()
        self.since_sleep = []
        if sec <= 0.1:
            sec = max(sec, self.poll)
        # a sleep lasts a little longer than asked for
        self.advance(self.now() + sec + 0.0001)

    def step(self):
        """Notice a daemon which runs in circles without time passing."""
        now = core.vt_now()
        if self.last is not None and now - self.last < 0.001:
            self.idle += 1
            if self.idle > 20000:
                self.finish("spin")
        else:
            self.idle = 0
            self.last = now

    def advance(self, target):
        self.poll_triggers()
        while True:
            e = self.events[self.ei] if self.ei < len(self.events) else None
            if e is not None and self.t0 + e["t"] <= target and self.t0 + e["t"] <= self.horizon:
                self.ei += 1
                core.vt_set(max(self.t0 + e["t"], self.now()))
                self.settle()
                self.perform(e)
                target = max(target, self.now())
                continue
            if target >= self.horizon:
                core.vt_set(max(self.horizon, self.now()))
                self.finish("horizon")
            core.vt_set(max(target, self.now()))
            self.poll_triggers()
            return

    def perform(self, e):
        do = e["do"]
        if do == "trigger":
            self.write_trigger(e)
        elif do == "config":
            write_config(self.d, place(e["config"], self.d))
            self.config_event = e["i"]
            self.log("config", i=e.get("i"))
        elif do == "file":
            path = place(e["path"], self.d)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(e["content"].encode("utf-8", "surrogateescape"))
            self.log("file", path=path)
        elif do == "stall":
            core.vt_add(e["for"])
            self.log("stall", length=e["for"])
        elif do == "probe":
            self.log("probe", db={k: [r["run_id"] for r in v] for k, v in read_db(self.data_dir + "/dsari.sqlite3").items()},
                     live={p.rec.get("run"): p.state for p in self.procs.values()})
        elif do == "read":
            self.read(e)
        elif do == "resume":
            self.resume_read(e["k"])
        elif do == "inject":
            self.inject = dict(e)
            monitor_on()
        elif do == "signal":
            for s in e["sig"] if isinstance(e["sig"], list) else [e["sig"]]:
                self.log("signal", sig=s, errsize=self.errsize(), **({"i": e["i"]} if "i" in e else {}))
                signal.raise_signal(getattr(signal, s))
        else:
            raise AssertionError(do)

    # -- readings --
    def states(self):
        return {p.n: "new" if p.n in self.since_sleep else {"reaped": "done"}.get(p.state, "running") for p in self.procs.values()}

    def read(self, e, mid=False):
        ns = core.vt_now_ns()
        self.read_(e, mid)
        core.vt_set_ns(ns)

    def read_(self, e, mid):
        for p in self.procs.values():
            self.write_output(p)
        k = e.get("session") or "r%d" % self.reads
        self.reads += 1
        if k in self.reading:
            return
        argv = list(e.get("argv", []))
        if "output" in e:
            known = [p for p in self.procs.values() if p.rec.get("run")]
            if not known:
                return
            p = known[-1 - e["output"] % len(known)]      # 0: the latest
            argv.append(p.rec["run"])
        info = {"argv": argv, "mod": e.get("mod"), "kind": e["kind"], "mid": mid, "session": e.get("session"), "began": self.rel(), "before": self.states(), "i": e.get("i")}
        if "output" in e:
            info["n"] = p.n
            info["written"] = p.written
        info["config"] = self.config_event
        if e.get("mod") == "dsari.render" and any(x["mod"] == "dsari.render" for x in self.reading.values()):
            return
        ans = self.readers.ask(id=k, kind=e["kind"], mod=e.get("mod"), argv=argv, now=self.now(), pause=e.get("pause"), local=self.plan.get("local", "UTC"))
        if ans["state"] == "paused":
            self.reading[k] = info
            bisect.insort(self.events, {"t": self.rel() + e.get("for", 5), "do": "resume", "k": k}, lo=self.ei, key=lambda x: x["t"])
            return
        self.log_read(info, ans)

    def resume_read(self, k):
        if k not in self.reading:
            return
        ns = core.vt_now_ns()
        info = self.reading.pop(k)
        info["paused"] = True
        self.log_read(info, self.readers.ask(id=k, now=self.now()))
        core.vt_set_ns(ns)

    def log_read(self, info, ans):
        info["after"] = self.states()
        if "n" in info:
            p = next(p for p in self.procs.values() if p.n == info["n"])
            self.write_output(p)
            info["written_after"] = p.written
        if info["mod"] == "dsari.render":
            info["pages"] = {}
            base = self.data_dir + "/html"
            for x in sorted(os.listdir(base)) if os.path.isdir(base) else []:
                if os.path.isdir(base + "/" + x):
                    text = None
                    if os.path.exists("%s/%s/index.html" % (base, x)):
                        with open("%s/%s/index.html" % (base, x), encoding="utf-8") as f:
                            text = f.read()
                    runs = sorted(y for y in os.listdir(base + "/" + x) if os.path.exists("%s/%s/%s/index.html" % (base, x, y)))
                    info["pages"][x] = [runs, None if text is None else [y for y in runs if y in text]]
        self.log("read", **info, **{x: ans.get(x) for x in ("state", "rc", "out", "err")})

    def write_trigger(self, e):
        td = "%s/trigger/%s" % (self.data_dir, e["job"])
        os.makedirs(td, exist_ok=True)
        path = "%s/trigger.%s" % (td, e.get("fmt", "json"))
        if path in self.outstanding:
            self.log("superseded", id=self.outstanding.pop(path))
        if "content" in e:
            text = e["content"]
        elif e.get("fmt") == "yaml":
            text = yaml.safe_dump(e["data"])
        else:
            text = json.dumps(e["data"])
        with open(path + ".tmp", "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
        t = self.now() + e.get("mtime", 0)
        os.utime(path + ".tmp", ns=(int(t * 1e6) * 1000,) * 2)
        os.rename(path + ".tmp", path)
        self.outstanding[path] = e["id"]
        self.log("trigger", id=e["id"], job=e["job"], fmt=e.get("fmt", "json"), mtime=int(t * 1e6) / 1e6, errsize=self.errsize())

    # -- injection at an arbitrary step of the code under test --
    def hit(self, what):
        """Something happened which may arm an injection."""
        if not self.up and not self.plan.get("arm_early"):
            return
        self.hits[what] += 1
        for a in self.arms:
            if a["on"] == what and a["n"] == self.hits[what]:
                self.arms.remove(a)
                self.inject = a
                if a["k"] <= 0:
                    self.tick()
                else:
                    monitor_on()
                break

    def tick(self):
        i = self.inject
        if i is None:
            return
        i["k"] -= 1
        if i["k"] > 0:
            return
        self.inject = None
        if i["what"] == "crash":
            self.settle()
            self.log("crash")
            self.finish("crash")
        if i["what"] == "read":
            monitor_off()
            for e in i["reads"]:
                self.read(e, mid=True)
            return
        more = i.get("then")
        self.poll_triggers()
        for s in i["sig"]:
            self.log("signal", sig=s, injected=True, errsize=self.errsize())
        if more:
            self.inject = dict(more)
        else:
            monitor_off()
        for s in i["sig"]:
            signal.raise_signal(getattr(signal, s))


TOOL = 4
_monitored = []


def monitor_on():
    """Instruction events in the code of the package."""
    if _monitored:
        return
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "sim")
    prefix = os.path.join(core.REPO, "dsari") + os.sep
    ev = mon.events
    codes = package_codes(prefix)
    mon.register_callback(TOOL, ev.INSTRUCTION, lambda code, off: S.tick() if S is not None and not S.in_child else None)
    for c in codes:
        mon.set_local_events(TOOL, c, ev.INSTRUCTION)
    _monitored.extend(codes)


def monitor_off():
    if not _monitored:
        return
    mon = sys.monitoring
    for c in _monitored:
        mon.set_local_events(TOOL, c, 0)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
    mon.free_tool_id(TOOL)
    _monitored.clear()


_codes = None


def package_codes(prefix):
    global _codes
    if _codes is None:
        import types
        found = set()

        def add(c):
            if c in found or not os.path.realpath(c.co_filename).startswith(prefix):
                return
            found.add(c)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    add(k)

        def visit(o, depth=0):
            o = getattr(o, "__func__", o)
            if isinstance(o, types.FunctionType):
                add(o.__code__)
                for c in o.__closure__ or ():
                    try:
                        visit(c.cell_contents, depth + 1)
                    except ValueError:
                        pass
            elif isinstance(o, (staticmethod, classmethod)):
                visit(o.__func__)
            elif isinstance(o, property):
                for f in (o.fget, o.fset):
                    if f:
                        visit(f)
            elif isinstance(o, type) and depth < 3 and (o.__module__ or "").startswith("dsari"):
                for v in vars(o).values():
                    visit(v, depth + 1)
        for name, m in list(sys.modules.items()):
            if name == "dsari" or name.startswith("dsari."):
                for v in vars(m).values():
                    visit(v)
        _codes = list(found)
    return _codes


# ---- dispatching wrappers: the real thing unless a simulation is active ----
def _dispatch(name, fn):
    real = REAL[name]

    def wrapper(*a, **kw):
        if S is None:
            return real(*a, **kw)
        return fn(*a, **kw)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _fork():
    return REAL["fork"]() if S.in_child else S.fork()


class Usage(tuple):
    ru_utime = ru_stime = ru_maxrss = 0


def _exec(file, args, env=None):
    if not S.in_child:
        S.log("exec_in_daemon", file=os.fsdecode(file))
        S.finish("exec")
    S.exec(file, args, os.environ if env is None else env)


def _sleep(sec):
    if S is None or S.in_child:
        return REAL_SLEEP(sec)
    return S.sleep(sec)


def _kill(pid, sig):
    if S.in_child:
        # a run's child code has no business killing anything but itself
        if pid != os.getpid():
            raise ProcessLookupError(errno.ESRCH, "No such process")
        return REAL["kill"](pid, sig)
    return S.kill(pid, sig)


def _setpgid(pid, pgid):
    if pid >= FIRST_PID:
        return None
    return REAL["setpgid"](pid, pgid)


def _no(*a, **kw):
    S.log("unexpected_spawn", args=repr(a)[:200])
    raise OSError(errno.ENOSYS, "not simulated")


def install():
    if getattr(os.fork, "_sim", False):
        return
    _dispatch("fork", _fork)
    os.fork._sim = True
    _dispatch("wait4", lambda pid, opt: S.wait(pid, opt) + (Usage(),))
    _dispatch("wait3", lambda opt: S.wait(-1, opt) + (Usage(),))
    _dispatch("waitpid", lambda pid, opt: REAL["waitpid"](pid, opt) if S.in_child else S.wait(pid, opt))
    _dispatch("wait", lambda: S.wait(-1, 0))
    _dispatch("kill", _kill)
    _dispatch("killpg", _kill)
    _dispatch("execve", _exec)
    _dispatch("execvpe", _exec)
    _dispatch("execv", _exec)
    _dispatch("execvp", _exec)
    _dispatch("setpgid", _setpgid)
    _dispatch("urandom", lambda n: S.rng.randbytes(n))
    for n in ("system", "popen", "posix_spawn", "posix_spawnp"):
        _dispatch(n, _no)
    time.sleep = _sleep


install()


# ---- SQLite: statements and commits are possible points of injection ----
_connect = sqlite3.connect


class Cursor(sqlite3.Cursor):
    def execute(self, *a):
        sql_hit()
        return super().execute(*a)


class Connection(sqlite3.Connection):
    def cursor(self, factory=Cursor):
        return super().cursor(factory)

    def execute(self, *a):
        sql_hit()
        return super().execute(*a)

    def commit(self):
        sql_hit()
        r = super().commit()
        sql_hit()
        return r


def sql_hit():
    if S is not None and not S.in_child:
        S.hit("sql")


def _sqlite_connect(*a, **kw):
    if S is not None and S.arms and len(a) < 6 and "factory" not in kw:
        kw["factory"] = Connection
    return _connect(*a, **kw)


sqlite3.connect = _sqlite_connect


# ---- files of a case ----
def place(v, d):
    if isinstance(v, str):
        return v.replace("$D", d)
    if isinstance(v, list):
        return [place(x, d) for x in v]
    if isinstance(v, dict):
        return {k: place(x, d) for k, x in v.items()}
    return v


def write_config(d, config):
    os.makedirs(d + "/etc", exist_ok=True)
    with open(d + "/etc/dsari.json.tmp", "w", encoding="utf-8", errors="surrogateescape") as f:
        if isinstance(config, str):
            f.write(config)
        else:
            config = dict(config)
            config.setdefault("data_dir", d + "/var")
            json.dump(config, f)
    os.rename(d + "/etc/dsari.json.tmp", d + "/etc/dsari.json")


def read_db(path):
    """{'runs': [...], 'running': [...]} as stored."""
    out = {"runs": [], "running": []}
    if not os.path.exists(path):
        return out
    # a copy, as a crash may have left something to roll back
    tmp = "%s/readdb-%d" % (core.SCRATCH, os.getpid())
    for x in ("-journal", "-wal", "-shm", ""):
        try:
            shutil.copyfile(path + x, tmp + x)
        except FileNotFoundError:
            pass
    con = _connect(tmp)
    con.row_factory = sqlite3.Row
    try:
        have = {r[0] for r in con.execute("SELECT name FROM sqlite_master")}
        for key, table in (("runs", "runs"), ("running", "runs_running")):
            if table in have:
                out[key] = [dict(r) for r in con.execute("SELECT * FROM " + table)]
        ok = [r[0] for r in con.execute("PRAGMA integrity_check")]
    except sqlite3.DatabaseError as e:
        if type(e) is not sqlite3.DatabaseError:
            raise
        ok = [str(e)]
    con.close()
    if ok != ["ok"]:
        raise core.Violation("the database is damaged: %s" % "; ".join(ok[:3]))
    for x in ("-journal", "-wal", "-shm", ""):
        try:
            os.remove(tmp + x)
        except FileNotFoundError:
            pass
    return out


class Trace:
    def __init__(self, events, res, d, plan):
        self.events, self.res, self.d, self.plan = events, res, d, plan
        self.db = read_db(d + "/var/dsari.sqlite3")
        end = events[-1] if events and events[-1]["ev"] == "daemon_end" else None
        self.end = end["kind"] if end else res.kind
        self.end_t = end["t"] if end else None
        self.rc = end["value"] if end else res.value
        self.err = res.err.decode(errors="replace")
        self.starts = [e for e in events if e["ev"] == "start"]
        self.by_pid = {e["pid"]: e for e in self.starts}
        for e in self.starts:
            e["exit_t"] = e["reap_t"] = None
            e["kills"] = []
            e["group"] = e["rec"]["env"].get("CONCURRENCY_GROUP")
            e["run"] = e["rec"].get("run")
            e["type"] = e["rec"]["env"].get("TRIGGER_TYPE")
        for e in events:
            if e["ev"] == "exit":
                self.by_pid[e["pid"]]["exit_t"] = e["t"]
                self.by_pid[e["pid"]]["status"] = e["status"]
            elif e["ev"] == "reap":
                self.by_pid[e["pid"]]["reap_t"] = e["t"]
            elif e["ev"] == "kill":
                self.by_pid[e["pid"]]["kills"].append(e)

    def of(self, *kinds):
        return [e for e in self.events if e["ev"] in kinds]

    def alive(self, what=""):
        """The daemon must not have died (of an exception, a signal, or by spinning)."""
        if self.end not in ("horizon", "exit", "crash"):
            raise core.Violation("the daemon ended with %s %s %s\n%s" % (self.end, self.rc, what, self.err[-1800:]))
        for k in ("foreign_kill", "exec_in_daemon", "unexpected_spawn"):
            if self.of(k):
                raise core.Violation("the daemon did something odd: %r" % self.of(k)[0])


def _daemon(plan, d):
    global S
    core.missing(plan.get("missing"))
    import dsari.daemon
    import resource
    core.set_tz(plan.get("local", "UTC"))
    # only what a daemon's caller would have
    env = {"PATH": "/usr/bin:/bin", "TZ": plan.get("local", "UTC"), "HOME": "/nonexistent"}
    env.update(plan.get("environ", {}))
    for k in plan.get("unset", []):
        env.pop(k, None)
    os.environ.clear()
    os.environ.update(env)
    random.seed(plan.get("seed", 0))
    os.setpgid(0, 0)
    os.umask(0o022)
    sys.argv = ["dsari-daemon", "-c", d + "/etc"] + plan.get("args", [])
    sim = Sim(plan, d)
    for i, e in enumerate(sim.events):
        e.setdefault("i", i)
    def audit(event, args):
        # opening the main configuration file tells when it is (re)loaded
        if event == "open" and S is sim and not sim.in_child and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).endswith("dsari.json"):
            sim.poll_triggers()
            sim.log("read_config")
            sim.hit("config")
        elif S is sim and not sim.in_child and event == "os.rename":
            sim.poll_triggers()
        elif S is sim and not sim.in_child and event in ("os.mkdir", "os.remove"):
            if event != "os.remove" or "trigger" in os.fsdecode(args[0]):
                # the one before, if several are removed without time passing
                sim.poll_triggers()
                sim.hit(event[3:])
    if plan.get("readers"):
        import readers
        sim.readers = readers.Readers(d)
    sys.addaudithook(audit)
    core.vt_enable(plan["start"], plan.get("step", 2000), 400000)
    S = sim
    for c in plan.get("carried", []):
        # trigger files left over from an earlier life
        sim.outstanding[c["path"]] = c["id"]
        sim.log("trigger", id=c["id"], job=c["job"], fmt=c["fmt"], mtime=c["mtime"], errsize=0)
    if plan.get("at_start"):
        sim.inject = dict(plan["at_start"])
        monitor_on()
    for e in plan.get("reads_before", []):
        sim.read(e)
    if plan.get("db_crash"):
        # in the middle of something which is done to the files of the database
        def crash():
            sim.settle()
            sim.log("crash")
            sim.finish("crash")
        counter = core.Counter()
        counter.call(crash)
        counter.arm(os.path.realpath(d) + "/var/dsari.sqlite3*", plan["db_crash"]["what"], plan["db_crash"]["k"])
    try:
        rc = dsari.daemon.main()
    except SystemExit as e:
        rc = e.code
    except BaseException as e:
        if sim.in_child:
            traceback.print_exc()
            REAL["_exit"](1)
        mon = traceback.format_exc()
        sim.finish("exc" if core.in_dsari(e.__traceback__) else "harness", mon[-2500:])
    if sim.in_child:
        REAL["_exit"](rc if isinstance(rc, int) else 1)
    sim.finish("exit", rc)


_zygote = None


def zygote(plan, d, what="sim"):
    global _zygote
    if _zygote is None:
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        p = subprocess.Popen([sys.executable, "-s", "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "zygote.py"), str(r1), str(w2)],
                             pass_fds=(r1, w2), stdin=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        _zygote = (p, os.fdopen(w1, "wb"), os.fdopen(r2, "rb"))
    _, w, r = _zygote
    b = pickle.dumps((what, plan, d))
    w.write(struct.pack("<I", len(b)) + b)
    w.flush()
    h = r.read(4)
    if len(h) < 4:
        raise core.HarnessError("the simulation process died")
    res = pickle.loads(r.read(struct.unpack("<I", h)[0]))
    if isinstance(res, BaseException):
        raise core.HarnessError("the simulation process failed: %r" % res)
    return res


def run(plan, d, first=True):
    """Run the daemon through the plan in directory d."""
    if first:
        write_config(d, place(plan["config"], d))
    try:
        os.remove(d + "/trace.json")
    except FileNotFoundError:
        pass
    for f in os.listdir(d):
        if f.startswith("exec-"):
            os.remove(d + "/" + f)
    res = zygote(plan, d)
    if os.path.exists(d + "/trace.json"):
        with open(d + "/trace.json") as f:
            ev = json.load(f)
        if ev[-1]["kind"] == "harness":
            raise core.HarnessError("simulation failed: %s" % ev[-1]["value"])
        ev.sort(key=lambda e: e["t"])     # stable: exits are logged late
        ev.sort(key=lambda e: e["ev"] == "daemon_end")
    elif res.kind == "died" and os.WIFSIGNALED(res.value):
        sig = os.WTERMSIG(res.value)
        ev = [{"ev": "daemon_end", "t": None, "kind": "spin" if sig == signal.SIGUSR2 else "signal %d" % sig, "value": None}]
    elif res.kind == "exc" and res.in_dsari:
        raise core.Violation("the daemon failed to start: %s" % res.value)
    else:
        raise core.HarnessError("no trace: %s %s %s" % (res.kind, res.value, res.err.decode(errors="replace")[-2000:]))
    return Trace(ev, res, d, plan)


def timeline(tr, n=60):
    """The trace as text for messages."""
    out = []
    for e in tr.events:
        t = e["t"]
        if e["ev"] == "start":
            out.append("%12.3f start  #%d %s (%s) due %s group %s" % (t, e["n"], e["job"], e["type"], e["rec"]["env"].get("SCHEDULE_TIME"), e["group"]))
        elif e["ev"] in ("exit", "reap", "kill"):
            out.append("%12.3f %-6s #%d %s" % (t, e["ev"], e["n"], {k: v for k, v in e.items() if k in ("sig", "status", "state")}))
        else:
            out.append("%12.3f %s" % (t if t is not None else -1, {k: v for k, v in e.items() if k not in ("t", "db", "live")}))
    if len(out) > n:
        out = out[:n // 2] + ["..."] + out[-n // 2:]
    return "\n".join(out)
