"""Shared pieces of the checks."""
import ctypes
import importlib
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

REPO = os.path.realpath(os.environ["DSARI_REPO"])
SCRATCH = os.environ["VERIF_SCRATCH"]


class Violation(Exception):
    """The property does not hold for this case."""


class Endless(Violation):
    """A case which does not come to an end: not shrunk, as that would take too long."""


class HarnessError(BaseException):
    """The harness could not decide the case."""


def in_dsari(tb):
    """True if the traceback passes through the code under test."""
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(os.path.join(REPO, "dsari") + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, plan):
    plan = json.loads(json.dumps(plan))
    if getattr(mod, "FORK", None) is not None:
        return forked(mod, plan)
    return here(mod, plan)


def here(mod, plan):
    try:
        return mod.run(plan) or {}
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as e:
        if in_dsari(e.__traceback__):
            raise Violation("the code under test raised: " + "".join(traceback.format_exception(e))[-1500:])
        raise HarnessError("".join(traceback.format_exception(e)))


def forked(mod, plan):
    """As here(), in a child of its own, so that no case depends on the ones before (the modules named in FORK are loaded once)."""
    for m in mod.FORK:
        importlib.import_module(m)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = _REAL["fork"]()
    if pid == 0:
        os.close(r)
        resource.setrlimit(resource.RLIMIT_CPU, (60, resource.getrlimit(resource.RLIMIT_CPU)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            val = ("ok", here(mod, plan))
        except Violation as e:
            val = ("endless" if isinstance(e, Endless) else "violation", str(e))
        except BaseException as e:
            val = ("harness", str(e) if isinstance(e, HarnessError) else "".join(traceback.format_exception(e)))
        with os.fdopen(w, "w") as f:
            json.dump(val, f)
        sys.stdout.flush()
        sys.stderr.flush()
        _REAL["_exit"](0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    status = _REAL["waitpid"](pid, 0)[1]
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
            raise Endless("no end within 60 s of CPU time (other cases take a second or two)")
        raise HarnessError("the child of the case died")
    kind, val = json.loads(data)
    if kind == "ok":
        return val
    raise {"violation": Violation, "endless": Endless}.get(kind, HarnessError)(val)


def elsewhere(mod, fn, args, seed):
    """mod.fn(*args) in a fresh process, where strings hash differently."""
    code = ("import sys, json\nsys.path[:0] = %r\nsys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')\nimport %s\n"
            "print(json.dumps(%s.%s(*json.loads(sys.stdin.read()))))" % ([REPO, os.path.dirname(__file__), os.path.join(os.path.dirname(__file__), "..", "checks")], mod, mod, fn))
    o = subprocess.run([sys.executable, "-s", "-B", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(1 + seed % 1000)), input=json.dumps(args).encode(), capture_output=True)
    if o.returncode:
        raise HarnessError(o.stderr.decode(errors="replace")[-2000:])
    return json.loads(o.stdout)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def missing(packages):
    """In a child: as if these packages were not installed (dsari is imported anew)."""
    if not packages:
        return
    names = set(packages)
    if "lzma" in names:
        names.add("_lzma")
    gone = names | {"dsari"}
    if "dateutil" in names:
        gone.add("croniter")
    for m in [m for m in sys.modules if m.split(".")[0] in gone]:
        del sys.modules[m]

    class Blocker:
        def find_spec(self, name, path=None, target=None):
            if name.split(".")[0] in names:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
    sys.meta_path.insert(0, Blocker())


class TempDir:
    def __init__(self):
        self.path = tempfile.mkdtemp(dir=SCRATCH)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ---- the virtual clock ----
_lib = ctypes.CDLL(None)
try:
    _lib.vt_enable.argtypes = [ctypes.c_longlong] * 3
    _lib.vt_set.argtypes = [ctypes.c_longlong]
    _lib.vt_add.argtypes = [ctypes.c_longlong]
    _lib.vt_step.argtypes = [ctypes.c_longlong]
    _lib.vt_get.restype = ctypes.c_longlong
    _lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_void_p]
    HAVE_VT = True
except AttributeError:
    HAVE_VT = False


FAULTS = {"kill-before": 1, "kill-half": 2, "kill-after": 3, "full": 4, "SIGINT": 5, "error": 6, "count": 0}


class Counter:
    """Memory shared with children, for the number of operations."""

    def __init__(self):
        self.map = mmap.mmap(-1, mmap.PAGESIZE)
        self.value = ctypes.c_long.from_buffer(self.map)

    def arm(self, prefix, what, k=0):
        """Fault in the k-th operation of this process on files below prefix (see fault.c)."""
        _lib.fault_arm(os.fsencode(prefix), k, FAULTS[what], ctypes.byref(self.value))

    def call(self, fn):
        """What to do instead of ending."""
        self.fn = ctypes.CFUNCTYPE(None)(fn)
        _lib.fault_end(self.fn)


def vt_enable(epoch, step_ns=2000, spin_limit=0):
    _lib.vt_enable(int(round(epoch * 1e6)) * 1000, int(step_ns), int(spin_limit))


def vt_disable():
    _lib.vt_disable()


def vt_now():
    return _lib.vt_get() / 1e9


def vt_now_ns():
    return _lib.vt_get()


def vt_set(epoch):
    _lib.vt_set(int(round(epoch * 1e6)) * 1000)


def vt_set_ns(ns):
    _lib.vt_set(int(ns))


def vt_add(sec):
    _lib.vt_add(int(sec * 1e9))


def set_tz(tz):
    os.environ["TZ"] = tz
    time.tzset()


class Result:
    """Outcome of a function run in a child process."""
    def __init__(self):
        self.kind = None      # "ok" | "exit" | "exc" | "died"
        self.value = None     # return value / exit code / traceback text / wait status
        self.in_dsari = False
        self.out = b""
        self.err = b""


_REAL = {k: getattr(os, k) for k in ("fork", "waitpid", "_exit", "kill", "close", "dup2", "read", "write", "open")}


def isolate(fn, *args, env=None, cpu=45, capture=True, cwd=None):
    """Run fn(*args) in a forked child; return a Result.  fds 1 and 2 go to files."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    outf = tempfile.TemporaryFile(dir=SCRATCH)
    errf = tempfile.TemporaryFile(dir=SCRATCH)
    pid = _REAL["fork"]()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            if capture:
                dn = os.open(os.devnull, os.O_RDONLY)
                os.dup2(dn, 0)
                os.dup2(outf.fileno(), 1)
                os.dup2(errf.fileno(), 2)
            if cwd:
                os.chdir(cwd)
            if env is not None:
                os.environ.clear()
                os.environ.update(env)
            try:
                val = ("ok", fn(*args), False)
            except SystemExit as e:
                val = ("exit", e.code if isinstance(e.code, (int, type(None))) else 1, False)
            except BaseException as e:
                val = ("exc", "".join(traceback.format_exception(e))[-4000:], in_dsari(e.__traceback__), type(e).__name__)
            vt_disable()
            sys.stdout.flush()
            sys.stderr.flush()
            with os.fdopen(w, "wb") as f:
                pickle.dump(val, f)
        except BaseException:
            traceback.print_exc()
            os.fsync(2) if False else None
            _REAL["_exit"](98)
        _REAL["_exit"](0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = _REAL["waitpid"](pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)   # stragglers of the case
    except (ProcessLookupError, PermissionError):
        pass
    res = Result()
    outf.seek(0)
    errf.seek(0)
    res.out = outf.read()
    res.err = errf.read()
    outf.close()
    errf.close()
    if data:
        v = pickle.loads(data)
        res.kind, res.value, res.in_dsari = v[0], v[1], v[2]
        res.exc_type = v[3] if len(v) > 3 else None
    else:
        res.kind, res.value = "died", status
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
            raise Endless("no end within %d s of CPU time (other cases take a second or two)\n%s" % (cpu, res.err.decode(errors="replace")[-2000:]))
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
            raise HarnessError("case used too much CPU or was killed (status %d)\n%s" % (status, res.err.decode(errors="replace")[-2000:]))
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 98:
            raise HarnessError("harness failure in child:\n" + res.err.decode(errors="replace")[-3000:])
    return res


def ok(res, what):
    """The child must have returned normally."""
    if res.kind == "ok":
        return res.value
    if res.kind == "exc" and res.exc_type == "Violation":
        raise Violation("%s: %s" % (what, res.value))
    if res.kind == "exc" and not res.in_dsari:
        raise HarnessError("%s: %s" % (what, res.value))
    raise Violation("%s: %s %s\n%s" % (what, res.kind, res.value, res.err.decode(errors="replace")[-1000:]))


def run_main(modname, argv, setup=None):
    """Run a command-line main of the package in this (child) process."""
    import importlib
    m = importlib.import_module(modname)
    sys.argv = [modname.split(".")[-1]] + list(argv)
    return m.main()


def dump_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f)
