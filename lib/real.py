"""The real daemon with real processes, for a moment."""
import os
import signal
import sys
import time

import core
import sim


def daemon(plan, d):
    """Runs in a forked child: start the daemon on d/etc, wait until plan["expect"] runs are recorded, end it."""
    log = os.open(d + "/log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
        os.dup2(log, 1)
        os.dup2(log, 2)
        os.closerange(3, 64)
        for fd in plan.get("fds", []):
            os.dup2(2, fd, inheritable=True)
        for s in plan.get("ignore", []):
            signal.signal(getattr(signal, s), signal.SIG_IGN)
        os.environ.clear()
        os.environ.update(sim.place(plan.get("environ", {"PATH": "/usr/bin:/bin"}), d))
        core.set_tz("UTC")
        os.umask(0o022)
        sys.argv = ["dsari-daemon", "-c", d + "/etc"]
        try:
            import dsari.daemon
            rc = dsari.daemon.main()
        except BaseException:
            import traceback
            traceback.print_exc()
            rc = 1
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc if isinstance(rc, int) else 0)
    os.close(log)
    end = time.monotonic() + 60
    state = "timeout"
    while time.monotonic() < end:
        db = sim.read_db(d + "/var/dsari.sqlite3") if os.path.exists(d + "/var/dsari.sqlite3") else {"runs": [], "running": []}
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            state, pid = "died %d" % status, None
            break
        if len(db["runs"]) >= plan["expect"]:
            state = "done"
            break
        time.sleep(0.01)
    if pid is not None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    with open(d + "/log", errors="replace") as f:
        text = f.read()
    return {"state": state, "db": db, "log": text[-3000:]}
