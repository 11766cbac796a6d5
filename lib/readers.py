"""The tools which read the history, run beside the simulated daemon.

A helper process, forked before the daemon has opened anything, starts each reading in a child of its own with the virtual
clock set.  A reading may stop before its n-th access (a SQL statement, or a file below the data directory being opened)
and go on later.
"""
import io
import json
import os
import socket
import sqlite3
import struct
import sys
import traceback

import core


def send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[core._REAL["write"](fd, b):]


def recv(fd):
    def n(k):
        b = b""
        while len(b) < k:
            x = core._REAL["read"](fd, k - len(b))
            if not x:
                return None
            b += x
        return b
    h = n(4)
    return None if h is None else json.loads(n(struct.unpack("<I", h)[0]))


class Readers:
    """The daemon's end."""
    def __init__(self, d):
        a, b = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        if core._REAL["fork"]() == 0:
            a.close()
            try:
                serve(b.detach(), d)
            except BaseException:
                traceback.print_exc()
            core._REAL["_exit"](0)
        b.close()
        self.fd = a.detach()

    def ask(self, **req):
        send(self.fd, req)
        ans = recv(self.fd)
        if ans is None:
            raise core.HarnessError("the readers died")
        return ans


def load():
    for m in ("dsari.info", "dsari.render", "urllib.parse", "yaml"):
        __import__(m)


def serve(fd, d):
    live = {}
    while True:
        req = recv(fd)
        if req is None:
            return
        k = req["id"]
        if k not in live:
            a, b = socket.socketpair()
            pid = core._REAL["fork"]()
            if pid == 0:
                os.close(fd)
                a.close()
                for x in live.values():
                    os.close(x[1])
                child(b.detach(), d, req)
                core._REAL["_exit"](0)
            b.close()
            live[k] = (pid, a.detach())
        else:
            send(live[k][1], req)
        ans = recv(live[k][1])
        if ans is None:
            ans = {"state": "died"}
        if ans["state"] in ("done", "died"):
            os.close(live[k][1])
            core._REAL["waitpid"](live.pop(k)[0], 0)
        send(fd, ans)


def child(fd, d, req):
    hook = {"n": req.get("pause"), "real": False}
    data = d + "/var/"

    def point():
        if hook["n"] is None:
            return
        hook["n"] -= 1
        if hook["n"] <= 0:
            hook["n"] = None
            send(fd, {"state": "paused"})
            core.vt_set(recv(fd)["now"])

    class Cursor(sqlite3.Cursor):
        def execute(self, *a):
            point()
            return super().execute(*a)

    class Connection(sqlite3.Connection):
        def cursor(self, factory=Cursor):
            return super().cursor(factory)

        def execute(self, *a):
            point()
            return super().execute(*a)

    connect = sqlite3.connect
    sqlite3.connect = lambda *a, **kw: connect(*a, **dict({"factory": Connection}, **kw))

    def audit(event, args):
        if event in ("open", "os.mkdir") and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).startswith(data):
            point()
    sys.addaudithook(audit)
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", newline="", write_through=True)
    err = io.StringIO()
    sys.stdout, sys.stderr = out, err
    core.set_tz(req.get("local", "UTC"))
    core.vt_enable(req["now"], 2000, 0)
    # importing the exporter opens the configured database
    os.environ["WSGI_ARGS"] = json.dumps(["-c", d + "/etc"] + (req["argv"] if req["kind"] != "main" else []))
    rc = 0
    try:
        if req["kind"] == "main":
            rc = core.run_main(req["mod"], ["-c", d + "/etc"] + req["argv"])
        else:
            # a long-lived exporter: answers again and again
            import dsari.prometheus_exporter as m
            app = m.wsgi_application
            while True:
                resp = []
                body = b"".join(app({"REQUEST_METHOD": "GET", "PATH_INFO": "/metrics", "QUERY_STRING": ""}, lambda s, h, *a: resp.append(s)))
                send(fd, {"state": "answer", "rc": 0 if resp and resp[0].startswith("200") else 1, "out": body.decode(), "err": err.getvalue()[-2000:]})
                req = recv(fd)
                if req is None:
                    return
                core.vt_set(req["now"])
                hook["n"] = req.get("pause")
    except SystemExit as e:
        rc = e.code if e.code is None or isinstance(e.code, int) else 1
    except BaseException:
        err.write(traceback.format_exc())
        rc = 1
    core.vt_disable()
    send(fd, {"state": "done", "rc": rc or 0, "out": out.buffer.getvalue().decode("utf-8", "surrogateescape"), "err": err.getvalue()[-2500:]})
