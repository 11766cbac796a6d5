"""C23: Prometheus metrics agree with the run history."""
import json
import math
import os
import re
import signal
import sqlite3
import sys

from hypothesis import strategies as st

import core
import gens
import history

QUICK, THOROUGH = 400, 2500
TECHNIQUE = "stateful property-based testing: the exporter's WSGI application and --dump on generated histories which change between requests under a simulated clock, the exposition text parsed strictly and compared with figures computed from the history"
LEVEL_NOTE = ("Randomised search with shrinking over runs, request times, reloads (also in the middle of a request) and options. "
              "The HTTP server itself (wsgiref) is not part of the check.")
RULE = "case = configuration x up to 14 runs x way to run the exporter x up to 14 steps (runs recorded, time passing, reloads, requests); non-trivial = metrics were returned with at least one completed run"
ASSUMPTIONS = ["time only passes between requests", "quantiles are distinct numbers in 0 to 1"]
NAMES = ["a", "b", "job 1", "x.y:z@k+_-", "A", "zz"]


@st.composite
def plans(draw, tier):
    now = draw(st.sampled_from(history.NOWS))
    rs = draw(history.runs(now, NAMES * 2 + history.UNKNOWN, 14))
    for r in rs:
        r["out"] = None
        if draw(st.integers(0, 3)) == 0:
            r["job"] = "a"
    for i in range(1, len(rs)):
        if draw(st.integers(0, 6)) == 0:
            rs[i]["stop"] = rs[i - 1]["stop"]
    subsets = [draw(st.lists(st.sampled_from(NAMES), max_size=6, unique=True)) for _ in range(3)]
    if draw(st.integers(0, 3)):
        subsets[0] = sorted(set(subsets[0]) | {"a"})
    if draw(st.integers(0, 3)) == 0:
        subsets[1] = None        # invalid
    cache = draw(st.sampled_from([None, None, "120", "10", "0.5", "0", "3600"]))
    path = draw(st.sampled_from([None, None, "/metrics", "/", "/x/y"]))
    steps = []
    n = 0
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.integers(0, 11))
        if k < 5:
            p = draw(st.sampled_from(["*", "*", "*", "*", "/metrics", "/", "", "/metrics/", "/Metrics", "/x", "//metrics", "/metrics/a"]))
            steps.append(["get", p, draw(st.sampled_from(["", "", "a=b", "x=%ff&y"]))])
        elif k < 8:
            steps.append(["record", draw(st.integers(1, 5))])
        elif k < 9:
            steps.append(["finish"])
        elif k < 10:
            steps.append(["time", draw(st.sampled_from([0.1, 0.4, 1, 9, 11, 60, 119, 121, 3601, 0.0, 118.9]))])
        elif draw(st.integers(0, 3)) == 0:
            steps += [["get", "*", ""], ["edit", draw(st.integers(0, 2))], ["time", draw(st.sampled_from([1, 121, 3601]))], ["get", "*", ""]]
        else:
            steps.append(["hup", draw(st.integers(0, 2)), draw(st.sampled_from([0, 0, 1, 2, 5]))])
    if draw(st.integers(0, 3)) == 0:
        # asked regularly, as Prometheus does
        x = float(cache or 120)
        step = max(draw(st.sampled_from([0.3, 0.45, 0.6, 0.9])) * x, 0.1)
        steps = steps[:draw(st.integers(0, 3))] + draw(st.integers(3, 6)) * [["record", 1], ["get", "*", ""], ["time", step]]
    steps += [["record", 20], ["time", draw(st.sampled_from([0, 130, 3700]))], ["get", "*", ""]]
    return {"runs": rs, "now": now + draw(st.sampled_from([0, 0.25, 0.999999])), "configs": subsets, "cache": cache, "path": path, "quantiles": draw(st.one_of(st.none(), st.sampled_from(
        ["0.5", "0,1", "0.25,0.75", "0.01,0.1,0.5,0.9,0.99", "1", ".5", "0.333,1e-2"]))), "no_running": draw(st.integers(0, 3)) == 0, "steps": steps,
        "mode": draw(st.sampled_from(["wsgi", "wsgi", "server", "dump"])), "local": draw(gens.local_zones), "listen": draw(st.sampled_from([[], ["--listen-port=80"], ["--listen-address=127.0.0.1"]]))}


def strategy(tier):
    return plans(tier)


def args_of(plan, d):
    a = ["-c", d + "/etc"]
    if plan["cache"] is not None:
        a += ["--job-cache-time", plan["cache"]]
    if plan["path"] is not None and plan["mode"] != "dump":
        a += ["--metrics-path", plan["path"]]
    if plan["quantiles"] is not None:
        a += ["--quantiles", plan["quantiles"]]
    if plan["no_running"]:
        a += ["--no-running"]
    return a


def write_config(d, jobs):
    with open(d + "/etc/dsari.json.new", "w") as f:
        if jobs is None:
            f.write('{"jobs": {"a": {}}}')
        else:
            json.dump({"data_dir": d + "/var", "jobs": {n: {"command": ["true"]} for n in jobs}}, f)
    os.rename(d + "/etc/dsari.json.new", d + "/etc/dsari.json")


def play(plan, d):
    """Runs in a child: perform the steps; returns [[step, time, answer]..]."""
    real = sqlite3.connect
    hook = {"n": None, "on": False}

    class Conn(sqlite3.Connection):
        def cursor(self, *a, **kw):
            return sqlite3.Connection.cursor(self, Cur)

        def execute(self, *a, **kw):
            return self.cursor().execute(*a, **kw)

    class Cur(sqlite3.Cursor):
        def execute(self, *a, **kw):
            if hook["on"] and hook["n"] is not None:
                hook["n"] -= 1
                if hook["n"] == 0:
                    hook["n"] = None
                    write_config(d, hook["jobs"])
                    os.kill(os.getpid(), signal.SIGHUP)
            return sqlite3.Cursor.execute(self, *a, **kw)

    sqlite3.connect = lambda *a, **kw: real(*a, **dict({"factory": Conn}, **kw))
    import dsari
    import dsari.database
    out = []
    args = args_of(plan, d)

    def run_obj(r, done):
        class C:
            jobs = {}
        return history.run_object(C, r, done)
    core.vt_enable(plan["now"])
    writer = dsari.database.get_database(__import__("dsari.config").config.get_config(d + "/etc"))
    fresh, running = list(range(len(plan["runs"]))), []

    unread = [False]        # a signal was sent since the last request

    def steps(app):
        for s in plan["steps"]:
            ans = None
            if s[0] == "record":
                ans = []
                for i in fresh[:s[1]]:
                    r = plan["runs"][i]
                    if r["done"]:
                        writer.insert_run(run_obj(r, True))
                    else:
                        writer.insert_running_run(run_obj(r, False))
                        running.append(i)
                    ans.append([i, r["done"]])
                del fresh[:s[1]]
            elif s[0] == "finish":
                if running:
                    i = running.pop(0)
                    writer.insert_run(run_obj(plan["runs"][i], True))
                    ans = [[i, True]]
                else:
                    ans = []
            elif s[0] == "time":
                core.vt_add(s[1])
            elif s[0] == "hup":
                if plan["mode"] == "dump" and plan["configs"][s[1]] is None:
                    continue
                unread[0] = True
                if s[2] and plan["mode"] != "dump":
                    # in the middle of a request to come
                    hook.update(n=s[2], jobs=plan["configs"][s[1]])
                else:
                    write_config(d, plan["configs"][s[1]])
                    if plan["mode"] != "dump":
                        os.kill(os.getpid(), signal.SIGHUP)
            elif s[0] == "edit":
                # changed, but no signal sent
                if plan["mode"] != "dump" and not unread[0] and hook["n"] is None:
                    write_config(d, plan["configs"][s[1]])
            elif s[0] == "get":
                p = (plan["path"] or "/metrics") if s[1] == "*" else s[1]
                t0 = core.vt_now()
                had = hook["n"]
                resp = []
                hook["on"] = True
                body = app({"REQUEST_METHOD": "GET", "PATH_INFO": p, "QUERY_STRING": s[2], "SERVER_NAME": "h", "SERVER_PORT": "1", "wsgi.errors": sys.stderr}, lambda st_, h, *a: resp.append([st_, list(h)]))
                core.check(body is not None, "GET {}: no response", p)
                body = b"".join(body)
                hook["on"] = False
                ans = [p, t0, resp, body.decode("utf-8"), had is not None and hook["n"] is None]
                unread[0] = ans[4] if p == (plan["path"] or "/metrics") else unread[0]
            out.append([s, core.vt_now(), ans])
    if plan["mode"] == "wsgi":
        os.environ["WSGI_ARGS"] = json.dumps(args)
        import dsari.prometheus_exporter as m
        core.check(hasattr(m, "wsgi_application"), "there is no WSGI application")
        steps(m.wsgi_application)
    elif plan["mode"] == "server":
        import wsgiref.simple_server

        class Server:
            def __init__(self, app):
                self.app = app

            def serve_forever(self, *a):
                steps(self.app)
                raise KeyboardInterrupt

        def make_server(host, port, app, *a, **kw):
            out.append([["listen"], 0, [host, port]])
            return Server(app)
        wsgiref.simple_server.make_server = make_server
        core.run_main("dsari.prometheus_exporter", args + plan["listen"])
    else:
        import contextlib
        import io

        class App:
            def __call__(self, environ, start):
                raise AssertionError
        for s in plan["steps"]:
            if s[0] == "get":
                b = io.StringIO()
                t0 = core.vt_now()
                with contextlib.redirect_stdout(b):
                    core.run_main("dsari.prometheus_exporter", args + ["--dump"])
                out.append([["dump"], core.vt_now(), [None, t0, None, b.getvalue(), False]])
            else:
                keep, plan["steps"] = plan["steps"], [s]
                steps(None)
                plan["steps"] = keep
    return out


SAMPLE = re.compile(r'([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{((?:[a-zA-Z_][a-zA-Z0-9_]*="(?:[^"\\\n]|\\[\\"n])*",?)*)\})? (\S+)(?: -?\d+)?')
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\[\\"n])*)"')


def parse(text):
    """{(name, labels): value}; the text must be valid exposition format."""
    def bad(msg, *a):
        raise core.Violation("not valid exposition format: " + msg % a)
    if not text.endswith("\n"):
        bad("the last line has no end")
    types, helps, samples, order = {}, {}, {}, []
    for line in text.split("\n")[:-1]:
        if not line.strip():
            continue
        m = re.fullmatch(r"# (HELP|TYPE) ([a-zA-Z_:][a-zA-Z0-9_:]*)(?: (.*))?", line)
        if m:
            kind, name, rest = m.groups()
            t = helps if kind == "HELP" else types
            if name in t:
                bad("second %s line for %s", kind, name)
            if kind == "TYPE" and rest not in ("counter", "gauge", "histogram", "summary", "untyped"):
                bad("type %s", rest)
            if any(k[0] == name for k in samples):
                bad("%s of %s after its samples", kind, name)
            t[name] = rest
            fam = name
        elif line.startswith("#"):
            continue
        else:
            m = SAMPLE.fullmatch(line)
            if not m:
                bad("line %r", line)
            name, labels, value = m.groups()
            ls = LABEL.findall(labels or "")
            if len(dict(ls)) != len(ls):
                bad("label given twice: %s", line)
            try:
                v = float(value)
            except ValueError:
                bad("value %r", value)
            key = (name, tuple(sorted(ls)))
            if key in samples:
                bad("%s is given twice", line)
            samples[key] = v
            fam = re.sub(r"_(sum|count)$", "", name)
            if types.get(fam) != "summary":
                fam = name
        if not order or order[-1] != fam:
            if fam in order:
                bad("the lines of %s are not together", fam)
            order.append(fam)
    for fam in order:
        want = "counter" if re.fullmatch(r"dsari_run_(success_|failure_)?count", fam) else "summary" if re.fullmatch(r"dsari_run_(duration|latency)_seconds", fam) else "gauge"
        if types.get(fam) != want:
            bad("%s has the type %s instead of %s", fam, types.get(fam), want)
    return samples


def quantile(xs, q):
    xs = sorted(xs)
    k = (len(xs) - 1) * q
    f = math.floor(k)
    c = min(f + 1, len(xs) - 1)
    return xs[f] + (xs[c] - xs[f]) * (k - f)


def close(a, b):
    return abs(a - b) <= 4e-6 + 1e-11 * abs(b)


def expected(job, done, quantiles):
    """{(name, labels): value or set of values} of one job."""
    j = (("job_name", job),)
    out = {("dsari_run_count", j): len(done), ("dsari_run_success_count", j): len([r for r in done if r["code"] == 0]),
           ("dsari_run_failure_count", j): len([r for r in done if r["code"] != 0])}
    if done:
        for name, xs in (("duration", [(r["stop"] - r["start"]) / 1e6 for r in done]), ("latency", [(r["start"] - r["schedule"]) / 1e6 for r in done])):
            n = "dsari_run_%s_seconds" % name
            out[n + "_sum", j] = sum(xs)
            out[n + "_count", j] = len(xs)
            for q in quantiles:
                out[n, (("job_name", job), ("quantile", str(q)))] = quantile(xs, q)
        last = max(r["stop"] for r in done)
        lasts = [r for r in done if r["stop"] == last]
        out["dsari_last_run_exit_code", j] = {r["code"] for r in lasts}
        for k in ("schedule", "start", "stop"):
            out["dsari_last_run_%s_time" % k, j] = {r[k] / 1e6 for r in lasts}
    return out


def same(got, want):
    """None or the first difference"""
    for k, v in sorted(want.items()):
        if k not in got:
            return "%s%s is missing" % (k[0], dict(k[1]))
        if not (any(close(got[k], x) for x in v) if isinstance(v, set) else close(got[k], v)):
            return "%s%s is %r instead of %s" % (k[0], dict(k[1]), got[k], v)
    for k in sorted(got):
        if k not in want:
            return "%s%s = %r is unexpected" % (k[0], dict(k[1]), got[k])
    return None


def run(plan):
    core.set_tz(plan["local"])
    classes = set()
    nontrivial = gets = 0
    try:
        with core.TempDir() as d:
            os.mkdir(d + "/etc")
            write_config(d, plan["configs"][0])
            log = core.ok(core.isolate(play, plan, d), "the exporter")
            quantiles = [float(x) for x in (plan["quantiles"] or "0.01,0.1,0.5,0.9,0.99").split(",")]
            cache = float(plan["cache"] or 120)
            hist = [(0.0, {}, {})]      # since, completed, in progress
            jobs = set(plan["configs"][0])
            since = 0.0                 # the configuration in force was read no earlier than this
            maybe, also = None, []      # what was in force before a signal since the last request
            pending = None              # of a signal in the middle of a request
            for n, (s, t, ans) in enumerate(log):
                def bad(msg, *a):
                    raise core.Violation("step %d %s at %.3f: " % (n, s, t - plan["now"]) + msg % a + "\nhistory: %s\nsteps: %s" % (
                        json.dumps(plan["runs"]), json.dumps([[x, round(y - plan["now"], 4)] for x, y, _ in log[:n + 1]])))
                if s[0] == "listen":
                    want = [next((a.split("=")[1] for a in plan["listen"] if "address" in a), "0.0.0.0"), int(next((a.split("=")[1] for a in plan["listen"] if "port" in a), 50575))]
                    if ans != want:
                        bad("it listens on %s instead of %s", ans, want)
                if s[0] in ("record", "finish"):
                    done, running = dict(hist[-1][1]), dict(hist[-1][2])
                    for i, completed in ans:
                        r = plan["runs"][i]
                        running.pop(r["id"], None)
                        (done if completed else running)[r["id"]] = r
                    hist.append((t, done, running))
                if s[0] == "hup":
                    if s[2] and plan["mode"] != "dump":
                        pending = plan["configs"][s[1]]
                    elif plan["configs"][s[1]] is not None:
                        if maybe is None:
                            maybe = jobs
                        jobs, since, also = set(plan["configs"][s[1]]), t, []
                    elif maybe is not None:
                        # replaced by an invalid one before the previous signal was acted upon
                        also = [maybe]
                if s[0] not in ("get", "dump"):
                    continue
                gets += 1
                path, t0, resp, body, signalled = ans
                if s[0] == "get":
                    if len(resp) != 1:
                        bad("start_response was called %d times", len(resp))
                    status, headers = resp[0]
                    h = {k.lower(): v for k, v in headers}
                    if h.get("content-length") != str(len(body.encode())):
                        bad("Content-Length is %s of %d", h.get("content-length"), len(body.encode()))
                    if path != (plan["path"] or "/metrics"):
                        if status.split()[0] != "404":
                            bad("the answer for %r is %s", path, status)
                        classes.add("404")
                        continue
                    if status.split()[0] != "200" or not h.get("content-type", "").startswith("text/plain"):
                        bad("the answer is %s %s", status, headers)
                try:
                    samples = parse(body)
                except core.Violation as e:
                    bad("%s\n%s", e, body)
                choices = [jobs] + also
                if signalled and pending is not None:
                    choices.append(set(pending))
                msgs = []
                before = jobs
                for js in choices:
                    msgs.append(judge(samples, js, hist, t0, t, max(t0 - cache - 0.05, 0.0 if js in also else since), quantiles, plan, s[0] == "dump"))
                    if msgs[-1] is None:
                        if js in also:
                            since = 0.0
                        jobs, maybe, also = js, None, []
                        break
                else:
                    bad("%s\n%s", " / ".join(msgs), body)
                if signalled:
                    classes.add("signal-in-request")
                    if pending is not None:
                        maybe = before
                        jobs, since = set(pending), t0
                if any(r["job"] in jobs for r in hist[-1][1].values()):
                    nontrivial = 1
                classes.add("metrics-" + plan["mode"])
    finally:
        core.set_tz("UTC")
    return {"nontrivial": nontrivial, "checked": gets, "classes": sorted(classes)}


def judge(samples, jobs, hist, t0, t1, oldest, quantiles, plan, dump):
    # states of the history which may be shown
    ok = [h for i, h in enumerate(hist) if i + 1 == len(hist) or hist[i + 1][0] >= oldest]
    if dump:
        ok = hist[-1:]
    got, rest = {n: {} for n in jobs}, {}
    running = {}
    for (name, labels), v in samples.items():
        ls = dict(labels)
        if name.startswith("dsari_running_run_"):
            running[name, labels] = v
        elif "job_name" in ls:
            if ls["job_name"] not in jobs:
                return "%s for the job %s, which is not configured" % (name, ls["job_name"])
            got[ls["job_name"]][name, labels] = v
        else:
            rest[name, labels] = v
    for j in sorted(jobs):
        msgs = []
        for _, done, _ in ok:
            msgs.append(same(got[j], expected(j, [r for r in done.values() if r["job"] == j], quantiles)))
            if msgs[-1] is None:
                break
        else:
            return "job %s: %s" % (j, msgs[-1])
    want = {}
    if not plan["no_running"]:
        for r in hist[-1][2].values():
            if r["job"] in jobs:
                for k in ("schedule", "start"):
                    want["dsari_running_run_%s_time" % k, (("job_name", r["job"]), ("run_id", r["id"]))] = r[k] / 1e6
    m = same(running, want)
    if m:
        return m
    now = rest.pop(("dsari_time", ()), None)
    if now is None or not t0 - 1e-3 <= now <= t1 + 1e-3:
        return "dsari_time is %r at %r" % (now, t0)
    took = rest.pop(("dsari_exporter_collect_seconds", ()), None)
    if took is None or not 0 <= took <= t1 - t0 + 1e-3:
        return "dsari_exporter_collect_seconds is %r" % took
    import dsari
    if rest != {("dsari_version_info", (("version", dsari.__version__),)): 1}:
        return "other metrics: %r" % rest
    return None
