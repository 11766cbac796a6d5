"""C27: only the core packages are needed; what is missing costs its own feature and nothing else."""
import json
import os
import re
import sys

from hypothesis import strategies as st

import confgen
import core
import gens
import history
import model
import scen
import sim
from core import check

QUICK, THOROUGH = 120, 800
TECHNIQUE = "differential property testing: every program on generated installations with random subsets of the optional packages hidden, its answers compared with those given with all packages; the daemon without them under the simulated clock and process table, compared with the model"
LEVEL_NOTE = "Randomised search with shrinking. A package is hidden by making its import fail in the process which runs the program; the answers with all packages are judged by C22 to C25."
RULE = "case = set of hidden packages x (configuration x history x up to 5 invocations, or a daemon's configuration and events); non-trivial = something was hidden, and a run was started or an answer compared"
ASSUMPTIONS = ["the database is SQLite", "the rest of what a package needs is missing with it (croniter without python-dateutil)"]
OPTIONAL = ["yaml", "croniter", "dateutil", "jinja2", "IPython", "termcolor", "lzma"]
NEEDS = {"cron": {"croniter", "dateutil"}, "rrule": {"dateutil"}}
ANSI = re.compile(r"\x1b\[[0-9;]*m")


@st.composite
def missing(draw, pool):
    return sorted(draw(st.sets(st.sampled_from(pool), min_size=1, max_size=4)))


@st.composite
def daemons(draw, tier):
    gone = draw(missing(["yaml", "croniter", "dateutil", "yaml", "croniter", "dateutil", "jinja2", "lzma"]))
    if draw(st.integers(0, 3)) == 0:
        gone = ["croniter", "dateutil"]
    plan = draw(scen.scenario(groups=15, concurrent=20, triggers=(1, 4), reloads=(0, 1), limits=10, shutdown=25, noise=(0, 1), sched=70, max_jobs=3, **{"return": 30},
                              horizons=[200, 400] if tier == "quick" else [200, 900, 2500]))
    plan["kind"], plan["missing"] = "daemon", gone
    for e in plan["events"]:
        if e["do"] != "trigger":
            continue
        if e.get("fmt") == "yaml" and "yaml" in gone:
            e["valid"] = False
        if isinstance(e["data"].get("schedule_time"), str) and "dateutil" in gone:
            e["valid"] = False
    return plan


@st.composite
def tools(draw, tier):
    gone = draw(missing(OPTIONAL))
    c = draw(confgen.configs())
    c.pop("database", None)
    c["data_dir"] = "$D/var"
    c.pop("template_dir", None)
    now = draw(st.sampled_from(history.NOWS)) + draw(gens.uniform(0, 86400))
    names = sorted(set(c.get("jobs", {})) | {n for g in c.get("job_groups", {}).values() for n in g["job_names"]})
    rs = draw(history.runs(now, (names or ["a"]) * 2 + history.UNKNOWN, 8))
    calls = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["runs", "jobs", "jobs", "output", "output", "tail", "check", "dump", "metrics", "render", "render", "shell", "yamlconf"]))
        call = {"what": k}
        if k in ("runs", "jobs"):
            call["argv"] = [k[:-1], "list"]
            fmt = draw(st.sampled_from(["pretty", "tabular", "json", "yaml", None]))
            if fmt:
                call["argv"].append("--format=" + fmt)
            if draw(st.integers(0, 2)) == 0:
                call["tty"] = True
        elif k == "dump":
            call["argv"] = ["config", "dump"] + draw(st.sampled_from([[], ["--raw"], ["--format=json"], ["--format=yaml"]]))
        elif k == "output":
            call["argv"] = ["run", "output", draw(st.sampled_from([r["id"] for r in rs] * 5 + ["nosuch"]))]
        elif k == "tail":
            call["argv"] = ["run", "tail"]
        elif k == "check":
            call["argv"] = ["config", "check"]
        elif k == "shell" and draw(st.integers(0, 2)):
            call = {"what": "metrics"}
        calls.append(call)
    return {"kind": "tools", "missing": gone, "config": c, "now": now, "runs": rs, "calls": calls, "local": draw(gens.local_zones)}


def strategy(tier):
    return gens.weighted((3, tools(tier)), (2, daemons(tier)))


# ---- in a child ----


def program(call, d, gone, now, local):
    core.set_tz(local)
    os.environ.update(HOME=d + "/home", COLUMNS="1000000", PAGER="cat")
    core.missing(gone)
    core.vt_enable(now, 0)
    if call.get("tty"):
        import io

        class Term(io.TextIOWrapper):
            def isatty(self):
                return True
        sys.stdout = Term(open(1, "wb", closefd=False), encoding="utf-8")
        os.environ["TERM"] = "xterm"
        os.environ["FORCE_COLOR"] = "1"
    etc = ["-c", d + ("/etc-yaml" if call["what"] == "yamlconf" else "/etc")]
    if call["what"] == "metrics":
        os.environ["WSGI_ARGS"] = json.dumps(etc)
        import dsari.prometheus_exporter as m
        resp = []
        body = b"".join(m.wsgi_application({"REQUEST_METHOD": "GET", "PATH_INFO": "/metrics", "QUERY_STRING": ""}, lambda s, h, *a: resp.append(s)))
        print(resp[0])
        print(body.decode())
        return None
    if call["what"] == "render":
        return core.run_main("dsari.render", etc)
    if call["what"] == "shell":
        with open(d + "/script.py", "w") as f:
            f.write("print('@@', len(db.get_runs()), sorted(jobs), config.data_dir, sorted(concurrency_groups), dsari.__version__)\n")
        fd = os.open(d + "/script.py", os.O_RDONLY)
        os.dup2(fd, 0)
        core.vt_disable()
        try:
            core.run_main("dsari.info", etc + ["shell"])
        except EOFError:
            pass
        return None

    def execvp(file, args):
        print("EXEC " + json.dumps([file, list(args)]))
        sys.exit(77)

    def sleep(t):
        sys.exit(78)
    import time
    os.execvp, time.sleep = execvp, sleep
    try:
        return core.run_main("dsari.info", etc + (call.get("argv") or ["config", "check"]))
    finally:
        sys.stdout.flush()


def kind(schedule):
    return "rrule" if schedule.upper().startswith("RRULE:") else "cron"


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            if f.endswith((".html", ".html.gz")):
                out[os.path.relpath(os.path.join(base, f), d)] = os.path.join(base, f)
    return out


def outcome(res):
    """How the program ended, and its output."""
    if res.kind == "exc" and not res.in_dsari:
        raise core.HarnessError("%s" % res.value)
    if res.kind == "ok":
        return res.value or 0
    if res.kind == "exit":
        return res.value or 0
    if res.kind == "exc" and res.exc_type == "ConfigError":
        return 1
    return "%s %s" % (res.kind, res.value)


def tool_case(plan):
    gone = set(plan["missing"])
    compared, classes = 0, set()
    with core.TempDir() as d:
        c = confgen.place(plan["config"], d)
        for x in ("etc", "etc-yaml", "home"):
            os.mkdir(d + "/" + x)
        confgen.write(d + "/etc/dsari.json", c, 0)
        with open(d + "/etc-yaml/dsari.yaml", "w") as f:
            f.write("data_dir: %s/var\njobs:\n  a:\n    command: ['true']\n" % d)
        history.record(d + "/etc", d + "/var", plan["runs"])
        jobs = confgen.meaning(c, plan["local"])["jobs"]
        unscheduled = {n for n, j in jobs.items() if j["schedule"] is not None and NEEDS[kind(j["schedule"])] & gone}
        for call in plan["calls"]:
            what, argv = call["what"], call.get("argv", [])
            text = "%s without %s" % (json.dumps(call), ", ".join(sorted(gone)))
            if what == "jobs" and unscheduled and not ("--format=json" in argv or "--format=yaml" in argv):
                argv = call["argv"] = ["job", "list", "--format=json"]
            if what == "render" and "jinja2" in gone:
                continue
            xz = {r["id"] for r in plan["runs"] if "lzma" in gone and r["out"] and r["out"]["form"] == "xz"}

            def go(packages):
                return core.isolate(program, call, d, packages, plan["now"], plan["local"])
            res = go(plan["missing"])
            rc = outcome(res)
            err = res.err.decode(errors="replace")[-1500:]
            if "yaml" in gone and (what == "yamlconf" or "--format=yaml" in argv):
                # what cannot be had is refused
                check(rc not in (0, None), "{}: succeeds\n{}", text, res.out.decode(errors="replace")[:500])
                if what == "yamlconf":
                    check(rc == 1, "{}: config check ends with {} instead of 1\n{}", text, rc, err)
                continue
            if what == "output" and argv[2] in xz:
                check(rc == 2, "{}, which its output needs: ends with {} instead of an error message\n{}", text, rc, err)
                continue
            if what == "render":
                first = {k: open(v, "rb").read() for k, v in tree(d + "/var").items()}
                for v in tree(d + "/var").values():
                    os.remove(v)
            ref = go([])
            want = outcome(ref)
            out, expected = res.out.decode("utf-8", "surrogateescape"), ref.out.decode("utf-8", "surrogateescape")
            check(rc == want, "{}: ends with {}, but with {} if everything is installed\n{}", text, rc, want, err)
            if what == "render":
                second = {k: open(v, "rb").read() for k, v in tree(d + "/var").items()}
                for v in tree(d + "/var").values():
                    os.remove(v)
                check(sorted(first) == sorted(second), "{}: writes {} instead of {}", text, sorted(first), sorted(second))
                for k in first:
                    if any(x in k for x in xz):
                        continue
                    check(first[k] == second[k], "{}: {} differs: {!r} {!r}", text, k, first[k][-1500:], second[k][-1500:])
            elif what == "shell":
                out, expected = [re.findall("@@ .*", x) for x in (out, expected)]
                check(expected, "the shell with IPython has no variables: {}", ref.out.decode(errors="replace")[-1500:])
                check(out == expected, "{}: {!r} instead of {!r}\n{}", text, out, expected, err)
            elif what in ("jobs", "dump") and unscheduled and want == 0 and "--raw" not in argv:
                a, b = parse(argv, out), parse(argv, expected)
                for n in unscheduled:
                    (b["jobs"] if what == "dump" else b)[n]["next_scheduled_run"] = None
                check(a == b, "{}: {}\ninstead of\n{}", text, out, expected)
            else:
                if call.get("tty") and "termcolor" in gone:
                    expected = ANSI.sub("", expected)
                check(out == expected, "{}: {}\ninstead of\n{}\n{}", text, out, expected, err)
            compared += 1
            classes.add(what)
    return {"nontrivial": compared > 0, "checked": compared, "classes": sorted(classes) + ["no-" + g for g in sorted(gone)]}


def parse(argv, text):
    if "--format=yaml" in argv:
        import yaml
        return yaml.safe_load(text)
    return json.loads(text)


def run(plan):
    if plan["kind"] == "tools":
        return tool_case(plan)
    with core.TempDir() as d:
        tr = sim.run(plan, d)
        m = model.judge(tr, plan, ["trigger", "trigger-late", "schedule", "late", "held", "early", "group", "overlap", "record", "process", "reload", "shutdown", "kill"])
    return {"nontrivial": len(tr.starts) > 0 or m.counts.get("triggers"), "checked": len(tr.starts), "classes": ["daemon"] + ["daemon-no-" + g for g in plan["missing"]]}
