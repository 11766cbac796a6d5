"""C18: a run's environment is built from scratch, exactly as documented."""
import json
import os
import pwd

from hypothesis import strategies as st

import core
import gens
import model
import scen
import sim

QUICK, THOROUGH = 150, 900
TECHNIQUE = "property-based testing: the environment and working directory of every run the simulated daemon executes, compared with a reference built from configuration, trigger, history and documentation"
LEVEL_NOTE = ("Randomised search with shrinking. The environment is the one handed to exec by the daemon's real child code. "
              "Trusts the simulation in lib/sim.py.")
RULE = ("case = configuration with environments at every level x daemon environment x triggers x histories of runs (also from an earlier daemon); non-trivial = "
        "at least two runs, one of them with an environment of its own or a previous run")
ASSUMPTIONS = ["data_dir is absolute; variable names are non-empty without '=' and NUL, values without NUL"]

STANDARD = ["CI", "DSARI", "LOGNAME", "HOME", "PATH", "DATA_DIR", "JOB_NAME", "JOB_DIR", "RUN_ID", "RUN_DIR", "SCHEDULE_TIME", "START_TIME", "TRIGGER_TYPE",
            "TRIGGER_DIR", "CONCURRENCY_GROUP", "JOB_GROUP", "PREVIOUS_RUN_ID", "PREVIOUS_EXIT_CODE", "PREVIOUS_GOOD_RUN_ID", "PREVIOUS_BAD_STOP_TIME",
            "BUILD_NUMBER", "NODE_NAME", "WORKSPACE", "EXECUTOR_NUMBER", "BUILD_TAG"]
PWDS = ["$D/p1", "$D/p1", "$D/p \u00e9", "$D/none", "$D/file", "/", "$D/p1/", ""]


@st.composite
def env(draw, size=4):
    out = {}
    for _ in range(draw(st.integers(0, size))):
        k = draw(st.one_of(st.sampled_from(["A", "B", "C", "path", "x y", "\u00e9", "LANG", "MAILNAME", "a.b"]), st.sampled_from(STANDARD),
                           gens.text("abAB_- \u00e9\u4e2d.!%$\n\t", 1, 4)))
        if k == "PATH":
            v = draw(st.sampled_from(["/bin", "/usr/local/bin:/bin", ""]))
        else:
            v = draw(st.one_of(st.sampled_from(["", "v", "a b", "1", "$HOME", "x=y\n", "\u00e9\u4e2d\U0001f600", "%s {}"]), st.integers(-9, 10 ** 12), st.sampled_from([0, 1.5, -2.25, 1e20, 1e-7, 100.0])))
        out[k] = v
    if scen.pct(draw, 20):
        out["PWD"] = draw(st.sampled_from(PWDS))
    return out


@st.composite
def config(draw, start, local, hz, names):
    jobs = {}
    for n in names:
        j = {"command": ["true"]}
        if draw(st.integers(0, 3)):
            j["schedule"] = draw(st.sampled_from(["* * * * *", "* * * * * */10", "* * * * * */7", "*/2 * * * *"]))
        if draw(st.integers(0, 2)):
            j["environment"] = draw(env())
        if draw(st.integers(0, 3)) == 3:
            j["jenkins_environment"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 3:
            j["concurrency_groups"] = draw(st.lists(st.sampled_from(scen.GROUPS), min_size=1, max_size=2, unique=True))
        if draw(st.integers(0, 3)) == 3:
            j["concurrent_runs"] = True
        if draw(st.integers(0, 7)) == 7:
            j["job_group"] = draw(st.sampled_from(["G 1", "grp"]))
        jobs[n] = j
    cfg = {"jobs": jobs}
    if draw(st.integers(0, 3)) == 3:
        g = dict(jobs.pop(names[0]), job_names=[names[0]])
        g.pop("job_group", None)
        cfg["job_groups"] = {draw(st.sampled_from(["Grp", "a b", names[0]])): g}
    if draw(st.booleans()):
        cfg["environment"] = draw(env())
    if draw(st.integers(0, 2)) == 2:
        cfg["concurrency_groups"] = {draw(st.sampled_from(scen.GROUPS)): {"max": 2}}
    return cfg


@st.composite
def plans(draw, tier):
    local = draw(st.sampled_from(scen.LOCALS))
    start = draw(scen.starts())
    hz = draw(st.sampled_from([70, 130] if tier == "quick" else [130, 400]))
    names = draw(st.lists(st.sampled_from(scen.NAMES), min_size=1, max_size=3, unique=True))
    cfg = draw(config(start, local, hz, names))
    plan = {"local": local, "seed": draw(gens.uniform(0, 999)), "config": cfg, "poll": 0.4, "procs": {}, "lives": []}
    for n in names:
        plan["procs"][n] = [{"dur": draw(st.sampled_from([0.2, 3, 12, 40])), "code": draw(st.sampled_from([0, 0, 1, 255, 130]))} for _ in range(draw(st.integers(1, 3)))]
        if scen.pct(draw, 20):
            plan["procs"][n][0] = {"dur": 1, "sig": 9}
    ident = 0
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        ev = []
        for _ in range(draw(st.integers(0, 3))):
            t = draw(st.integers(0, hz - 10))
            data = draw(scen.trigger_data(start + t, local, 15, env=False))
            data["id"] = ident
            if draw(st.integers(0, 3)):
                data["environment"] = draw(env())
            ev.append({"t": t, "do": "trigger", "job": draw(st.sampled_from(names)), "id": ident, "fmt": draw(st.sampled_from(["json", "json", "yaml"])), "data": data})
            ev.append({"t": t, "do": "signal", "sig": "SIGUSR1"})
            ident += 1
        if draw(st.integers(0, 4)) == 4:
            t = draw(st.integers(1, hz - 10))
            ev.append({"t": t, "do": "config", "config": draw(config(start, local, hz, names))})
            ev.append({"t": t, "do": "signal", "sig": "SIGHUP"})
        if i == 0:
            # an orderly end
            ev.append({"t": hz - 1, "do": "signal", "sig": "SIGTERM"})
        ev.sort(key=lambda e: e["t"])
        life = {"start": start, "horizon": hz + 100, "events": ev, "environ": {}, "unset": []}
        for _ in range(draw(st.integers(0, 3))):
            life["environ"][draw(st.sampled_from(["MAILNAME", "USER", "LANG", "HOME", "LOGNAME", "PWD", "A", "PYTHONUNBUFFERED", "JOB_NAME", "CONCURRENCY_GROUP", "JOB_GROUP",
                                                  "PREVIOUS_RUN_ID", "BUILD_ID", "SHELL", "OLDPWD", "_"]))] = draw(st.sampled_from(["", "x", "/"]))
        k = draw(st.integers(0, 3))
        if k == 0:
            life["unset"].append("PATH")
        elif k == 1:
            life["environ"]["PATH"] = draw(st.sampled_from(["/bin", "/opt/x y:/usr/bin", "\u00e9"]))
        plan["lives"].append(life)
        start = round(start + hz + 100 + 3600, 6)
    return plan


def strategy(tier):
    return plans(tier)


def close(a, b):
    try:
        return abs(float(a) - b) < 2e-6
    except (TypeError, ValueError):
        return False


def run(plan):
    checked = nontrivial = 0
    classes = set()
    with core.TempDir() as d:
        for x in ("p1", "p \u00e9"):
            os.mkdir(d + "/" + x)
        open(d + "/file", "w").close()
        user = pwd.getpwuid(os.getuid())
        earlier = set()
        trig = {e["id"]: sim.place(e, d) for life in plan["lives"] for e in life["events"] if e["do"] == "trigger"}
        config = plan["config"]
        for i, life in enumerate(plan["lives"]):
            p = dict(plan, **life)
            p.pop("lives")
            p["seed"] = plan["seed"] * 10 + i
            p["events"] = sim.place(p["events"], d)
            p["config"] = sim.place(config, d)
            sim.write_config(d, p["config"])
            tr = sim.run(p, d, first=False)
            tr.alive()
            evs = sorted(p["events"], key=lambda x: x["t"])
            rows = {r["run_id"]: r for r in tr.db["runs"] + tr.db["running"]}
            done = {r["run_id"]: r for r in tr.db["runs"]}
            file = cfg = p["config"]
            n = 0
            for e in tr.events:
                if e["ev"] == "config":
                    file = evs[e["i"]]["config"]
                elif e["ev"] == "read_config":
                    cfg = file
                if e["ev"] != "start":
                    continue
                checked += 1
                n += 1
                env, rid, name = dict(e["rec"]["env"]), e["run"], e["job"]
                core.check(rid is not None, "a run was started without output.txt in its run directory: {}", e["rec"].get("out"))

                def bad(msg, *a):
                    raise core.Violation("run #%d of job %s, started at %.3f: " % (e["n"], name, e["t"]) + msg % a + "\nenvironment: %s\nconfiguration: %s\n%s\n%s" % (
                        json.dumps(e["rec"]["env"], sort_keys=True), json.dumps(cfg)[:2000], sim.timeline(tr, 30), tr.err[-500:]))
                row = rows.get(rid)
                if row is None:
                    bad("it is not recorded")
                job = model.jobs_of(cfg).get(name)
                if job is None:
                    bad("the job is not configured")
                data = d + "/var"
                rd = "%s/runs/%s/%s" % (data, name, rid)
                td = json.loads(row["trigger_data"])
                if row["trigger_type"] == "file":
                    td = trig[td["id"]]["data"]
                want = {"CI": "true", "DSARI": "true", "LOGNAME": user.pw_name, "HOME": user.pw_dir, "PATH": "/usr/bin:/bin", "DATA_DIR": data,
                        "JOB_NAME": name, "JOB_DIR": "%s/runs/%s" % (data, name), "RUN_ID": rid, "RUN_DIR": rd, "TRIGGER_TYPE": row["trigger_type"],
                        "TRIGGER_DIR": data + "/trigger", "SCHEDULE_TIME": row["schedule_time"], "START_TIME": row["start_time"]}
                denv = {"PATH": "/usr/bin:/bin"}
                denv.update(life["environ"])
                if "PATH" not in life["unset"]:
                    want["PATH"] = denv["PATH"]
                if job.get("job_group"):
                    want["JOB_GROUP"] = job["job_group"]
                if job.get("jenkins_environment"):
                    want.update(BUILD_ID=rid, BUILD_NUMBER=rid, BUILD_TAG="dsari-%s-%s" % (name, rid), BUILD_URL="file://%s/" % rd, EXECUTOR_NUMBER="0",
                                JENKINS_URL="file://%s/" % data, NODE_NAME="master", WORKSPACE=rd)
                if job.get("concurrency_groups"):
                    want["CONCURRENCY_GROUP"] = job["concurrency_groups"]
                before = {s["run"] for s in tr.starts if s["reap_t"] is not None and s["reap_t"] < e["t"]} | earlier
                prev = [done[x] for x in before if x in done and done[x]["job_name"] == name]
                for key, sel in (("PREVIOUS_", prev), ("PREVIOUS_GOOD_", [r for r in prev if r["exit_code"] == 0]), ("PREVIOUS_BAD_", [r for r in prev if r["exit_code"]])):
                    if not sel:
                        continue
                    r = max(sel, key=lambda r: r["stop_time"])
                    classes.add(key)
                    want.update({key + "RUN_ID": r["run_id"], key + "EXIT_CODE": str(r["exit_code"])})
                    for t in ("schedule_time", "start_time", "stop_time"):
                        want[key + t.upper()] = r[t]
                own = {}
                for src in (cfg.get("environment"), job.get("environment"), td.get("environment")):
                    own.update(src or {})
                own = {k: v if isinstance(v, str) else str(v) for k, v in own.items()}
                want.update(own)
                cwd = rd
                if "PWD" in own and os.path.isdir(own["PWD"]):
                    cwd = own["PWD"]
                    classes.add("PWD")
                want["PWD"] = cwd
                if os.path.realpath(e["rec"]["cwd"]) != os.path.realpath(cwd):
                    bad("the working directory is %s instead of %s", e["rec"]["cwd"], cwd)
                for k in sorted(set(env) | set(want)):
                    if k not in want:
                        bad("there is %s=%r", k, env[k])
                    if k not in env:
                        bad("there is no %s (%r)", k, want[k])
                    w = want[k]
                    if not (close(env[k], w) if isinstance(w, (int, float)) else env[k] in w if isinstance(w, list) else env[k] == w):
                        bad("%s is %r instead of %r", k, env[k], w)
                if own:
                    classes.add("own")
                if job.get("jenkins_environment"):
                    classes.add("jenkins")
                if prev or own:
                    nontrivial = 1
            earlier |= set(done)
            config = file
            # what the previous life ended with stays
            for f in [x for x in os.listdir(d + "/var/trigger")] if os.path.isdir(d + "/var/trigger") else []:
                for x in os.listdir(d + "/var/trigger/" + f):
                    os.remove("%s/var/trigger/%s/%s" % (d, f, x))
    return {"nontrivial": nontrivial and checked > 1, "checked": checked, "classes": sorted(classes)}
