"""C19: a run's process is set up as documented."""
import json
import os
import signal

from hypothesis import strategies as st

import core
import gens
import real
import sim

QUICK, THOROUGH = 150, 600
TECHNIQUE = "property-based testing with real processes: the real daemon executes a compiled probe which reports its argument vector, descriptors, group and signal state and then writes and ends as generated; compared with configuration, output file and history"
LEVEL_NOTE = ("Randomised search with shrinking. Real time passes, but no verdict depends on how much (only a daemon which does not finish runs within a minute is reported). "
              "Command forms also repeat under the simulated daemon.")
RULE = "case = up to eight jobs with argument vectors, ways to find the command, outputs and ends x the daemon's own descriptors and ignored signals; non-trivial = at least two runs were executed"
ASSUMPTIONS = ["the daemon's caller leaves no descriptor above 1023 open and blocks no signals", "no resource limit keeps fork or exec from working"]
PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "probe")
SIGNALS = [1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31, 34, 64]


@st.composite
def script(draw):
    """[[fd, bytes as latin-1, repeat]..], end"""
    out = []
    for _ in range(draw(st.integers(0, 6))):
        fd = draw(st.sampled_from([1, 1, 2]))
        if draw(st.integers(0, 9)) == 9:
            out.append([fd, chr(draw(st.sampled_from([0, 10, 65, 255]))), draw(st.sampled_from([5000, 66000, 300000]))])
        else:
            out.append([fd, draw(gens.text("ab \n\r\t\x00\x1b\xff\xfe\x80\xc3\xa9<&", 1, 12)), 1])
    end = ["k", draw(st.sampled_from(SIGNALS))] if draw(st.integers(0, 2)) == 2 else ["x", draw(st.one_of(st.sampled_from([0, 0, 1, 2, 127, 128, 255]), st.integers(0, 255)))]
    return out, end


ARGS = st.one_of(st.sampled_from(["", "a", "-x", "--", "a b", "'", '"', "\\", "$HOME", "*", "~", "\n", "%s", "{}", "\u00e9\u4e2d", "\U0001f600", ";", "#"]), gens.text(gens.uni, max_size=6).filter(lambda s: "\x00" not in s))
BAD = ["nosuchcommand", "$D/nosuch", "$D/plain", "$D/noexec", "$D/var", "/", "./nosuch", "$D/plain/x", "$D/badscript"]


@st.composite
def plans(draw, tier):
    jobs, scripts = {}, {}
    names = draw(st.lists(st.one_of(gens.job_names, st.sampled_from(["a", "b", "c"])), min_size=1, max_size=8, unique=True))
    for i, n in enumerate(names):
        j = {"environment": {}}
        how = draw(st.sampled_from(["abs", "path", "path2", "rel", "daemon-path", "symlink", "script", "bad"]))
        args = draw(st.lists(ARGS, max_size=4))
        w, end = draw(script())
        if how == "abs":
            c0 = "$D/bin/probe"
        elif how == "path":
            c0 = "only-in-bin2"
            j["environment"]["PATH"] = draw(st.sampled_from(["$D/bin2", "/nonexistent:$D/bin2:/bin", "$D/plain:$D/bin2"]))
        elif how == "path2":
            c0 = "both"      # the first directory wins
            j["environment"]["PATH"] = draw(st.sampled_from(["$D/bin1:$D/bin2", "$D/bin2:$D/bin1"]))
        elif how == "rel":
            c0 = "./probe"
            j["environment"]["PWD"] = "$D/bin"
        elif how == "daemon-path":
            c0 = "in-daemon-path"
        elif how == "symlink":
            c0 = "$D/a b/prob\u00e9"
        elif how == "script":
            c0 = "$D/script"
        else:
            c0 = draw(st.sampled_from(BAD))
        j["command"] = [c0] + args
        if draw(st.integers(0, 3)) == 3:
            j["command_append_run"] = True
        jobs[n] = j
        scripts[n] = {"writes": w, "end": end, "how": how, "twice": draw(st.integers(0, 3)) == 3}
    return {"jobs": jobs, "scripts": scripts, "fds": draw(st.lists(st.sampled_from([3, 5, 9, 10, 100, 255, 256, 1000, 1023]), max_size=3, unique=True)),
            "ignore": draw(st.sampled_from([[], [], ["SIGHUP"], ["SIGINT", "SIGQUIT"]])), "string": draw(st.booleans()), "group": draw(st.booleans())}


def strategy(tier):
    return plans(tier)


def quote(s):
    return "'" + s.replace("'", "'\"'\"'") + "'"


def run(plan):
    classes = set()
    with core.TempDir() as d:
        for x in ("bin", "bin1", "bin2", "a b", "dp", "scripts", "out"):
            os.mkdir(d + "/" + x)
        for x in ("bin/probe", "bin1/both", "bin2/both", "bin2/only-in-bin2", "a b/prob\u00e9", "dp/in-daemon-path"):
            os.symlink(PROBE, d + "/" + x)
        for x, text, mode in (("plain", "x", 0o755), ("noexec", "#!/bin/sh\nexit 0\n", 0o644), ("badscript", "#!/nonexistent/interpreter\n", 0o755),
                              ("script", "#!%s/bin/probe\n" % d, 0o755)):
            with open(d + "/" + x, "w") as f:
                f.write(text)
            os.chmod(d + "/" + x, mode)
        jobs = sim.place(plan["jobs"], d)
        expect = 0
        want = {}
        for i, n in enumerate(sorted(jobs)):
            j, sc = jobs[n], plan["scripts"][n]
            want[n] = list(j["command"])
            if plan["string"] and all(j["command"]) and i % 2:
                j["command"] = " ".join(quote(x) for x in j["command"])
            j["environment"].update(PROBE_OUT="%s/out/%d" % (d, i), PROBE_SCRIPT="%s/scripts/%d" % (d, i))
            with open("%s/scripts/%d" % (d, i), "w") as f:
                for fd, b, rep in sc["writes"]:
                    b = b.encode("latin-1")
                    f.write("d %d %d %d\n" % (fd, rep, b[0]) if rep > 1 else "w %d %s\n" % (fd, b.hex()))
                f.write("%s %d\n" % tuple(sc["end"]))
            td = "%s/var/trigger/%s" % (d, n)
            os.makedirs(td)
            with open(td + "/trigger.json", "w") as f:
                f.write("{}")
            expect += 1
            if sc["twice"]:
                with open(td + "/trigger.yaml", "w") as f:
                    f.write("{}")
                expect += 1
        cfg = {"jobs": jobs}
        if plan["group"]:
            grouped = sorted(jobs)[::2]
            cfg = {"jobs": {n: jobs[n] for n in jobs if n not in grouped}, "job_groups": {"grp %s" % i: dict(jobs[n], job_names=[n]) for i, n in enumerate(grouped)}}
        sim.write_config(d, cfg)
        res = sim.zygote({"expect": expect, "fds": plan["fds"], "ignore": plan["ignore"], "environ": {"PATH": "$D/dp:/usr/bin:/bin", "HOME": "/nonexistent"}}, d, "real")
        r = core.ok(res, "running the daemon")
        runs = r["db"]["runs"]
        core.check(r["state"] == "done", "the daemon: {}, {} runs of {} are recorded\n{}", r["state"], len(runs), expect, r["log"])
        core.check(len(runs) == expect and not r["db"]["running"], "{} runs of {} are recorded, {} are in progress\n{}", len(runs), expect, len(r["db"]["running"]), r["log"])
        reports = {}
        for f in os.listdir(d + "/out"):
            i, rid = f.split(".", 1)
            rep = {}
            for line in open(d + "/out/" + f):
                k, *v = line.rstrip("\n").split(" ")
                rep.setdefault(k, []).append(v)
            reports.setdefault(sorted(jobs)[int(i)], {})[rid] = rep
        executed = 0
        for n in sorted(jobs):
            sc = plan["scripts"][n]
            mine = [x for x in runs if x["job_name"] == n]
            core.check(len(mine) == 1 + sc["twice"], "job {} has {} runs\n{}", n, len(mine), r["log"])
            classes.add(sc["how"])
            for x in mine:
                rid = x["run_id"]
                rd = "%s/var/runs/%s/%s" % (d, n, rid)

                def bad(msg, *a):
                    raise core.Violation("run %s of job %s (%s): " % (rid, n, json.dumps(jobs[n])) + msg % a + "\n" + r["log"])
                try:
                    with open(rd + "/output.txt", "rb") as f:
                        output = f.read()
                except OSError as e:
                    bad("no output: %s", e)
                rep = reports.get(n, {}).pop(rid, None)
                if sc["how"] == "bad":
                    if rep is not None:
                        bad("it was executed")
                    if x["exit_code"] == 0:
                        bad("it is recorded as successful")
                    continue
                if rep is None:
                    bad("it was not executed; output: %r", output[-1500:])
                executed += 1
                argv = [bytes.fromhex(v[0] if v else "").decode("utf-8", "surrogateescape") for v in rep["arg"]]
                expected = list(want[n]) + ([n, rid] if jobs[n].get("command_append_run") else [])
                if sc["how"] == "script":
                    expected[:1] = [d + "/bin/probe", d + "/script"]
                if argv != expected:
                    bad("the argument vector is %r instead of %r", argv, expected)
                if rep["pid"] != rep["pgrp"]:
                    bad("it is not in its own process group: pid %s, group %s", rep["pid"], rep["pgrp"])
                if rep["stdin"] != [["0"]]:
                    bad("reading standard input gives %s", rep["stdin"])
                if sorted(v for v in rep["fds"][0] if v) != ["0", "1", "2"]:
                    bad("open descriptors are %s", rep["fds"][0])
                s = os.stat(rd + "/output.txt")
                for v in rep["stat"]:
                    if v[0] in ("1", "2") and v[1:3] != [str(s.st_dev), str(s.st_ino)]:
                        bad("descriptor %s is not output.txt", v[0])
                cwd = bytes.fromhex(rep["cwd"][0][0]).decode()
                ecwd = jobs[n]["environment"].get("PWD", rd)
                if cwd != os.path.realpath(ecwd):
                    bad("the working directory is %s instead of %s", cwd, ecwd)
                for k, what in (("ign", "ignored"), ("blk", "blocked")):
                    if k in rep:
                        bad("signals %s are %s", ", ".join(signal.Signals(int(v[0])).name if int(v[0]) < 32 else v[0] for v in rep[k]), what)
                data = b"".join(b.encode("latin-1") * rep_ for fd, b, rep_ in sc["writes"])
                if output != data:
                    k = next((i for i, (a, b) in enumerate(zip(output, data)) if a != b), min(len(output), len(data)))
                    bad("the output (%d bytes) differs from what was written (%d bytes) at byte %d: %r, %r", len(output), len(data), k, output[k:k + 40], data[k:k + 40])
                code = sc["end"][1] + (128 if sc["end"][0] == "k" else 0)
                if x["exit_code"] != code:
                    bad("the recorded exit code is %r instead of %r", x["exit_code"], code)
                classes.add("signal" if sc["end"][0] == "k" else "exit")
        for n in reports:
            core.check(not reports[n], "job {} was executed with run IDs which are not recorded: {}", n, sorted(reports[n]))
    return {"nontrivial": executed >= 2, "checked": expect, "classes": sorted(classes)}
