"""Orchestrates one check: regression plans, eight shards, replay, evidence."""
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
SHIM = os.path.join(VERIF, "build", "shim.so")
PROBE = os.path.join(VERIF, "build", "probe")


def build():
    for names, out, opts in ((("shim.c", "fault.c"), SHIM, ["-shared", "-fPIC"]), (("probe.c",), PROBE, [])):
        src = [os.path.join(LIB, name) for name in names]
        if os.path.exists(out) and os.path.getmtime(out) >= max(map(os.path.getmtime, src)):
            continue
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid())
        subprocess.run(["gcc", "-O2", *opts, "-o", tmp, *src], check=True)
        os.rename(tmp, out)


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def worker(pid, args, scratch, **kw):
    env = dict(os.environ)
    env["LD_PRELOAD"] = SHIM
    env["VERIF_SCRATCH"] = scratch
    env["DSARI_HOME"] = os.path.join(scratch, "home")
    os.makedirs(env["DSARI_HOME"] + "/etc", exist_ok=True)
    return subprocess.Popen(
        [sys.executable, "-s", "-E", "-B", os.path.join(LIB, "worker.py"), pid] + args,
        env=env, cwd=scratch, start_new_session=True, **kw)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def rm(path):
    # writes of run processes may leave odd modes
    shutil.rmtree(path, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = os.environ["VERIF_TIER"]
    seed = int(os.environ["VERIF_SEED"])
    build()
    base = tempfile.mkdtemp(prefix="dsv-%s-" % pid, dir=scratch_base())
    os.chmod(base, 0o755)
    try:
        if "--replay" in sys.argv:
            rp = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
            p = worker(pid, ["--replay", rp], base)
            rc = p.wait()
            if rc == 1:
                print("VIOLATION property=%s replay=%s" % (pid, rp))
            return rc
        return run(pid, tier, seed, base)
    finally:
        rm(base)


def run(pid, tier, seed, base):
    t0 = time.time()
    nsh = int(os.environ.get("VERIF_SHARDS") or 8)
    known = json.load(open(os.path.join(VERIF, "known_findings.json"))) if os.path.exists(os.path.join(VERIF, "known_findings.json")) else {}
    procs = []
    for i in range(nsh):
        out = os.path.join(base, "out%d.json" % i)
        sc = os.path.join(base, "s%d" % i)
        os.makedirs(sc)
        log = open(os.path.join(base, "log%d" % i), "w")
        procs.append((i, out, worker(pid, ["--shard", str(i), str(nsh), str(seed), tier, out], sc, stdout=log, stderr=log)))
    pending = {i for i, _, _ in procs}
    results, bad = {}, []
    first = None
    while pending:
        for i, out, p in procs:
            if i not in pending:
                continue
            rc = p.poll()
            if rc is None:
                continue
            pending.discard(i)
            res = json.load(open(out)) if os.path.exists(out) else None
            if rc not in (0, 1) or res is None:
                bad.append((i, rc))
            else:
                results[i] = res
                if rc == 1 and first is None:
                    first = i
                    # give the other shards no more time: one minimal failure is enough
                    for j, _, q in procs:
                        if j in pending:
                            stop(q)
                            pending.discard(j)
        time.sleep(0.02)
    for i, rc in bad:
        sys.stdout.write("shard %d of %s ended with %s\n" % (i, pid, rc))
        sys.stdout.write(open(os.path.join(base, "log%d" % i)).read()[-6000:] + "\n")
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    rc = 2 if bad and first is None else 0
    nviol = 0
    if first is not None:
        fail = results[first]["failure"]
        name = "%s-%s.json" % (pid, hashlib.sha1(json.dumps(fail["plan"], sort_keys=True).encode()).hexdigest()[:10])
        rp = os.path.join(ev_dir, "replays", name)
        with open(rp, "w") as f:
            json.dump({"property": pid, "plan": fail["plan"], "message": fail["message"]}, f, indent=1)
        confirmed = False
        for k in range(3):
            sc = os.path.join(base, "replay%d" % k)
            os.makedirs(sc)
            p = worker(pid, ["--replay", rp], sc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.communicate()[0].decode(errors="replace")
            if p.returncode == 1:
                confirmed = True
                break
        if confirmed:
            print(fail["message"])
            print("plan: " + json.dumps(fail["plan"])[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
            nviol = 1
        else:
            print("failure did not replay: %s\n%s" % (fail["message"], o[-3000:]))
            rc = 2
    for k in known.get("open", []):
        if k["property"] == pid and rc == 0:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # evidence
    ev = sum(r["evaluations"] for r in results.values())
    keys = set()
    classes = {}
    samples = []
    for i in sorted(results):
        r = results[i]
        keys.update(r["keys"])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        samples += r["samples"][:2]
    meta = next(iter(results.values()))["meta"] if results else {}
    n = sum(r["checked"] for r in results.values())
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(keys), "rule": meta.get("rule", ""),
            "samples": samples[:4], "classes": dict(sorted(classes.items())),
            "oracle_comparisons": n, "shards": len(results),
            "regression_plans": sum(r["regress"] for r in results.values()),
        },
        "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
        f.write("\n")
    print("%s: %d cases, %d distinct non-trivial, %d comparisons, %.1f s, exit %d" % (pid, ev, len(keys), n, time.time() - t0, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
