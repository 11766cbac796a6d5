"""One shard, or one replay, of a check."""
import glob
import hashlib
import importlib
import json
import os
import sys
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.path.realpath(os.environ["DSARI_REPO"])
sys.path[:0] = [REPO, LIB, os.path.join(VERIF, "checks")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import core  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    import dsari
    assert os.path.realpath(dsari.__file__).startswith(REPO + os.sep), dsari.__file__
    if sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        try:
            core.run_case(mod, d["plan"])
        except core.Violation as e:
            print(e)
            return 1
        return 0
    return shard(pid, mod, int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7])


def shard(pid, mod, idx, nsh, seed, tier, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, "MAX_SHRINKING_SECONDS"):
        eng.MAX_SHRINKING_SECONDS = 25
    n = (mod.QUICK if tier == "quick" else mod.THOROUGH)
    scale = os.environ.get("VERIF_SCALE")
    if scale:
        n = max(1, int(n * float(scale)))
    st = {"evaluations": 0, "checked": 0, "keys": set(), "classes": {}, "samples": [], "regress": 0,
          "meta": {"rule": mod.RULE, "assumptions": getattr(mod, "ASSUMPTIONS", [])}}
    last = {}

    def one(plan):
        st["evaluations"] += 1
        try:
            res = core.run_case(mod, plan)
        except core.Violation as e:
            last["plan"] = plan
            last["message"] = str(e)
            if isinstance(e, core.Endless):
                os._exit(finish(1))
            raise
        st["checked"] += res.get("checked", 1)
        for c in res.get("classes", ()):
            st["classes"][c] = st["classes"].get(c, 0) + 1
        if res.get("nontrivial"):
            k = hashlib.sha1(json.dumps(plan, sort_keys=True, default=str).encode()).hexdigest()[:16]
            if k not in st["keys"] and len(st["samples"]) < 2:
                s = json.dumps(plan, sort_keys=True)
                st["samples"].append(plan if len(s) < 3000 else {"truncated": s[:3000]})
            st["keys"].add(k)

    def finish(rc):
        st["keys"] = sorted(st["keys"])
        if rc == 1:
            st["failure"] = last
        with open(out + ".tmp", "w") as f:
            json.dump(st, f)
        os.rename(out + ".tmp", out)
        return rc

    # committed regression plans, spread over the shards
    files = sorted(glob.glob(os.path.join(VERIF, "regress", pid, "*.json")))
    for k, fn in enumerate(files):
        if k % nsh != idx:
            continue
        st["regress"] += 1
        try:
            one(json.load(open(fn))["plan"])
        except core.Violation as e:
            return finish(1)
    s = int.from_bytes(hashlib.sha256(("%s/%d/%d" % (pid, seed, idx)).encode()).digest()[:8], "big")

    @hypothesis.seed(s)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
              report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink])
    @given(mod.strategy(tier))
    def test(plan):
        one(plan)

    try:
        test()
    except core.Violation:
        return finish(1)
    except core.HarnessError:
        raise
    except BaseException as e:
        if last:  # e.g. hypothesis Flaky: main confirms by replaying
            traceback.print_exc()
            return finish(1)
        raise
    return finish(0)


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
