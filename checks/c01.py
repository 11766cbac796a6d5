"""C01: cron schedules against a brute-force model of wall-clock times."""
import datetime as dt
import functools
import json
import os

from dateutil import tz as dtz
from hypothesis import strategies as st

import core
import gens
from core import check
from refcron import Cron, UTC, change_after, field_values, near_change, window, zone

QUICK, THOROUGH = 1000, 8000
TECHNIQUE = "property-based testing: generated schedules, names, instants and zones against a brute-force wall-clock model"
LEVEL_NOTE = ("Randomised search with shrinking; every answer is compared with an independent enumeration of wall-clock times. "
              "Trusts zoneinfo, the model in lib/refcron.py, and excludes a few schedules croniter itself does not accept or define.")
RULE = ("case = cron schedule x job name x reference instant x timezone (per-job or process-local), judged over a chain of "
        "successive next times, by the library call or by dsari-info job list; non-trivial = there is an answer and at least one field is restricted")
FORK = ["dsari.utils", "dsari.info"]
ASSUMPTIONS = ["the sub-second offset and the implicit second of a job name are measured once per name and then required to be constant"]


@st.composite
def plans(draw):
    six = draw(st.booleans())
    fields = [draw(gens.cron_field(p)) for p in range(6 if six else 5)]
    if "*" not in (fields[2], fields[4]):
        # keep away from values of one field that amount to "*" (not specified whether these count as restricted)
        for p, n in ((2, 31), (4, 7)):
            if len(field_values(fields[p], p)) == n:
                fields[p] = "*"
        if fields[2] != "*" and fields[4] != "*":
            # croniter rejects a day of month that never exists, although the day of week could match
            longest = max(29 if m == 2 else 30 if m in (4, 6, 9, 11) else 31 for m in field_values(fields[3], 3))
            if min(field_values(fields[2], 2)) > longest:
                fields[2] = "*"
    blank = draw(st.sampled_from([" ", " ", " ", " ", "  ", "\t"]))
    tz = draw(st.one_of(st.none(), gens.zones))
    return {"schedule": blank.join(fields), "name": draw(gens.job_names), "tz": tz,
            "local": draw(st.one_of(st.just("UTC"), gens.local_zones)), "ref": draw(gens.epochs),
            "near": draw(st.one_of(st.none(), st.none(), gens.uniform(-30 * 3600, 30 * 3600), gens.uniform(-4 * 3600, 4 * 3600), gens.uniform(-5400, 5400))), "aim": draw(st.sampled_from([None, None, "*", "hour"])),
            "snap": draw(st.sampled_from([None, None, None, "occurrence", "whole", "just-before"])),
            "steps": draw(st.lists(st.sampled_from(["next", "micro", "half", "day"]), min_size=1, max_size=6)),
            "others": draw(st.lists(st.tuples(st.sampled_from(["* * * * *", "* * * * * *", "30 4 * * *", "@daily", "RRULE:FREQ=HOURLY", None]), st.one_of(st.none(), gens.job_names), st.one_of(st.none(), gens.zones)), max_size=3)),
            "process": draw(gens.uniform(0, 149)) == 77,
            "mode": draw(st.sampled_from(["lib"] * 7 + ["info"]))}


def strategy(tier):
    return plans()


def gnst(schedule, name, ref, tzinfo):
    from dsari import utils
    return utils.get_next_schedule_time(schedule, name, start_time=ref.astimezone(tzinfo))


@functools.lru_cache(4096)
def offset(name):
    """(sub-second offset, implicit second) of a job name, measured at an arbitrary instant."""
    r = dt.datetime(2020, 6, 1, 12, 0, 0, tzinfo=UTC)
    a = gnst("* * * * * *", name, r, UTC)
    b = gnst("* * * * *", name, r, UTC)
    d = (a - r) % dt.timedelta(seconds=1)
    return d, (b - d).second


def chain(schedule, name, tz, local, refs):
    """In another process."""
    core.set_tz(local)
    tzinfo = dtz.gettz(tz) if tz else dtz.tzlocal()
    return [gnst(schedule, name, dt.datetime.fromisoformat(r), tzinfo).astimezone(UTC).isoformat() for r in refs]


def run(plan):
    f = plan["schedule"].split()
    core.set_tz(plan["local"])
    try:
        d, sec = offset(plan["name"])
        zname = plan["tz"] or plan["local"]
        z = zone(zname)
        c = change_after(zname, plan["ref"]) if plan.get("near") is not None else None
        if c is not None and plan.get("aim"):
            # at the times skipped or repeated
            f[1:5] = [str(window(zname, c)[0].hour) if plan["aim"] == "hour" else "*", "*", "*", "*"]
            plan["schedule"] = " ".join(f)
        cron = Cron(f if len(f) == 6 else f + [str(sec)])
        tzinfo = dtz.gettz(plan["tz"]) if plan["tz"] else dtz.tzlocal()
        ref = dt.datetime.fromtimestamp(plan["ref"], UTC)
        if c is not None:
            # around a change of the UTC offset
            ref = dt.datetime.fromtimestamp(c + plan["near"] + plan["ref"] % 1, UTC)
        if plan["snap"]:
            n = cron.next(ref, z)
            if n is not None:
                ref = {"occurrence": n + d, "whole": n, "just-before": n + d - dt.timedelta(microseconds=1)}[plan["snap"]]
        classes, checked = ["mode:" + plan["mode"], "fields:%d" % len(f)], 0
        asked = []
        for k, step in enumerate(plan["steps"]):
            want = cron.next(ref - d, z)
            if want is None:
                classes.append("no-occurrence")
                break
            for schedule, name, tz in plan.get("others", ()):
                # other jobs, or the same one otherwise, in between
                gnst(schedule or plan["schedule"], name or plan["name"], ref, dtz.gettz(tz) if tz else tzinfo)
            if plan["mode"] == "info":
                got = info_next(plan, ref)
            else:
                got = gnst(plan["schedule"], plan["name"], ref, tzinfo)
            check(got is not None and got.tzinfo is not None, "next time of {!r} is {!r}", plan["schedule"], got)
            got = got.astimezone(UTC)
            asked.append((ref.isoformat(), got.isoformat()))
            checked += 1
            check(got > ref, "schedule {!r} of job {!r} in {}: the next time after {} is {}", plan["schedule"], plan["name"], zname, ref.isoformat(), got.isoformat())
            gaps = cron.gaps(z, ref - d, want)
            # a skipped time may be made up for when the clocks have been set
            made_up = any(dt.timedelta() <= got - d - u < dt.timedelta(minutes=1) for u in gaps)
            if not made_up and got > want + d and (len(cron.sets[1]) < 24 or zname == "Australia/Lord_Howe"):
                # the second occurrence of a repeated time may be left out (also if clocks are not set by whole hours)
                while got > want + d and want.astimezone(z).fold:
                    want = cron.next(want, z)
            if not made_up:
                check(got == want + d, "schedule {!r} of job {!r} in {}: after {} expected {} (= {} + {}), got {}",
                      plan["schedule"], plan["name"], zname, ref.isoformat(), (want + d).isoformat(), want.astimezone(z).isoformat(), d, got.isoformat())
            if gaps:
                classes.append("skipped-time")
            if got.astimezone(z).fold:
                classes.append("repeated-time")
            if near_change(z, want) or near_change(z, ref):
                classes.append("near-dst")
            if got.astimezone(z).utcoffset() != ref.astimezone(z).utcoffset():
                classes.append("across-dst")
            if plan["mode"] == "info":
                break
            ref = {"next": got, "micro": got + dt.timedelta(microseconds=7), "half": ref + (want + d - ref) / 2,
                   "day": got + dt.timedelta(days=1, seconds=1)}[step]
        if plan.get("process") and asked:
            other = core.elsewhere("c01", "chain", [plan["schedule"], plan["name"], plan["tz"], plan["local"], [a for a, _ in asked]], int(plan["ref"]) % 1000)
            check(other == [b for _, b in asked], "schedule {!r} of job {!r}: after {} another process says {}", plan["schedule"], plan["name"], asked, other)
            classes.append("process")
        return {"nontrivial": checked > 0 and any(x != "*" for x in f), "checked": checked, "classes": classes,}
    finally:
        core.set_tz("UTC")


def info_next(plan, ref):
    with core.TempDir() as d:
        job = {"command": ["true"], "schedule": plan["schedule"]}
        if plan["tz"]:
            job["schedule_timezone"] = plan["tz"]
        core.dump_json(d + "/etc/dsari.json", {"data_dir": d + "/var", "jobs": {plan["name"]: job}})

        def go():
            core.vt_enable(ref.timestamp(), 0)
            core.run_main("dsari.info", ["-c", d + "/etc", "job", "list", "--format", "json"])
        r = core.isolate(go)
        core.ok(r, "dsari-info job list")
        try:
            return dt.datetime.fromisoformat(json.loads(r.out)[plan["name"]]["next_scheduled_run"])
        except (ValueError, KeyError, TypeError) as e:
            raise core.Violation("dsari-info job list: %r: %r" % (e, r.out[:500]))
