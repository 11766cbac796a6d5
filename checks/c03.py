"""C03: RRULE schedules against a brute-force model of recurrence sets."""
import bisect
import calendar
import datetime as dt
import functools
import json

from dateutil import tz as dtz
from hypothesis import strategies as st

import core
import gens
from core import check
from refcron import UTC, change_after, offset_changes, open_in_change, zone

QUICK, THOROUGH = 300, 6000
TECHNIQUE = "property-based testing: generated recurrence rules, names, instants and zones against a brute-force recurrence model"
LEVEL_NOTE = ("Randomised search with shrinking; every answer is compared with an independent enumeration of the recurrence set. "
              "Windows with a change of the UTC offset are judged only for rules which leave no time of day open and have none near the change.")
RULE = ("case = RRULE x job name x reference instant x timezone, judged over a chain of successive next times, by the library call or "
        "by dsari-info job list; non-trivial = at least one answer judged (see level_note for changes of the UTC offset)")
FORK = ["dsari.utils", "dsari.info"]
ASSUMPTIONS = ["the positions a rule leaves open are measured once per job name and timezone with FREQ=DAILY and then required of every other rule"]

DAYS = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]


def div(n):
    return [k for k in range(1, n) if n % k == 0]


def some(lo, hi, mx=4):
    return st.lists(st.integers(lo, hi), min_size=1, max_size=mx, unique=True)


@st.composite
def plans(draw):
    freq = draw(st.sampled_from(["DAILY", "DAILY", "HOURLY", "MINUTELY", "SECONDLY"]))
    r = {"FREQ": freq}
    if freq != "DAILY" and draw(st.booleans()):
        r["INTERVAL"] = draw(st.sampled_from(div({"HOURLY": 24, "MINUTELY": 60, "SECONDLY": 60}[freq])))
    elif draw(st.integers(0, 5)) == 0:
        r["INTERVAL"] = 1
    rare = freq != "SECONDLY"
    if rare and draw(st.integers(0, 3)) == 0:
        r["BYMONTH"] = draw(some(1, 12))
    if rare and draw(st.integers(0, 3)) == 0:
        v = draw(some(-3, 28).filter(lambda x: 0 not in x))
        r["BYMONTHDAY"] = v
    if draw(st.integers(0, 2)) == 0:
        r["BYDAY"] = draw(st.lists(st.sampled_from(DAYS), min_size=1, max_size=4, unique=True))
    inter = r.get("INTERVAL", 1) > 1
    if draw(st.integers(0, 2)) == 0 and not (inter and freq == "HOURLY"):
        r["BYHOUR"] = draw(some(0, 23))
    if draw(st.integers(0, 2)) == 0 and not (inter and freq == "MINUTELY"):
        r["BYMINUTE"] = draw(some(0, 59))
    if draw(st.integers(0, 2)) == 0 and not (inter and freq == "SECONDLY"):
        r["BYSECOND"] = draw(some(0, 59))
    if draw(st.integers(0, 3)) == 0:
        # nothing left open
        r.pop("INTERVAL", None)
        for k, n, at in (("BYHOUR", 23, ["DAILY"]), ("BYMINUTE", 59, ["DAILY", "HOURLY"]), ("BYSECOND", 59, ["DAILY", "HOURLY", "MINUTELY"])):
            if freq in at and k not in r:
                r[k] = draw(some(0, n))
    ref = draw(gens.epochs)
    until = draw(st.sampled_from([None, None, None, "local", "utc"]))
    gap = draw(st.one_of(gens.wide(-3 * 86400, 90 * 86400), gens.wide(-100, 7200), st.sampled_from([0, 1, 86400])))
    return {"rule": r, "order": draw(st.permutations(sorted(r))), "name": draw(gens.job_names), "ref": ref,
            "tz": draw(st.one_of(st.none(), gens.fixed_zones, gens.local_zones)), "local": draw(gens.local_zones),
            "until": until, "gap": gap, "snap_until": draw(st.sampled_from([None, "at", "before"])), "lower": draw(st.integers(0, 5)) == 0,
            "snap": draw(st.sampled_from([None, None, "occurrence", "whole", "before"])),
            "steps": draw(st.lists(st.sampled_from(["next", "half", "micro", "day"]), min_size=1, max_size=4)),
            "others": draw(st.lists(st.tuples(st.sampled_from(["* * * * *", "@daily", "RRULE:FREQ=DAILY", "RRULE:FREQ=HOURLY;BYMINUTE=5", None]), st.one_of(st.none(), gens.job_names), st.one_of(st.none(), gens.fixed_zones)), max_size=3)),
            "near": draw(st.one_of(st.none(), st.none(), gens.uniform(-30 * 3600, 30 * 3600), gens.uniform(-4 * 3600, 4 * 3600), gens.uniform(-5400, 5400))), "process": draw(gens.uniform(0, 149)) == 77,
            "mode": draw(st.sampled_from(["lib"] * 9 + ["info"]))}


def strategy(tier):
    return plans()


def gnst(schedule, name, ref):
    from dsari import utils
    return utils.get_next_schedule_time(schedule, name, start_time=ref)


@functools.lru_cache(4096)
def suboffset(name):
    r = dt.datetime(2020, 6, 1, 12, 0, 0, tzinfo=UTC)
    t = gnst("RRULE:FREQ=SECONDLY", name, r)
    check(t is not None, "FREQ=SECONDLY of job {!r} has no next run", name)
    return (t - r) % dt.timedelta(seconds=1)


def open_time(name, tzinfo, ref, fixed):
    """The wall-clock time of day at which FREQ=DAILY runs."""
    if fixed:
        ref = dt.datetime(2021, 3, 5, 6, 7, 8, tzinfo=UTC)
    t = gnst("RRULE:FREQ=DAILY", name, ref.astimezone(tzinfo))
    check(t is not None, "FREQ=DAILY of job {!r} has no next run", name)
    return (t - suboffset(name)).astimezone(tzinfo).time()


class Model:
    def __init__(self, r, base, until):
        self.r, self.until = r, until
        iv = r.get("INTERVAL", 1)
        f = r["FREQ"]
        rank = ["DAILY", "HOURLY", "MINUTELY", "SECONDLY"].index(f)

        def values(key, unit_rank, n, b):
            if key in r:
                return sorted(set(r[key]))
            if rank < unit_rank:
                return [b]
            if rank == unit_rank:
                return [x for x in range(n) if (x - b) % iv == 0]
            return list(range(n))
        self.h = values("BYHOUR", 1, 24, base.hour)
        self.m = values("BYMINUTE", 2, 60, base.minute)
        self.s = values("BYSECOND", 3, 60, base.second)

    def day_ok(self, d):
        r = self.r
        if "BYMONTH" in r and d.month not in r["BYMONTH"]:
            return False
        if "BYMONTHDAY" in r:
            last = calendar.monthrange(d.year, d.month)[1]
            if d.day not in r["BYMONTHDAY"] and d.day - last - 1 not in r["BYMONTHDAY"]:
                return False
        if "BYDAY" in r and DAYS[d.weekday()] not in r["BYDAY"]:
            return False
        return True

    def next(self, ref, z):
        """First matching whole second strictly after ref, or None."""
        w0 = ref.astimezone(z).replace(tzinfo=None)
        for k in range(366 * 30):
            d = w0.date() + dt.timedelta(days=k)
            if self.until is not None and dt.datetime.combine(d, dt.time(0)).replace(tzinfo=z) > self.until:
                return None
            if not self.day_ok(d):
                continue
            for h in self.h:
                if k == 0 and h < w0.hour:
                    continue
                for m in self.m:
                    if k == 0 and (h, m) < (w0.hour, w0.minute):
                        continue
                    for s in self.s:
                        t = dt.datetime(d.year, d.month, d.day, h, m, s).replace(tzinfo=z).astimezone(UTC)
                        if t > ref:
                            return None if self.until is not None and t > self.until else t
        raise core.HarnessError("no occurrence in 30 years")


def text(plan, until, z):
    parts = []
    for k in plan["order"]:
        v = plan["rule"][k]
        parts.append("%s=%s" % (k, ",".join(str(x) for x in v) if isinstance(v, list) else v))
    if until is not None:
        if plan["until"] == "utc":
            parts.append("UNTIL=" + until.astimezone(UTC).strftime("%Y%m%dT%H%M%SZ"))
        else:
            parts.append("UNTIL=" + until.astimezone(z).strftime("%Y%m%dT%H%M%S"))
    s = "RRULE:" + ";".join(parts)
    return s.lower() if plan["lower"] else s


def chain(schedule, name, tz, local, refs):
    """In another process."""
    core.set_tz(local)
    tzinfo = dtz.gettz(tz) if tz else dtz.tzlocal()
    return [gnst(schedule, name, dt.datetime.fromisoformat(r).astimezone(tzinfo)).astimezone(UTC).isoformat() for r in refs]


def run(plan):
    core.set_tz(plan["local"])
    try:
        return judge(plan)
    finally:
        core.set_tz("UTC")


def judge(plan):
    zname = plan["tz"] or plan["local"]
    z = zone(zname)
    tzinfo = dtz.gettz(plan["tz"]) if plan["tz"] else dtz.tzlocal()
    name = plan["name"]
    d = suboffset(name)
    ref = dt.datetime.fromtimestamp(plan["ref"], UTC)
    day = dt.timedelta(days=1)
    fixed = zname in gens.FIXED_ZONES
    if plan.get("near") is not None:
        # around a change of the UTC offset
        c = change_after(zname, plan["ref"])
        if c is not None:
            ref = dt.datetime.fromtimestamp(c + plan["near"] + plan["ref"] % 1, UTC)
    a, b = (Model(plan["rule"], dt.time(*x), None) for x in ((0, 0, 0), (13, 47, 31)))
    # with nothing left open, only times skipped or repeated by a change, or within an hour of these, are not judged
    closed = (a.h, a.m, a.s) == (b.h, b.m, b.s)

    def unclear(ref, end):
        if fixed:
            return False
        return open_in_change(a, zname, ref, end) if closed else offset_changes(z, ref - 2 * day, end + 2 * day)
    def loosely(ref):
        """Whatever a change of the UTC offset does to the times near it: the next one is later than the reference, and not much too late."""
        free, n = Model(plan["rule"], dt.time(12), None), 0
        for step in plan["steps"] + ["next"]:
            got = info_next(plan, text(plan, None, z), ref) if plan["mode"] == "info" else gnst(text(plan, None, z), name, ref.astimezone(tzinfo))
            end = free.next(ref + 26 * h, z) + 26 * h
            check(got is not None, "{} of job {!r} in {} after {}: nothing left", text(plan, None, z), name, zname, ref)
            got = got.astimezone(UTC)
            check(ref < got <= end, "{} of job {!r} in {} after {}: {}", text(plan, None, z), name, zname, ref, got)
            n += 1
            if plan["mode"] == "info":
                break
            ref = {"next": got, "micro": got + dt.timedelta(microseconds=7), "half": ref + (got - ref) / 2, "day": got + dt.timedelta(minutes=9)}[step]
        return {"classes": ["offset-change", "mode:" + plan["mode"]], "nontrivial": True, "checked": n}
    h = dt.timedelta(hours=1)
    if unclear(ref, ref):
        return loosely(ref)
    base = open_time(name, tzinfo, ref, fixed)
    free = Model(plan["rule"], base, None)
    until = None
    if plan["until"]:
        until = (ref + dt.timedelta(seconds=plan["gap"])).replace(microsecond=0)
        if plan["snap_until"]:
            until = free.next(until, z)
            if plan["snap_until"] == "before":
                until -= dt.timedelta(seconds=1)
        if not fixed and offset_changes(z, until - day, until + day):
            return {"classes": ["offset-change"]}
    model = Model(plan["rule"], base, until)
    schedule = text(plan, until, z)
    if plan["snap"]:
        n = model.next(ref, z)
        if n is not None:
            if unclear(ref, n):
                return loosely(ref)
            ref = {"occurrence": n + d, "whole": n, "before": n + d - dt.timedelta(microseconds=1)}[plan["snap"]]
    classes, checked = ["freq:" + plan["rule"]["FREQ"], "mode:" + plan["mode"], "until:%s" % plan["until"]], 0
    asked = []
    for step in plan["steps"]:
        want = model.next(ref - d, z)
        if unclear(ref - d, want or until or ref):
            classes.append("offset-change")
            break
        for other, oname, tz in plan.get("others", ()):
            # other jobs, or the same one otherwise, in between
            gnst(other or schedule, oname or name, ref.astimezone(dtz.gettz(tz) if tz else tzinfo))
        if plan["mode"] == "info":
            got = info_next(plan, schedule, ref)
        else:
            got = gnst(schedule, name, ref.astimezone(tzinfo))
        checked += 1
        if closed and not fixed and offset_changes(z, ref - 2 * day, (want or until or ref) + 2 * day):
            classes.append("across-change")
        if want is None:
            classes.append("exhausted")
            check(got is None, "{} of job {!r} in {}: nothing is left after {}, got {}", schedule, name, zname, ref, got)
            break
        check(got is not None, "{} of job {!r} in {} after {}: expected {}, got nothing", schedule, name, zname, ref, want + d)
        check(got.astimezone(UTC) == want + d, "{} of job {!r} in {} after {}: expected {}, got {}", schedule, name, zname, ref, want + d, got.astimezone(UTC))
        if plan["mode"] == "info":
            break
        asked.append((ref.isoformat(), (want + d).isoformat()))
        got = want + d
        ref = {"next": got, "micro": got + dt.timedelta(microseconds=7), "half": ref + (got - ref) / 2, "day": got + day}[step]
    if plan.get("process") and asked:
        other = core.elsewhere("c03", "chain", [schedule, name, plan["tz"], plan["local"], [a for a, _ in asked]], int(plan["ref"]) % 1000)
        check(other == [b for _, b in asked], "{} of job {!r}: after {} another process says {}", schedule, name, asked, other)
        classes.append("process")
    return {"nontrivial": checked > 0, "checked": checked, "classes": classes}


def info_next(plan, schedule, ref):
    with core.TempDir() as d:
        job = {"command": ["true"], "schedule": schedule}
        if plan["tz"]:
            job["schedule_timezone"] = plan["tz"]
        core.dump_json(d + "/etc/dsari.json", {"data_dir": d + "/var", "jobs": {plan["name"]: job}})

        def go():
            core.vt_enable(ref.timestamp(), 0)
            core.run_main("dsari.info", ["-c", d + "/etc", "job", "list", "--format", "json"])
        r = core.isolate(go)
        core.ok(r, "dsari-info job list")
        try:
            v = json.loads(r.out)[plan["name"]].get("next_scheduled_run")
            return dt.datetime.fromisoformat(v) if v is not None else None
        except (ValueError, KeyError, TypeError) as e:
            raise core.Violation("dsari-info job list: %r: %r" % (e, r.out[:500]))
