"""C02: hashed (H) and random (R) schedule fields."""
import datetime as dt
import hashlib
import random

from hypothesis import strategies as st

import core
import gens
from core import check
from refcron import Cron, UTC

QUICK, THOROUGH = 900, 4000
TECHNIQUE = "property-based testing: observed value sets of hashed fields against the permitted sets, metamorphic and statistical spread checks"
LEVEL_NOTE = ("Randomised search with shrinking; the value set of a field is observed through the computed run times over a whole period. "
              "The spread test is statistical, with a false-alarm rate far below 1e-6.")
RULE = ("case = one of: one hashed item at one position (observed value set against the permitted sets, stable over reference, "
        "timezone and process); several hashed fields together (against the sets observed for each alone); alias against its documented "
        "expression; spread over many names; R draws. Non-trivial = every case whose range has more than one permitted value")
FORK = ["dsari.utils"]
ASSUMPTIONS = ["sampling error of the spread test: below 1e-8 per case for a uniform hash"]

RANGES = gens.RANGES
PROBE = ["{} * * * * 0", "0 {} * * * 0", "0 0 {} * * 0", "0 0 1 {} * 0", "0 0 * * {} 0", "* * * * * {}"]
SPAN = [3600, 86400, 31 * 86400, 366 * 86400, 7 * 86400, 60]
PICK = [lambda t: t.minute, lambda t: t.hour, lambda t: t.day, lambda t: t.month, lambda t: t.isoweekday() % 7, lambda t: t.second]
ALIASES = {"@midnight": "H H(0-2) * * *", "@hourly": "H * * * *", "@daily": "H H * * *", "@weekly": "H H * * H",
           "@monthly": "H H H * *", "@yearly": "H H H H *", "@annually": "H H H H *"}
BASE = dt.datetime(2024, 1, 1, 0, 0, 0, tzinfo=UTC)

any_names = st.one_of(gens.job_names, gens.job_names, gens.text(gens.uni, min_size=1, max_size=10))


@st.composite
def items(draw, pos, letter="H", kinds="0123"):
    lo, hi = RANGES[pos]
    k = draw(st.sampled_from(kinds))
    if k == "0":
        return letter
    a = draw(st.one_of(st.just(lo), st.integers(lo, hi)))
    b = draw(st.one_of(st.just(a), st.just(hi), st.integers(a, hi)))
    if k == "1":
        return "%s(%d-%d)" % (letter, a, b)
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, hi - lo + 1), st.sampled_from([10, 15, 20, 30]), st.integers(1, 70)))
    if k == "2":
        return "%s/%d" % (letter, n)
    return "%s(%d-%d)/%d" % (letter, a, b, n)


def parse(item, pos):
    """-> (a, b, n): single value in a..b if n is None, else steps"""
    lo, hi = RANGES[pos]
    body = item[1:]
    n = None
    if "/" in body:
        body, n = body.split("/")
        n = int(n)
    if body:
        a, b = (int(x) for x in body.strip("()").split("-"))
    else:
        a, b = lo, hi
    return a, b, n


def permitted(item, pos):
    a, b, n = parse(item, pos)
    out = []
    tops = [(a, b)]
    if pos == 4 and item[1:2] != "(":
        tops.append((0, 7))     # Sunday is 0 or 7
    for a, b in tops:
        for o in range(a, (b if n is None else min(a + n - 1, b)) + 1):
            v = {o} if n is None else set(range(o, b + 1, n))
            out.append({x % 7 for x in v} if pos == 4 else v)
    return out


@st.composite
def plans(draw):
    mode = draw(gens.weighted((12, st.just("item")), (10, st.just("combo")), (3, st.just("alias")), (2, st.just("spread")), (1, st.just("random")), (1, st.just("class"))))
    p = {"mode": mode, "name": draw(any_names), "seed": draw(gens.wide(0, 2 ** 32))}
    if mode in ("item", "spread", "random", "class"):
        p["pos"] = draw(st.sampled_from([0, 1, 2, 3, 4, 4, 5]) if mode == "spread" else st.integers(0, 5))
        p["item"] = draw(items(p["pos"], "R" if mode == "random" else "H", "001223" if mode == "spread" else "0123"))
        p["other"] = draw(any_names)
        p["ref"] = draw(gens.epochs)
        p["tz"] = draw(gens.fixed_zones)
        p["process"] = draw(st.integers(0, 99)) == 37
    elif mode == "combo":
        fields = []
        for pos in range(draw(st.sampled_from([5, 6]))):
            if draw(st.booleans()):
                fields.append(draw(items(pos)))
            else:
                fields.append(draw(gens.cron_field(pos, star=6)))
        p["fields"] = fields
        p["ref"] = draw(gens.epochs)
        p["blank"] = draw(st.sampled_from([" ", " ", "  "]))
    else:
        p["alias"] = draw(st.sampled_from(sorted(ALIASES)))
        p["ref"] = draw(gens.epochs)
        p["tz"] = draw(gens.fixed_zones)
    return p


def strategy(tier):
    return plans()


def gnst(schedule, name, ref):
    from dsari import utils
    return utils.get_next_schedule_time(schedule, name, start_time=ref)


def offset(name):
    r = dt.datetime(2020, 6, 1, 12, 0, 0, tzinfo=UTC)
    return (gnst("* * * * * *", name, r) - r) % dt.timedelta(seconds=1)


def observe(item, pos, name, start=BASE):
    """The values the field takes, from the run times over one full period."""
    d = offset(name)
    out = set()
    t = start + d - dt.timedelta(microseconds=1)
    end = start + dt.timedelta(seconds=SPAN[pos])
    sched = PROBE[pos].format(item)
    while True:
        t = gnst(sched, name, t)
        if t is None or t - d >= end:
            return out
        out.add(PICK[pos](t - d))


def observed(item, pos, name):
    return sorted(observe(item, pos, name))


def run(plan):
    random.seed(plan["seed"])
    return globals()["run_" + plan["mode"]](plan)


def run_item(p):
    pos, item, name = p["pos"], p["item"], p["name"]
    got = observe(item, pos, name)
    opts = permitted(item, pos)
    check(got in opts, "{!r} at position {} of job {!r} fires at {}, which is none of the permitted sets, e.g. {}",
          item, pos, name, sorted(got), sorted(opts[0]))
    # another job in between, then again from elsewhere in time
    observe(item, pos, p["other"])
    year = dt.datetime.fromtimestamp(p["ref"], UTC).year
    got2 = observe(item, pos, name, dt.datetime(year, 1, 1, tzinfo=UTC))
    check(got == got2, "{!r} at position {} of job {!r} gives {} first and {} for year {}", item, pos, name, sorted(got), sorted(got2), year)
    if p["process"]:
        o = set(core.elsewhere("c02", "observed", [item, pos, name], p["seed"]))
        check(o == got, "{!r} of job {!r} differs in another process: {} and {}", item, name, sorted(got), sorted(o))
    return {"nontrivial": len(opts) > 1, "checked": 2, "classes": ["item:%d" % pos, "form:" + "".join(c for c in item if not c.isdigit())]}


def run_combo(p):
    name = p["name"]
    fields = list(p["fields"])
    cron = []
    for pos, f in enumerate(fields):
        if f[0] == "H":
            v = observe(f, pos, name)
            check(v in permitted(f, pos), "{!r} at {} gives {}", f, pos, sorted(v))
            if pos in (2, 4) and len(v) == len({x % 7 for x in range(7)} if pos == 4 else range(1, 32)):
                fields[pos] = f = "*"
                cron.append("*")
            else:
                cron.append(",".join(str(x) for x in sorted(v)))
        else:
            cron.append(f)
    if len(cron) == 5:
        cron.append(",".join(str(x) for x in sorted(observe("H", 5, name))))
    from refcron import field_values
    for pos, n in ((2, 31), (4, 7)):
        if cron[pos] != "*" and len(field_values(cron[pos], pos)) == n:
            fields[pos] = cron[pos] = "*"
    longest = max(29 if m == 2 else 30 if m in (4, 6, 9, 11) else 31 for m in field_values(cron[3], 3))
    if cron[2] != "*" and min(field_values(cron[2], 2)) > longest:
        return {"classes": ["impossible-day"]}
    ref = dt.datetime.fromtimestamp(p["ref"], UTC)
    d = offset(name)
    c = Cron(cron)
    sched = p["blank"].join(fields)
    for _ in range(3):
        want = c.next(ref - d, UTC)
        if want is None:
            return {"classes": ["no-occurrence"]}
        got = gnst(sched, name, ref)
        check(got == want + d, "{!r} of job {!r} after {}: expected {} ({!r}), got {}", sched, name, ref, want + d, " ".join(cron), got)
        ref = got
    return {"nontrivial": any(f[0] == "H" for f in fields), "checked": 3, "classes": ["combo:%d" % sum(f[0] == "H" for f in fields)]}


def run_alias(p):
    ref = dt.datetime.fromtimestamp(p["ref"], UTC).astimezone(dt.timezone(dt.timedelta(hours=len(p["tz"]) % 5)))
    if p["alias"] in ("@yearly", "@annually"):
        # the hash may pick a day the month does not have
        m, day = observe("H", 3, p["name"]), observe("H", 2, p["name"])
        if max(day) > max(29 if x == 2 else 30 if x in (4, 6, 9, 11) else 31 for x in m):
            return {"classes": ["impossible-day"]}
    a, b = ref, ref
    for _ in range(4):
        a = gnst(p["alias"], p["name"], a)
        b = gnst(ALIASES[p["alias"]], p["name"], b)
        check(a == b, "{} of job {!r}: {} but {} gives {}", p["alias"], p["name"], a, ALIASES[p["alias"]], b)
        c = gnst(ALIASES[p["alias"]] + " H", p["name"], b - dt.timedelta(seconds=1))
        check(c == b, "{} with explicit H second: {}, without: {}", ALIASES[p["alias"]], c, b)
    return {"nontrivial": True, "checked": 8, "classes": ["alias:" + p["alias"]]}


def run_spread(p):
    pos, item = p["pos"], p["item"]
    opts = permitted(item, pos)
    if pos == 4 and item[1:2] != "(":
        a, b, n = 0, 6, parse(item, pos)[2]
        firsts = set(range(0, 7 if n is None else min(n, 7)))
    else:
        a, b, n = parse(item, pos)
        firsts = set(range(a, (b if n is None else min(a + n - 1, b)) + 1))
    if pos == 4:
        firsts = {x % 7 for x in firsts}
    seen = set()
    year = BASE - dt.timedelta(seconds=2)
    if pos == 4:
        year = dt.datetime(2024, 1, 7, tzinfo=UTC) - dt.timedelta(seconds=2)   # a Sunday
    count = dict.fromkeys(firsts, 0)
    for i in range(100 * max(len(firsts), 2)):
        name = hashlib.sha1(("%s-%d" % (p["other"], i)).encode("utf-8", "surrogatepass")).hexdigest()[:20]
        v = PICK[pos](gnst(PROBE[pos].format(item), name, year + dt.timedelta(microseconds=1999999)))
        seen.add(v)
        count[v] = count.get(v, 0) + 1
    check(firsts <= seen, "{!r} at position {}: no job name gives {}", item, pos, sorted(firsts - seen))
    if len(firsts) > 1:
        # six standard deviations or more
        check(max(count.values()) <= 165 and min(count.values()) >= 40, "{!r} at position {} is not spread evenly over {} job names: {}", item, pos, sum(count.values()), count)
    check(seen <= set().union(*opts), "{!r} at position {}: {} not permitted", item, pos, sorted(seen - set().union(*opts)))
    return {"nontrivial": len(firsts) > 1, "classes": ["spread"], "checked": len(seen)}


def run_random(p):
    pos, item, name = p["pos"], p["item"], p["name"]
    a, b, n = parse(item, pos)
    lasts = b if n is None else min(a + n - 1, b)
    firsts = {x % 7 if pos == 4 else x for x in range(a, lasts + 1)}
    year = BASE - dt.timedelta(seconds=1)
    if pos == 4:
        year = dt.datetime(2024, 1, 7, tzinfo=UTC) - dt.timedelta(seconds=1)
        if a <= 6 and b >= 6 and item[1:2] != "(" and n is not None and n > 7:
            pass
    d = offset(name)
    # R depends on the range only through its first occurrence, as with H
    seen = set()
    for _ in range(25 * max(len(firsts), 2)):
        seen.add(PICK[pos](gnst(PROBE[pos].format(item), name, year + d) - d))
    check(seen <= firsts, "{!r} at position {} drew {}", item, pos, sorted(seen - firsts))
    check(firsts <= seen, "{!r} at position {} never drew {}", item, pos, sorted(firsts - seen))
    return {"nontrivial": len(firsts) > 1, "classes": ["random"], "checked": len(seen)}


def run_class(p):
    from dsari.croniter_hash import croniter_hash
    ref = dt.datetime.fromtimestamp(p["ref"], UTC)
    e = PROBE[p["pos"]].format(p["item"])
    a = croniter_hash(e, start_time=ref, hash_id=p["name"]).get_next(dt.datetime)
    b = croniter_hash(e, start_time=ref, hash_id=p["name"].encode("utf-8")).get_next(dt.datetime)
    check(a == b, "{!r}: {} with a text ID, {} with the same as bytes", e, a, b)
    plain = PROBE[p["pos"]].format(RANGES[p["pos"]][0] + 1)
    a = croniter_hash(plain, start_time=ref, hash_id=p["name"]).get_next(dt.datetime)
    b = croniter_hash(plain, start_time=ref).get_next(dt.datetime)
    check(a == b, "{!r}: {} with an ID, {} without", plain, a, b)
    return {"nontrivial": True, "classes": ["class"], "checked": 2}
