"""Reference model of cron schedules: brute force over wall-clock times."""
import bisect
import calendar
import datetime as dt
import functools
import zoneinfo

UTC = dt.timezone.utc
FIELDS = [(0, 59), (0, 23), (1, 31), (1, 12), (0, 7), (0, 59)]   # minute hour dom month dow second
NAMES = {3: {n.lower(): i for i, n in enumerate(calendar.month_abbr) if n},
         4: {n: i for i, n in enumerate(["sun", "mon", "tue", "wed", "thu", "fri", "sat"])}}


@functools.lru_cache(None)
def zone(name):
    return zoneinfo.ZoneInfo(name)


def field_values(text, pos):
    lo, hi = FIELDS[pos]
    out = set()

    def num(s):
        s = s.lower()
        if s in NAMES.get(pos, {}):
            return NAMES[pos][s]
        return int(s)
    for part in text.split(","):
        body, _, step = part.partition("/")
        step = int(step) if step else 1
        if body == "*":
            a, b = lo, (6 if pos == 4 else hi)
        elif "-" in body:
            a, b = (num(x) for x in body.split("-"))
        else:
            a = b = num(body)
        out.update(range(a, b + 1, step))
    if pos == 4:
        out = {v % 7 for v in out}
    return out


@functools.lru_cache(256)
def times_of(ho, mi, se):
    return [(h, m, s) for h in sorted(ho) for m in sorted(mi) for s in sorted(se)]


class Cron:
    """fields: six strings in dsari order."""

    def __init__(self, fields):
        assert len(fields) == 6
        self.sets = [frozenset(field_values(f, i)) for i, f in enumerate(fields)]
        self.dom_any = fields[2] == "*"
        self.dow_any = fields[4] == "*"
        mi, ho, _, _, _, se = self.sets
        self.times = times_of(frozenset(ho), frozenset(mi), frozenset(se))

    def day_ok(self, d):
        if d.month not in self.sets[3]:
            return False
        dom = d.day in self.sets[2]
        dow = (d.isoweekday() % 7) in self.sets[4]
        if self.dom_any:
            return dow
        if self.dow_any:
            return dom
        return dom or dow

    def first(self, w0, end, strict, days):
        """The first matching wall-clock time from w0 (after it, if strict) and before end, or None."""
        d, last = w0.date(), min(end.date(), w0.date() + dt.timedelta(days=days))
        at = (w0.hour, w0.minute, w0.second)
        i = bisect.bisect_right(self.times, at) if strict else bisect.bisect_left(self.times, at)
        while d <= last:
            if i < len(self.times) and self.day_ok(d):
                w = dt.datetime(d.year, d.month, d.day, *self.times[i])
                return w if w < end else None
            d, i = d + dt.timedelta(days=1), 0
        return None

    def next(self, ref, tz, max_days=366 * 9):
        """Earliest matching whole second strictly after ref (an aware datetime), as aware UTC.
        -> (instant or None); wall-clock times which a change of the UTC offset repeats match twice, skipped ones do not."""
        t, limit, strict = ref.astimezone(UTC), ref.astimezone(UTC) + dt.timedelta(days=max_days), True
        while t < limit:
            off = t.astimezone(tz).utcoffset()
            c = next_change(getattr(tz, "key", "UTC"), t.timestamp())
            end = dt.datetime.fromtimestamp(c, UTC)
            w = self.first((t + off).replace(tzinfo=None), (end + off).replace(tzinfo=None), strict, max_days)
            if w is not None:
                return w.replace(tzinfo=UTC) - off
            t, strict = end, False
        return None

    def gaps(self, tz, a, b):
        """The changes (aware) in [a, b] which skip matching wall-clock times."""
        out, t = [], a.timestamp() - 1
        while True:
            t = next_change(getattr(tz, "key", "UTC"), t)
            if t > b.timestamp():
                return out
            u = dt.datetime.fromtimestamp(t, UTC)
            before, after = ((u - dt.timedelta(seconds=x)).astimezone(tz).utcoffset() for x in (1, 0))
            if after > before and self.first((u + before).replace(tzinfo=None), (u + after).replace(tzinfo=None), False, 2) is not None:
                out.append(u)


@functools.lru_cache(65536)
def next_change(tzname, t):
    """As change_after, of the instant t; without a change some later instant."""
    q = t // 604800 * 604800
    c = change_after(tzname, q)
    while c is not None and c <= t:
        c = change_after(tzname, c)
    return q + 150 * 86400 if c is None else c


def offset_changes(tz, a, b):
    """True if the zone's UTC offset changes anywhere in [a, b] (checked daily, aware UTC)."""
    t = a
    o = a.astimezone(tz).utcoffset()
    while t < b:
        if t.astimezone(tz).utcoffset() != o:
            return True
        t += dt.timedelta(hours=12)
    return b.astimezone(tz).utcoffset() != o


def near_change(tz, t, hours=30):
    h = dt.timedelta(hours=hours)
    return offset_changes(tz, t - h, t + h)


@functools.lru_cache(4096)
def change_after(tzname, t, days=200):
    """The first instant (epoch, whole second) within so many days of t at which the zone's UTC offset changes, or None."""
    tz = zone(tzname)

    def off(x):
        return dt.datetime.fromtimestamp(x, UTC).astimezone(tz).utcoffset()
    lo = int(t)
    for k in range(days * 4):
        hi = lo + 21600
        if off(hi) != off(lo):
            o = off(lo)
            while hi - lo > 1:
                m = (lo + hi) // 2
                if off(m) == o:
                    lo = m
                else:
                    hi = m
            return hi
        lo = hi
    return None


@functools.lru_cache(4096)
def window(tzname, t):
    """The wall-clock times skipped or repeated by the change at t: (first, first after)."""
    tz, u = zone(tzname), dt.datetime.fromtimestamp(t, UTC)
    a = (u - dt.timedelta(seconds=1)).astimezone(tz).replace(tzinfo=None, fold=0) + dt.timedelta(seconds=1)
    b = u.astimezone(tz).replace(tzinfo=None, fold=0)
    return min(a, b), max(a, b)


def open_in_change(cron, tzname, ref, want, margin=60):
    """Does the schedule have times skipped or repeated by a change between ref and want (aware), or within an hour of those?"""
    hours, minutes = (cron.sets[1], cron.sets[0]) if isinstance(cron, Cron) else (cron.h, cron.m)
    t, end = ref.timestamp() - 90000, want.timestamp() + 90000
    while True:
        # (day by day far from the ends would be slow: changes are looked up from quantised instants)
        c = change_after(tzname, t // 604800 * 604800)
        while c is not None and c <= t:
            c = change_after(tzname, c)
        if c is None:
            t += 200 * 86400
            if t > end:
                return False
            continue
        if c > end:
            return False
        lo, hi = window(tzname, c)
        x, hi = lo - dt.timedelta(minutes=margin), hi + dt.timedelta(minutes=margin)
        while x <= hi:
            if cron.day_ok(x.date()) and x.hour in hours and x.minute in minutes:
                return True
            x += dt.timedelta(minutes=1)
        t = c
