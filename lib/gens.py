"""Generators shared by the checks."""
from hypothesis import strategies as st

def text(chars, min_size=0, max_size=8):
    if isinstance(chars, str):
        chars = st.sampled_from(chars)
    return st.lists(chars, min_size=min_size, max_size=max_size).map("".join)


ZONES = ["UTC", "America/Los_Angeles", "America/New_York", "Europe/Berlin", "Europe/London", "Australia/Lord_Howe",
         "Australia/Sydney", "Asia/Kolkata", "Asia/Kathmandu", "America/Sao_Paulo", "America/St_Johns", "Pacific/Auckland",
         "Pacific/Kiritimati", "Pacific/Pago_Pago", "Africa/Johannesburg", "Asia/Tokyo", "Pacific/Chatham"]
LOCAL_ZONES = ["UTC", "America/Los_Angeles", "America/New_York", "Europe/Berlin", "Europe/London", "Australia/Sydney", "Asia/Kolkata",
               "America/St_Johns", "Pacific/Auckland", "Asia/Tokyo", "Pacific/Chatham"]   # no change of rules in the years used
FIXED_ZONES = ["UTC", "Asia/Kolkata", "Asia/Tokyo", "Africa/Johannesburg", "Pacific/Pago_Pago", "Pacific/Kiritimati", "Asia/Kathmandu"]
zones = st.sampled_from(ZONES)
local_zones = st.sampled_from(LOCAL_ZONES)
fixed_zones = st.sampled_from(FIXED_ZONES)

# (st.characters() spends seconds on building its tables)
UNI = ([chr(i) for i in range(1, 0x180)] + list("\u0300\u0416\u05d0\u0660\u0e01\u1e9e\u2028\u2029\u200d\u202e\u20ac\u2500\u3042\u4e2d\uac00\ufeff\ufffd\uffff")
       + ["\U0001f600", "\U0001d49c", "\U0010ffff"])
uni = st.one_of(st.sampled_from("ab01 \t\n<>&'\"{}[]:#-%\\/"), st.sampled_from(UNI), st.sampled_from("aAzZ09 ._"))
NAME_CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_+.:@ "
names = st.one_of(
    text(st.sampled_from("abcxyz019-_"), min_size=1, max_size=8),
    text(st.sampled_from(NAME_CHARS), min_size=1, max_size=64).filter(lambda s: s not in (".", "..")),
)
# names which are safe to use as directory names and never collide with report files
job_names = st.one_of(
    st.sampled_from(["a", "b", "job1", "sample-job", "x.y", "A b", "j@h:1+2", "_"]),
    text(st.sampled_from(NAME_CHARS), min_size=1, max_size=64).filter(
        lambda s: s not in (".", "..", "index.html", "index.html.gz", "darkly.min.css") and s.strip() == s),
)
@st.composite
def uniform(draw, lo, hi):
    """Evenly distributed, while st.integers() prefers small numbers when the range is wide."""
    n, span, v = hi - lo + 1, 1, 0
    while span < n:
        v = v * 100 + draw(st.integers(0, 99))
        span *= 100
    return lo + v * n // span


def wide(lo, hi):
    return st.one_of(uniform(lo, hi), uniform(lo, hi), st.integers(lo, hi))


epochs = st.one_of(
    wide(1325376000, 2019686400).map(float),                       # 2012 .. 2034
    wide(1325376000 * 10 ** 6, 2019686400 * 10 ** 6).map(lambda x: x / 1e6),
)

json_scalars = st.one_of(
    st.none(), st.booleans(), st.integers(-2 ** 40, 2 ** 40), st.floats(allow_nan=False, allow_infinity=False, width=32),
    text(uni, max_size=8))
json_values = st.recursive(
    json_scalars,
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(text(uni, max_size=6), c, max_size=3)),
    max_leaves=6)

ENV_NAMES = st.one_of(
    st.sampled_from(["FOO", "BAR", "X_1", "PATH", "RUN_ID", "JOB_NAME", "CI", "HOME", "BUILD_ID", "lower", "CONCURRENCY_GROUP", "PREVIOUS_EXIT_CODE"]),
    text(st.sampled_from("ABCDEF_12"), min_size=1, max_size=6))
env_text = text(uni, max_size=12)
env_values = st.one_of(env_text, st.integers(-10 ** 12, 10 ** 12), st.floats(allow_nan=False, allow_infinity=False))
envs = st.dictionaries(ENV_NAMES, env_values, max_size=4)


def weighted(*pairs):
    """weighted((3, strategy), ...)"""
    pool = []
    for w, s in pairs:
        pool += [s] * w
    return st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])


# ---- cron fields ----
RANGES = [(0, 59), (0, 23), (1, 31), (1, 12), (0, 6), (0, 59)]
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DAYS = ["sun", "mon", "tue", "wed", "thu", "fri", "sat"]


@st.composite
def cron_field(draw, pos, star=4):
    lo, hi = RANGES[pos]

    def name(v):
        if pos == 3 and draw(st.integers(0, 4)) == 0:
            n = MONTHS[v - 1]
            return n.upper() if draw(st.booleans()) else n
        if pos == 4 and draw(st.integers(0, 4)) == 0:
            n = DAYS[v % 7]
            return n.upper() if draw(st.booleans()) else n
        return str(v)

    def item(in_list):
        k = draw(st.integers(0, 9))
        if k < (7 if in_list else 4):
            v = draw(st.integers(lo, hi))
            if pos == 4 and v == 0 and draw(st.booleans()):
                return "7"
            return name(v)
        if k < 6 or in_list:
            a = draw(st.integers(lo, hi - 1))
            b = draw(st.integers(a + 1, hi))
            if pos == 4 and a > 0 and draw(st.integers(0, 3)) == 0:
                b = 7
                return "%d-%d" % (a, b)
            if pos in (3, 4):
                return "%s-%s" % (name(a), name(b))
            return "%d-%d" % (a, b)
        if k < 8:
            return "*/%d" % draw(st.integers(2, max(2, (hi - lo) // 2 + 1)))
        a = draw(st.integers(lo, hi - 1))
        b = draw(st.integers(a + 1, hi))
        return "%d-%d/%d" % (a, b, draw(st.integers(1, b - a)))
    if draw(st.integers(0, 9)) < star:
        return "*"
    if draw(st.integers(0, 3)) == 0:
        return ",".join(item(True) for _ in range(draw(st.integers(2, 4))))
    return item(False)
