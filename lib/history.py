"""A data directory with a recorded history: generated, and put on disk."""
import base64
import copy
import datetime as dt
import gzip
import json
import lzma
import os
import random

from hypothesis import strategies as st

import core
import gens
from dbops import CODES, EPOCH, us, when  # noqa: F401

NOWS = [1612915200, 1686787200, 1733356800, 1709164800, 1699160400]
UNKNOWN = ["gone", "gone 2"]
TEXT = st.one_of(
    st.sampled_from(["", "\n", "hello\n", "a\r\nb\rc\n", "<b>x</b> & \"q\" 'p'\n", "</pre><script>alert(1)</script>", "{{ 7*7 }} {% raw %}", "\x1b[31mred\x1b[0m", "\t\t", "\u00e9\u4e2d\U0001f600\n",
                     "&lt;&amp;amp; &#39;", "x" * 70, "%s %d {}", "\x00\x01\x7f", "None", "\ufeff", "]]>--><!--"]),
    gens.text(gens.uni, max_size=30))
BYTES = st.one_of(TEXT.map(lambda s: s.encode("utf-8", "replace")), TEXT.map(lambda s: s.encode("utf-8", "replace")),
                  st.sampled_from([b"\xff\xfe", b"caf\xe9\n", b"\xc3", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\x80<b>", b"ok\n\xc3\x28 ok\n"]))


@st.composite
def output(draw):
    """{"form", "data" (latin-1)} or None"""
    if draw(st.integers(0, 11)) == 0:
        return None
    b = b"".join(draw(st.lists(BYTES, max_size=3)))
    if draw(st.integers(0, 14)) == 0:
        b = b * draw(st.sampled_from([50, 3000]))
    o = {"form": draw(st.sampled_from(["plain", "plain", "gz", "xz"])), "data": b.decode("latin-1")}
    if draw(st.integers(0, 7)) == 0:
        o["noise"] = draw(st.sampled_from([5000, 150000, 150000]))
    return o


def content(o):
    """The bytes of an output; noise is text which compresses badly."""
    b = o["data"].encode("latin-1")
    if o.get("noise"):
        b += base64.b64encode(random.Random(1).randbytes(o["noise"])) + b"\n"
    return b


TDATA = st.one_of(st.just({}), st.fixed_dictionaries({}, optional={
    "type": st.one_of(st.sampled_from(["git", "<i>", "", "schedule", "a & b"]), gens.json_values), "description": st.one_of(TEXT, gens.json_values),
    "environment": st.sampled_from([{"A": "b"}, {}]), "extra": gens.json_values, "schedule_time": st.sampled_from([5, "2024-01-01T00:00:00"])}))


@st.composite
def run_(draw, i, now, names, plausible):
    """plausible: as the daemon writes them, at most a few days old."""
    r = {"job": draw(st.sampled_from(names)), "id": "%08x-0000-4000-8000-%012x" % (draw(gens.wide(0, 2 ** 32 - 1)), i)}
    age = draw(st.one_of(gens.uniform(0, 200), gens.uniform(0, 300000))) * 10 ** 6 + draw(st.one_of(st.just(0), gens.uniform(0, 999999)))
    r["schedule"] = now * 10 ** 6 - age
    r["start"] = r["schedule"] + draw(st.one_of(st.sampled_from([0, 1, 3600 * 10 ** 6]), gens.wide(0, 10 ** 7)))
    r["stop"] = r["start"] + draw(st.one_of(st.sampled_from([0, 1, 10 ** 6, 90000 * 10 ** 6]), gens.wide(0, 10 ** 8)))
    if not plausible and draw(st.integers(0, 3)) == 0:
        # clocks were changed
        for k in ("schedule", "start", "stop"):
            r[k] += draw(st.sampled_from([0, 0, -86400, 3600, -3601, 10 ** 7])) * 10 ** 6
    r["code"] = draw(CODES)
    r["type"] = draw(st.sampled_from(["schedule", "schedule", "file", "file"]))
    r["tdata"] = {} if r["type"] == "schedule" else draw(TDATA)
    r["rdata"] = draw(st.sampled_from([{}, {}, {"return_data": None}, {"return_data": {"a": [1, "\u4e2d"]}}, {"return_data": "x"}]))
    r["done"] = draw(st.integers(0, 4)) > 0
    r["out"] = draw(output())
    return r


@st.composite
def runs(draw, now, names, most=12, plausible=False):
    return [draw(run_(i, now, names, plausible)) for i in range(draw(st.integers(0, most)))]


def out_path(d, r):
    return "%s/runs/%s/%s/output.txt" % (d, r["job"], r["id"])


def write_output(data_dir, r):
    fn = out_path(data_dir, r)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    o = r["out"]
    if o is None:
        return
    b = content(o)
    if o["form"] == "plain":
        with open(fn, "wb") as f:
            f.write(b)
    elif o["form"] == "gz":
        with gzip.open(fn + ".gz", "wb", 1) as f:
            f.write(b)
    else:
        with lzma.open(fn + ".xz", "wb", preset=0) as f:
            f.write(b)


def text(r):
    return None if r["out"] is None else content(r["out"]).decode("utf-8", "replace")


def open_db(etc):
    import dsari.config
    import dsari.database
    c = dsari.config.get_config(etc)
    return c, dsari.database.get_database(c)


def run_object(c, r, completed):
    import dsari
    run = dsari.Run(c.jobs.get(r["job"]) or dsari.Job(r["job"]), id=r["id"])
    run.schedule_time, run.start_time = when(r["schedule"], "UTC"), when(r["start"], "UTC")
    run.trigger_type, run.trigger_data = r["type"], copy.deepcopy(r["tdata"])
    if completed:
        run.stop_time, run.exit_code, run.run_data = when(r["stop"], "UTC"), r["code"], copy.deepcopy(r["rdata"])
    return run


def record(etc, data_dir, rs, outputs=True):
    """Record runs as the daemon does, in this order."""
    c, db = open_db(etc)
    for r in rs:
        if not r["done"]:
            db.insert_running_run(run_object(c, r, False))
        else:
            db.insert_run(run_object(c, r, True))
        if outputs:
            write_output(data_dir, r)
    db.db_conn.close()


def instant(s):
    """Microseconds of an ISO 8601 time which must carry an offset."""
    return us(dt.datetime.fromisoformat(s))
