"""C29: a rendering which does not come to its end does no lasting damage."""
import os
import shutil

from hypothesis import strategies as st

import c24
import core
import gens
import history
from core import check

QUICK, THOROUGH = 80, 600
TECHNIQUE = "fault-injecting property testing: dsari-render is killed, interrupted or denied disk space at a chosen file operation, or fails in a template, several times in a row; pages compared with those of an undisturbed rendering at each point and in the end"
LEVEL_NOTE = ("Randomised search with shrinking over histories, options and faults. Operations are those of the C library on files below html (lib/fault.c, preloaded). "
              "What a power failure does to files not synchronised, and renderings at the same time, are not part of the check.")
RULE = "case = up to 3 jobs x up to 12 runs x up to 4 renderings with a fault each, with runs recorded between them, and one without; non-trivial = at least one fault happened"
ASSUMPTIONS = ["no two renderings at the same time", "the configuration stays the same", "no job has the name of a report file"]
WHAT = ["kill-before", "kill-half", "kill-after", "full", "SIGINT", "error"]
BROKEN = {"run.html": "{{ run.id.x.y }}", "job.html": "{{ job.x.y }}", "index.html": "{{ jobs.x.y }}", "syntax": "{% if %}"}


@st.composite
def plans(draw, tier):
    now = draw(st.sampled_from(history.NOWS))
    names = draw(st.lists(st.sampled_from(c24.NAMES), min_size=1, max_size=3, unique=True))
    n = draw(st.integers(1, 12))
    rs = [draw(history.run_(i, now, names, True)) for i in range(n)]
    for r in rs:
        r["done"] = draw(st.integers(0, 9)) > 0
        if r["out"] and r["out"].get("noise", 0) > 5000:
            r["out"]["noise"] = 20000
    steps, left = [], n
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0 if steps else 1, max(1, left)))
        left -= k
        s = {"new": k, "regenerate": draw(st.integers(0, 4)) == 0}
        kind = draw(st.sampled_from(["op", "op", "op", "op", "template", "none"]))
        if kind == "op":
            s["what"] = draw(st.sampled_from(WHAT))
            # towards the end, where little is left to be done, as often as anywhere
            s["at"] = draw(st.one_of(gens.uniform(0, 999), gens.uniform(0, 999), st.sampled_from([0, 999, 998, 995, 990])))
        elif kind == "template":
            s["what"] = "template"
            s["which"] = draw(st.sampled_from(sorted(set(BROKEN) - {"syntax"})))
            s["how"] = draw(st.sampled_from([s["which"], s["which"], "syntax"]))
        else:
            s["what"] = None
        steps.append(s)
    if draw(st.integers(0, 3)):
        steps[-1]["last"] = True
    return {"names": names, "runs": rs, "now": now, "steps": steps, "local": draw(gens.local_zones),
            "opts": {"gz": draw(st.integers(0, 2)) == 0, "start": None, "end": draw(st.sampled_from([None, 3])), "templates": "empty"}}


def strategy(tier):
    return plans(tier)


def run(plan):
    core.set_tz(plan["local"])
    try:
        with core.TempDir() as d:
            return judge(d, plan)
    finally:
        core.set_tz("UTC")


def render(d, plan, regenerate, counter, what, k):
    counter.value.value = 0
    os.makedirs(d + "/var/html", exist_ok=True)
    counter.arm(os.path.realpath(d) + "/var/html", what, k)
    return c24.render(d, plan, regenerate)


def reference(d, plan, regenerate, counter):
    """(pages after an undisturbed rendering, number of its operations), in a copy."""
    with core.TempDir() as d2:
        shutil.copytree(d + "/var", d2 + "/var")
        os.makedirs(d2 + "/templates")
        c24.dump(d2 + "/etc/dsari.json", c24.config(d2, plan, set(), set()))
        core.ok(core.isolate(render, d2, plan, regenerate, counter, "count", 0), "dsari-render")
        return pages_of(d2), counter.value.value


def pages_of(d):
    """What a visitor sees: without files which are not pages by their name."""
    pages, _ = c24.tree(d + "/var")
    return {rel: c24.STAMP.sub(b"", b) for rel, b in pages.items() if os.path.basename(rel) in ("index.html", "index.html.gz", "darkly.min.css")}


def judge(d, plan):
    counter = core.Counter()
    os.makedirs(d + "/templates")
    c24.dump(d + "/etc/dsari.json", c24.config(d, plan, set(), set()))
    history.open_db(d + "/etc")[1].db_conn.close()
    os.makedirs(d + "/var/html")
    todo = list(plan["runs"])
    fired = checked = 0
    classes = set()
    before = {}
    story = []
    try:
        for s in plan["steps"]:
            history.record(d + "/etc", d + "/var", todo[:s["new"]])
            del todo[:s["new"]]
            want, ops = reference(d, plan, s["regenerate"], counter)
            what = s["what"]
            story.append((what, s["new"]))
            happened = False
            if what == "template":
                with open("%s/templates/%s" % (d, s["which"]), "w") as f:
                    f.write(BROKEN[s["how"]])
                res = core.isolate(c24.render, d, plan, s["regenerate"])
                os.unlink("%s/templates/%s" % (d, s["which"]))
                happened = res.kind != "ok"
                if res.kind == "exc" and "jinja2" not in res.value:
                    raise core.Violation("with an error in %s: %s" % (s["which"], res.value))
            elif what:
                k = min(ops, 1 + s["at"] * ops // 999) if ops else 1
                story[-1] += (k, ops)
                res = core.isolate(render, d, plan, s["regenerate"], counter, what, k)
                happened = counter.value.value >= k
                if res.kind == "exc" and not happened:
                    core.ok(res, "dsari-render")
            else:
                res = core.isolate(c24.render, d, plan, s["regenerate"])
                core.ok(res, "dsari-render")
            pages = pages_of(d)
            for rel in sorted(pages):
                checked += 1
                check(pages[rel] in (before.get(rel), want.get(rel)), "after {}, {} is neither as before nor as it should be: {!r}", what, rel, pages[rel][-500:])
            for rel in before:
                check(rel in pages, "after {}, {} is gone", what, rel)
            if (res.kind == "ok" or (res.kind == "exit" and not res.value)) and what != "template":
                whole(pages, want, "dsari-render succeeds (%s)" % what)
            if happened:
                fired += 1
                classes.add(what + ("-" + res.kind if what in WHAT[3:] else ""))
                if len(want) > 1 and len(pages) == 0:
                    classes.add("nothing")
                if pages != want:
                    classes.add("incomplete")
            before = pages
        # and one which is left alone
        if todo and not plan["steps"][-1].get("last"):
            history.record(d + "/etc", d + "/var", todo)
            classes.add("more")
        res = core.isolate(c24.render, d, plan, False)
        core.ok(res, "dsari-render")
        pages = pages_of(d)
        with core.TempDir() as d2:
            shutil.copytree(d + "/var", d2 + "/var", ignore=lambda b, names: ["html"] if b == d + "/var" else [])
            os.makedirs(d2 + "/templates")
            c24.dump(d2 + "/etc/dsari.json", c24.config(d2, plan, set(), set()))
            core.ok(core.isolate(c24.render, d2, plan, False), "dsari-render")
            whole(pages, pages_of(d2), "the last rendering", True)
            checked += len(pages)
    except core.Violation as e:
        raise core.Violation("%s\nrenderings: %s" % (e, story))
    return {"nontrivial": fired > 0, "checked": checked, "classes": sorted(classes)}


def whole(pages, want, when, empty=False):
    for rel in sorted(want):
        check(rel in pages, "{}, yet there is no {}", when, rel)
        check(pages[rel] == want[rel], "{}, yet {} is {!r} instead of {!r}", when, rel, pages[rel][-700:], want[rel][-700:])
    if empty:
        extra = sorted(set(pages) - set(want))
        # an interrupted --regenerate may have got to the pages of jobs without runs, or to the index
        check(not [x for x in extra if x.count("/") == 2], "{}: unexpected {}", when, extra)
