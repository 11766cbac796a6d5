"""C24: HTML reports are complete and rendering is incremental."""
import gzip
import html.parser
import json
import os
import re
import shutil
from urllib.parse import unquote, urljoin, urlsplit

from hypothesis import strategies as st

import core
import gens
import history
from core import check

QUICK, THOROUGH = 100, 700
TECHNIQUE = "stateful property-based testing: the dsari-render main between generated additions to the history, the tree of pages parsed and compared with the history, and metamorphically with one --regenerate at the end"
LEVEL_NOTE = ("Randomised search with shrinking over histories, job options and times of rendering. Pages are parsed with Python's HTML parser. Renderings which are interrupted are those of C29.")
RULE = "case = up to 6 jobs x up to 60 runs x up to 6 renderings at points of the history x options; non-trivial = at least 2 renderings wrote run pages"
ASSUMPTIONS = ["no rendering is interrupted or runs at the same time as another", "no job has the name of a report file (index.html, index.html.gz, darkly.min.css)"]
NAMES = ["a", "b", "job 1", "x.y:z@k+_-", "A", "-", "runs", "a b c", "index", "html"]


@st.composite
def plans(draw, tier):
    now = draw(st.sampled_from(history.NOWS))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    rs = draw(history.runs(now, names * 3 + history.UNKNOWN, 12))
    if not rs or draw(st.booleans()):
        rs += draw(st.lists(history.run_(len(rs), now, names, False), min_size=1, max_size=1)) + draw(st.lists(history.run_(len(rs) + 1, now, names, False), min_size=1, max_size=1))
    for r in rs:
        r.pop("noise", None)
        if r["out"] and r["out"].get("noise", 0) > 5000:
            r["out"]["noise"] = 5000
    # many runs without much detail, for the limits of the index
    for i in range(draw(st.sampled_from([0, 0, 0, 14, 30, 48]))):
        k = draw(st.integers(0, 10 ** 6))
        rs.append({"job": names[k % len(names)], "id": "%08x-0000-4000-9000-%012x" % (k * 7919 % 2 ** 32, i), "schedule": (now - 5000 + k % 4001) * 10 ** 6, "start": (now - 5000 + k % 4001) * 10 ** 6 + k,
                   "stop": (now - 5000 + k % 4001 + k % 7) * 10 ** 6 + k, "code": [0, 1, 0, 2, 143, 255, 0][k % 7], "type": "schedule", "tdata": {}, "rdata": {}, "done": True, "out": None})
    for i in range(1, len(rs)):
        if draw(st.integers(0, 9)) == 0:
            rs[i]["stop"] = rs[i - 1]["stop"]
    order = draw(st.sampled_from(["stop", "stop", "stop", "any"]))
    if order == "stop":
        rs.sort(key=lambda r: (r["stop"], r["id"]))
    opts = {"gz": draw(st.integers(0, 2)) == 0, "start": draw(st.sampled_from([None, None, 0, 5])), "end": draw(st.sampled_from([None, None, 0, 3])), "templates": draw(st.sampled_from([None, None, "empty", "run.html", "job.html", "index.html"]))}
    steps, left = [], len(rs)
    if draw(st.integers(0, 3)):
        k = draw(st.integers(1, max(1, left - 1)))
        steps += [["record", k], ["render", draw(st.integers(0, 5)) == 0]]
        left -= k
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["record", "record", "render", "finish", "mark", "toggle"]))
        if k == "record":
            steps.append([k, draw(st.integers(0, max(1, left)))])
            left -= steps[-1][1]
            steps.append(["render", draw(st.integers(0, 5)) == 0])
        elif k == "render":
            steps.append([k, draw(st.integers(0, 3)) == 0])
        elif k == "toggle":
            if draw(st.integers(0, 2)) == 0:
                steps.append([k, draw(st.sampled_from(names)), draw(st.sampled_from(["reports", "exists"]))])
        else:
            steps.append([k])
    steps += [["record", 100], ["render", False]]
    return {"names": names, "off": draw(st.lists(st.sampled_from(names), max_size=1)), "runs": rs, "now": now, "opts": opts, "steps": steps, "local": draw(gens.local_zones)}


def strategy(tier):
    return plans(tier)


class Parser(html.parser.HTMLParser):
    """Sections by h1/h2 with the rows of their tables: [[cell texts], [hrefs]]."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.sections = {"": []}
        self.cur = self.sections[""]
        self.hrefs = []
        self.row = self.cell = self.head = None
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if "href" in a:
            self.hrefs.append(a["href"])
            if self.row is not None:
                self.row[1].append(a["href"])
        if tag == "tr":
            self.row = [[], []]
        elif tag == "td" and self.row is not None:
            self.cell = ""
        elif tag in ("h1", "h2"):
            self.head = ""

    def handle_endtag(self, tag):
        if tag == "tr" and self.row is not None:
            if self.row[0]:
                self.cur.append(self.row)
            self.row = None
        elif tag == "td" and self.cell is not None:
            self.row[0].append(self.cell)
            self.cell = None
        elif tag in ("h1", "h2"):
            self.cur = self.sections.setdefault(self.head.strip(), [])
            self.head = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data
        elif self.head is not None:
            self.head += data


def tree(d):
    """{path below html: content of the page}, the form of each, and what tells whether a file was written"""
    pages, stats = {}, {}
    for base, dirs, files in os.walk(d + "/html"):
        for f in files:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, d + "/html")
            with open(p, "rb") as fd:
                b = fd.read()
            s = os.stat(p)
            stats[rel] = (s.st_ino, s.st_mtime_ns, b)
            if rel.endswith(".gz"):
                try:
                    b = gzip.decompress(b)
                except Exception as e:
                    raise core.Violation("%s is not gzip compressed: %s" % (rel, e))
            pages[rel] = b
    return pages, stats


STAMP = re.compile(rb"<!-- Generated [^>]*-->")


def config(d, plan, off, gone):
    c = {"data_dir": d + "/var", "jobs": {}}
    for n in plan["names"]:
        if n not in gone:
            c["jobs"][n] = {"command": ["true"]}
            if n in off:
                c["jobs"][n]["render_reports"] = False
    o = plan["opts"]
    if o["gz"]:
        c["report_html_gz"] = True
    if o["start"] is not None:
        c["report_run_output_start"] = o["start"]
    if o["end"] is not None:
        c["report_run_output_end"] = o["end"]
    if o["templates"]:
        c["template_dir"] = d + "/templates"
    return c


def render(d, plan, regenerate):
    core.vt_enable(plan["now"] + 10 ** 7)
    return core.run_main("dsari.render", ["-c", d + "/etc"] + (["-r"] if regenerate else []))


def dump(path, c):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(c, f)


def run(plan):
    core.set_tz(plan["local"])
    try:
        with core.TempDir() as d:
            return judge(d, plan)
    finally:
        core.set_tz("UTC")


def judge(d, plan):
    off, gone = set(plan["off"]), set()
    if plan["opts"]["templates"]:
        os.makedirs(d + "/templates")
    custom = plan["opts"]["templates"]
    if custom and custom != "empty":
        with open("%s/templates/%s" % (d, custom), "w") as f:
            f.write("{% extends 'base.html' %}{% block x %}" + {
                "run.html": "{{ run.id }}", "job.html": "{{ job.name }}{% for r in runs %} {{ r.id }}{% endfor %}",
                "index.html": "{% for j in jobs %}{{ j.name }}|{% endfor %}{% for r in runs %} {{ r.id }}{% endfor %}/{% for r in failed_runs %} {{ r.id }}{% endfor %}"}[custom] + "{% endblock %}")
        with open(d + "/templates/base.html", "w") as f:
            f.write("MINE {% block x %}{% endblock %}")
    dump(d + "/etc/dsari.json", config(d, plan, off, gone))
    todo = list(plan["runs"])
    recorded = []
    sfx = "/index.html" + (".gz" if plan["opts"]["gz"] else "")
    seen, marked = {}, {}           # run pages written by now; those which the check has overwritten
    last_jobs = {}                  # job pages as last written
    wrote = 0
    toggled = False
    classes = set()
    writes = 0
    for n, s in enumerate(plan["steps"]):
        if s[0] == "record":
            history.record(d + "/etc", d + "/var", todo[:s[1]])
            recorded += [dict(r) for r in todo[:s[1]]]
            del todo[:s[1]]
        elif s[0] == "finish":
            for r in recorded:
                if not r["done"]:
                    r["done"] = True
                    history.record(d + "/etc", d + "/var", [r])
                    recorded.remove(r)
                    recorded.append(r)
                    break
        elif s[0] == "mark":
            for rel in list(seen)[:2]:
                with open("%s/var/html/%s" % (d, rel), "wb") as f:
                    f.write(gzip.compress(b"mark") if rel.endswith(".gz") else b"mark")
                marked[rel] = True
        elif s[0] == "toggle":
            toggled = True
            if s[2] == "reports":
                off ^= {s[1]}
            else:
                gone ^= {s[1]}
            dump(d + "/etc/dsari.json", config(d, plan, off, gone))
        if s[0] != "render":
            continue
        try:
            _, before = tree(d + "/var")
            core.ok(core.isolate(render, d, plan, s[1]), "dsari-render")
            pages, after = tree(d + "/var")
            for rel in after:
                if rel.endswith("/index.html") and rel + ".gz" in after:
                    raise core.Violation("there are two of %s" % rel)
            jobs = [x for x in plan["names"] if x not in off and x not in gone]
            done = [r for r in recorded if r["done"] and r["job"] in jobs]
            want = {"%s/%s%s" % (r["job"], r["id"], sfx): r for r in done}
            new = []
            for rel in sorted(want):
                if rel not in pages:
                    raise core.Violation("there is no %s" % rel)
                if rel not in seen or s[1]:
                    new.append(rel)
                    marked.pop(rel, None)
                    if want[rel]["id"] not in pages[rel].decode("utf-8"):
                        raise core.Violation("%s does not tell the run ID" % rel)
                    if s[1] and rel in before and before[rel][:2] == after[rel][:2]:
                        raise core.Violation("%s was not written again" % rel)
                elif before[rel] != after[rel]:
                    raise core.Violation("%s was written again" % rel)
                seen[rel] = True
            if new:
                wrote += 1
                classes.add("regenerate" if s[1] else "incremental")
            allowed = set(want) | set(seen) | {"darkly.min.css", sfx[1:]} | {j + sfx for j in plan["names"]}
            extra = set(pages) - allowed
            if extra:
                raise core.Violation("unexpected: %s" % sorted(extra))
            for rel in seen:
                if rel not in want and before[rel] != after[rel]:
                    raise core.Violation("%s of a job which is not to be rendered was written" % rel)
            # job pages
            for j in plan["names"]:
                rel = j + sfx
                mine = [r for r in done if r["job"] == j]
                if j not in jobs:
                    if before.get(rel) != after.get(rel):
                        raise core.Violation("the page of %s, which is not to be rendered, was written" % j)
                elif s[1] or any(want[x]["job"] == j for x in new):
                    if rel not in pages:
                        raise core.Violation("there is no page of the job %s" % j)
                    writes += 1
                elif rel not in last_jobs:
                    continue
                if j in jobs and rel in pages:
                    last_jobs[rel] = True
                    judge_job(pages[rel].decode("utf-8"), j, mine, custom)
            # index
            rel = sfx[1:]
            if new or s[1]:
                if rel not in pages:
                    raise core.Violation("there is no index")
                judge_index(pages[rel].decode("utf-8"), jobs, done, custom, plan, recorded)
            elif rel in before and before[rel][2] != after[rel][2] and STAMP.sub(b"", pages[rel]) == b"":
                raise core.Violation("the index is empty")
            if "darkly.min.css" not in pages or len(pages["darkly.min.css"]) < 1000:
                raise core.Violation("there is no style sheet")
            if sfx[1:] in pages:
                links(pages, sfx, plan["names"], seen, marked)
        except core.Violation as e:
            raise core.Violation("step %d %s: %s\n%s" % (n, s, e, json.dumps(plan["steps"][:n + 1])))
    # the same in one go
    if not toggled:
        with core.TempDir() as d2:
            shutil.copytree(d + "/var", d2 + "/var", ignore=lambda b, names: ["html"] if b == d + "/var" else [])
            if custom:
                shutil.copytree(d + "/templates", d2 + "/templates")
            dump(d2 + "/etc/dsari.json", config(d2, plan, off, gone))
            core.ok(core.isolate(render, d2, plan, True), "dsari-render --regenerate")
            pages, _ = tree(d + "/var")
            full, _ = tree(d2 + "/var")
            for rel in sorted(set(pages) | set(full)):
                if rel not in pages and not any(r["job"] + sfx == rel for r in recorded if r["done"]):
                    if rel != sfx[1:] or any(r["done"] and r["job"] in plan["names"] and r["job"] not in off for r in recorded):
                        check(rel.count("/") == 1, "after all renderings there is no {}", rel)
                    continue
                check(rel in pages, "--regenerate gives {}, rendering step by step does not", rel)
                check(rel in full, "rendering step by step gives {}, --regenerate does not", rel)
                if rel in marked:
                    continue
                a, b = STAMP.sub(b"", pages[rel]), STAMP.sub(b"", full[rel])
                if a != b and tied(plan, recorded):
                    a, b = sorted(a.splitlines()), sorted(b.splitlines())
                    if rel == sfx[1:]:
                        continue
                check(a == b, "{} differs from what --regenerate gives: {!r} / {!r}", rel, pages[rel][-1500:], full[rel][-1500:])
            classes.add("same-tree")
    for k, v in plan["opts"].items():
        if v:
            classes.add(k)
    if toggled:
        classes.add("toggled")
    return {"nontrivial": wrote >= 2, "checked": writes + wrote, "classes": sorted(classes)}


def tied(plan, recorded):
    stops = [r["stop"] for r in recorded if r["done"]]
    return len(set(stops)) < len(stops)


def ids(rows, where):
    out = []
    for cells, hrefs in rows:
        check(len(hrefs) == 1, "{}: row {} has {} links", where, cells, len(hrefs))
        out.append(unquote(hrefs[0]).rstrip("/").split("/")[-1])
    return out


def ordered(got, allowed, count, where):
    """got are the IDs of the count latest stopped of allowed, latest first."""
    by = {r["id"]: r for r in allowed}
    check(len(set(got)) == len(got), "{} lists a run twice: {}", where, got)
    for i in got:
        check(i in by, "{} lists {}, which it should not", where, i)
    want = sorted([r["stop"] for r in allowed], reverse=True)[:count]
    check([by[i]["stop"] for i in got] == want, "{} lists the runs stopped at {} instead of {}", where, [by[i]["stop"] for i in got], want)


def details(cells, r, where):
    check(str(r["code"]) in [c.strip() for c in cells], "{}: the row of {} {} does not tell exit code {}", where, r["id"], cells, r["code"])


def judge_job(text, j, mine, custom):
    where = "the page of %s" % j
    if custom == "job.html":
        check(text.startswith("MINE " + j), "{} does not use the template: {!r}", where, text[:300])
        ordered(text[len("MINE " + j):].split(), mine, None, where)
        return
    p = Parser(text)
    rows = [r for rs in p.sections.values() for r in rs]
    got = ids(rows, where)
    ordered(got, mine, None, where)
    by = {r["id"]: r for r in mine}
    for (cells, _), i in zip(rows, got):
        details(cells, by[i], where)
    check(j in [h for h in p.sections], "{} has no heading with its name", where)


def judge_index(text, jobs, done, custom, plan, recorded):
    failed = [r for r in done if r["code"] > 0]
    if custom == "index.html":
        check(text.startswith("MINE "), "the index does not use the template: {!r}", text[:300])
        body, _, fails = text[5:].rpartition("/")
        names, _, rest = body.rpartition("|")
        check(sorted(names.split("|")) == sorted(jobs) or not jobs, "the index lists the jobs {} instead of {}", names.split("|"), sorted(jobs))
        ordered(rest.split(), done, 25, "latest runs")
        ordered(fails.split(), failed, 10, "failed runs")
        return
    p = Parser(text)
    by = {r["id"]: r for r in done}
    for title, rs, count in (("Latest Runs", done, 25), ("Failed Runs", failed, 10)):
        check(title in p.sections, "the index has no section {}", title)
        got = ids(p.sections[title], title)
        ordered(got, rs, count, title)
        for (cells, _), i in zip(p.sections[title], got):
            details(cells, by[i], title)
            check(by[i]["job"] in cells, "{}: the row of {} {} does not name the job {}", title, i, cells, by[i]["job"])
    rows = p.sections.get("Jobs", [])
    check(sorted(c[0] for c, _ in rows) == sorted(jobs), "the index lists the jobs {} instead of {}", sorted(c[0] for c, _ in rows), sorted(jobs))
    for cells, hrefs in rows:
        check(len(hrefs) == 1 and unquote(hrefs[0]).rstrip("/").split("/")[-1] == cells[0], "the index links {} to {}", cells[0], hrefs)
    # last runs, where recorded in the order they ended
    stops = [r["stop"] for r in recorded if r["done"]]
    if all(a < b for a, b in zip(stops, stops[1:])):
        for cells, _ in rows:
            mine = [r for r in done if r["job"] == cells[0]]
            good = [r for r in mine if r["code"] == 0]
            for k, rs, col in (("last run", mine, 1), ("last successful run", good, 3)):
                if rs:
                    t = history.when(rs[-1]["start"], "UTC").astimezone()
                    check(cells[col].strip() == str(t.replace(tzinfo=None)).split(".")[0] + ("" if t.microsecond else str(t)[19:]), "the {} of {} is {!r} instead of {}", k, cells[0], cells[col], t)
                else:
                    check(not cells[col].strip().startswith(("1", "2")), "the {} of {} is {!r}, there is none", k, cells[0], cells[col])


def links(pages, sfx, names, seen, marked):
    """What is linked exists (pages of jobs without runs excepted)."""
    empty = {j + sfx for j in names} - {rel.split("/")[0] + sfx for rel in seen}
    for rel, b in pages.items():
        if rel.endswith(".css") or rel in marked or b.startswith(b"MINE"):
            continue
        base = "http://h/" + rel[:len(rel) - len(sfx) + 1]
        for href in Parser(b.decode("utf-8")).hrefs:
            u = urlsplit(urljoin(base, href))
            check(u.scheme == "http" and u.netloc == "h", "{} links to {}", rel, href)
            p = unquote(u.path).lstrip("/")
            if p in pages:
                continue
            p = (p.rstrip("/") + sfx).lstrip("/")
            check(p in pages or p in empty, "{} links to {}, which does not exist", rel, href)
