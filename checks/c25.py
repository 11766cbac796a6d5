"""C25: run pages show the recorded run faithfully and safely."""
import datetime as dt
import gzip
import html
import html.parser
import json
import re

from hypothesis import strategies as st

import core
import gens
import history
from core import check

QUICK, THOROUGH = 300, 1800
TECHNIQUE = "property-based testing: the dsari-render main on generated runs, trigger data and output bytes, the pages parsed, compared with what was recorded, and their markup with that of a page without special characters"
LEVEL_NOTE = ("Randomised search with shrinking over recorded values, limits and ways of storing the output. Pages are judged by their source text and by Python's HTML parser, not by a browser.")
RULE = "case = up to 6 runs with trigger data and output x limits x compression; non-trivial = a run with recorded text which needs escaping, undecodable bytes, or output to be shortened"
ASSUMPTIONS = ["output files are complete (not truncated gzip or xz files)"]
NASTY = st.one_of(history.TEXT, st.sampled_from([
    "</td></tr></table><script>x</script>", "<img src=x onerror=alert(1)>", "\" onmouseover=\"x", "' x='", "{{ run.id }}", "{% raw %}", "{# x #}", "&amp;", "&lt;script&gt;", "-->", "<!--", "<!-- Generated -->",
    "</pre>", "</textarea>", "\u2028", "\ud800", "a\udfffb", "javascript:alert(1)", "</html>", "\u202e", "<b", "&#x3c;b&#x3e;", "&", "[...]"]))
LIMITS = st.sampled_from([None, None, 0, 1, 2, 5, 20, 100, 3000, -1])


@st.composite
def plans(draw, tier):
    now = draw(st.sampled_from(history.NOWS))
    names = ["a", "x.y:z@k+_-", "job 1"]
    rs = draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=5))
    rs = [draw(history.run_(i, now, names, False)) for i in range(len(rs))]
    for r in rs:
        r["done"] = True
        if r["type"] == "file" and draw(st.booleans()):
            r["tdata"] = draw(st.fixed_dictionaries({}, optional={"type": NASTY, "description": NASTY}))
        if r["out"] and draw(st.integers(0, 2)) == 0:
            r["out"]["data"] = draw(st.lists(NASTY, max_size=3).map(lambda x: "".join(x).encode("utf-8", "replace").decode("latin-1")))
    limits = [draw(LIMITS), draw(LIMITS)]
    if draw(st.integers(0, 3)) == 0:
        # outputs just about as long as the limits
        n = max(0, limits[0] or 0) + max(0, limits[1] or 0)
        for r in rs:
            if n and n < 200 and r["out"]:
                t = draw(st.sampled_from(["\u00e9", "x", "<", "\U0001f600", "\u4e2d&"]))
                r["out"] = {"form": r["out"]["form"], "data": (t * n)[:max(0, n + draw(st.sampled_from([-1, 0, 0, 1, 1, 2])))].encode().decode("latin-1")}
    return {"runs": rs, "now": now, "limits": limits, "gz": draw(st.integers(0, 3)) == 0, "local": draw(gens.local_zones)}


def strategy(tier):
    return plans(tier)


class Parser(html.parser.HTMLParser):
    """Tags (without the values of href and class), rows of tables, and texts."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.tags, self.rows, self.pre, self.head, self.title = [], [], [], "", ""
        self.stack = []
        self.comments = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, tuple(sorted((k, "" if k in ("href", "class") else v) for k, v in attrs))))
        if tag not in ("meta", "link"):
            self.stack.append(tag)
        if tag == "tr":
            self.rows.append({})
        elif tag in ("th", "td"):
            self.rows[-1][tag] = ""
        elif tag == "pre":
            self.pre.append("")

    def handle_startendtag(self, tag, attrs):
        self.tags.append(("self", tag))

    def handle_endtag(self, tag):
        self.tags.append("/" + tag)
        if self.stack and self.stack[-1] == tag:
            self.stack.pop()

    def handle_comment(self, data):
        self.comments.append(data.split()[:1])

    def handle_decl(self, decl):
        self.tags.append(("decl", decl))

    def handle_pi(self, data):
        self.tags.append(("pi", data))

    def unknown_decl(self, data):
        self.tags.append(("unknown", data))

    def handle_data(self, data):
        top = self.stack[-1] if self.stack else None
        if top in ("th", "td"):
            self.rows[-1][top] += data
        elif top == "pre":
            self.pre[-1] += data
        elif "h1" in self.stack:
            self.head += data
        elif top == "title":
            self.title += data


def skeleton(p):
    """The tags, without the rows of the table."""
    out, depth = [], 0
    for t in p.tags:
        if t == "/table":
            depth -= 1
        if depth <= 0:
            out.append(t)
        elif t[0] not in ("tr", "th", "td") and t not in ("/tr", "/th", "/td"):
            out.append(t)
        elif isinstance(t, tuple) and any(k != "class" for k, _ in t[1]):
            out.append(t)
        if t[0] == "table":
            depth += 1
    return out, p.comments


def render(d, plan):
    core.vt_enable(plan["now"] + 10 ** 7)
    return core.run_main("dsari.render", ["-c", d + "/etc"])


def seen(s):
    """Text as it can be shown: lone surrogates cannot."""
    return re.sub("[\ud800-\udfff]", "?", s)


def loose(a, b):
    """Equal up to lone surrogates, however these are shown."""
    if not re.search("[\ud800-\udfff]", b):
        return a == b
    return re.fullmatch(".{0,6}".join(re.escape(x) for x in re.split("[\ud800-\udfff]", b)), a, re.S) is not None


def run(plan):
    core.set_tz(plan["local"])
    try:
        with core.TempDir() as d:
            return judge(d, plan)
    finally:
        core.set_tz("UTC")


def instant(s):
    try:
        t = dt.datetime.fromisoformat(s.strip())
    except ValueError:
        return None
    return history.us(t) if t.tzinfo else None


def judge(d, plan):
    names = sorted({r["job"] for r in plan["runs"]})
    c = {"data_dir": d + "/var", "jobs": {n: {"command": ["true"]} for n in names}}
    for k, v in zip(("report_run_output_start", "report_run_output_end"), plan["limits"]):
        if v is not None:
            c[k] = v
    if plan["gz"]:
        c["report_html_gz"] = True
    import os
    os.makedirs(d + "/etc")
    with open(d + "/etc/dsari.json", "w") as f:
        json.dump(c, f)
    plain = dict(plan["runs"][0], id="plain", type="file", tdata={"type": "t", "description": "d"}, out={"form": "plain", "data": "x"})
    history.record(d + "/etc", d + "/var", plan["runs"] + [plain])
    core.ok(core.isolate(render, d, plan), "dsari-render")

    def page(r):
        fn = "%s/var/html/%s/%s/index.html" % (d, r["job"], r["id"])
        try:
            if plan["gz"]:
                with gzip.open(fn + ".gz", "rb") as f:
                    b = f.read()
            else:
                with open(fn, "rb") as f:
                    b = f.read()
            return b.decode("utf-8")
        except (OSError, UnicodeDecodeError) as e:
            raise core.Violation("the page of %s: %s" % (r["id"], e))
    want = skeleton(Parser(page(plain)))
    classes = set()
    odd = 0
    for r in plan["runs"]:
        text = page(r)

        def bad(msg, *a):
            raise core.Violation(msg.format(*a) + "\nrun: " + json.dumps(r)[:3000] + "\npage:\n" + text[-3000:])
        p = Parser(text)
        if skeleton(p) != want:
            bad("recorded text became markup: {}", [x for x in skeleton(p)[0] if x not in want[0]] or skeleton(p))
        rows = [(x.get("th", "").strip(), x.get("td", "")) for x in p.rows]
        if len(dict(rows)) != len(rows) or any(not k for k, _ in rows):
            bad("the rows are {}", rows)
        rows = dict(rows)
        if rows.get("Run ID", "").strip() != r["id"] or p.head.strip() != r["job"] or r["id"] not in p.title or r["job"] not in p.title:
            bad("run ID {!r}, job {!r}, title {!r}", rows.get("Run ID"), p.head, p.title)
        # trigger
        m = re.fullmatch(r"(.*) \(([^()]*)\)\s*", rows.get("Trigger", ""), re.S)
        if not m:
            bad("trigger {!r}", rows.get("Trigger"))
        kind = "Schedule" if r["type"] == "schedule" else str(r["tdata"]["type"]) if r["tdata"].get("type") else "File"
        if not loose(m.group(1), kind):
            bad("trigger kind {!r} instead of {!r}", m.group(1), kind)
        desc = r["tdata"].get("description") if r["type"] != "schedule" else None
        if desc:
            if "Description" not in rows or not loose(rows["Description"], str(desc)):
                bad("description {!r} instead of {!r}", rows.get("Description"), desc)
        elif rows.get("Description", "").strip():
            bad("description {!r}, there is none", rows["Description"])
        for k, v, w in (("schedule time", m.group(2), r["schedule"]), ("start time", rows.get("Start time", ""), r["start"]), ("stop time", rows.get("Stop time", ""), r["stop"])):
            got = instant(v)
            if got is None or abs(got - w) > 1:
                bad("{} {!r} instead of {}", k, v, history.when(w, "UTC"))
        dur = re.fullmatch(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)", rows.get("Duration", "").strip())
        if not dur or abs(int(dur[1] or 0) * 86400 + int(dur[2]) * 3600 + int(dur[3]) * 60 + float(dur[4]) - (r["stop"] - r["start"]) / 1e6) > 3e-6:
            bad("duration {!r} instead of {} s", rows.get("Duration"), (r["stop"] - r["start"]) / 1e6)
        if rows.get("Exit code", "").strip() != str(r["code"]):
            bad("exit code {!r}", rows.get("Exit code"))
        extra = set(rows) - {"Run ID", "Trigger", "Description", "Start time", "Stop time", "Duration", "Exit code"}
        if extra:
            bad("also {}", sorted(extra))
        # output
        if len(p.pre) != 1:
            bad("there are {} outputs", len(p.pre))
        source = text[text.index("<pre>") + 5:text.rindex("</pre>")] if "<pre>" in text else None
        shown = p.pre[0] if source is None else html.unescape(source)
        if source is not None and "<" in source:
            bad("the output is not escaped")
        if r["out"] is None:
            if shown.strip() not in ("", "None"):
                bad("output {!r}, there is none", shown[:300])
            continue
        out = history.text(r)
        a, b = [max(x or 0, 0) for x in plan["limits"]]
        if (a or b) and len(out) > a + b:
            classes.add("shortened")
            odd += 1
            tail = out[len(out) - b:]
            mid = shown[a:len(shown) - b]
            if not shown.startswith(out[:a]) or not shown.endswith(tail) or len(shown) < a + b + 5 or mid.strip("\n ") != "[...]":
                bad("shortened to {!r}; the first {} and last {} characters of {!r} were to be shown", shown[:3000], a, b, out[:3000])
        elif shown != out:
            bad("output {!r} instead of {!r}", shown[:3000], out[:3000])
        classes.add(r["out"]["form"])
        if re.search("[<>&\"'\ufffd]", out + str(desc) + kind):
            odd += 1
    return {"nontrivial": odd > 0, "checked": len(plan["runs"]), "classes": sorted(classes)}
