SEEDS = {}
SEEDS["c17-journal-in-memory"] = dict(
    property="C17",
    edits=[("dsari/database.py", """        self.db_conn = sqlite3.connect(config.database["file"])
        self.db_conn.row_factory = sqlite3.Row
""", """        self.db_conn = sqlite3.connect(config.database["file"], timeout=30)
        self.db_conn.row_factory = sqlite3.Row
        # No need to create and remove a journal file for each transaction
        self.db_conn.execute("PRAGMA journal_mode = MEMORY")
""")],
    needs="the daemon killed between two writes to the database file of one transaction",
    breaks="A run which was being recorded is completed and in progress at the same time, or in neither list.",
    demo='''
from dl import *
src = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/types.h>
#include <unistd.h>
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    static ssize_t (*f)(int, const void *, size_t, off64_t); static int k;
    char l[64], p[4096]; ssize_t r;
    if (!f) f = (ssize_t (*)(int, const void *, size_t, off64_t))dlsym(RTLD_NEXT, "pwrite64");
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd); r = readlink(l, p, sizeof p - 1);
    if (r > 0 && getenv("END_AT") && (p[r] = 0, strstr(p, "dsari.sqlite3")) && ++k == atoi(getenv("END_AT"))) _exit(9);
    return f(fd, b, n, o);
}
"""
b = Box()
with open(b.d + "/e.c", "w") as f:
    f.write(src)
subprocess.run(["gcc", "-shared", "-fPIC", "-o", b.d + "/e.so", b.d + "/e.c"], check=True)
b.config({"jobs": {"a": {"command": ["true"]}}})
code = """
import sys, datetime
sys.path.insert(0, %r)
import dsari, dsari.config, dsari.database
c = dsari.config.get_config(%r)
db = dsari.database.get_database(c)
run = dsari.Run(c.jobs["a"])
run.schedule_time = run.start_time = run.stop_time = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)
run.exit_code, run.trigger_type, run.trigger_data = 0, "schedule", {}
open(%r, "w").write(run.id)
db.insert_running_run(run)
open(%r, "w").write(run.id)
db.insert_run(run)
""" % (ROOT, b.etc, b.d + "/id", b.d + "/id2")
bad = []
for n in range(1, 60):
    for x in os.listdir(b.var):
        os.unlink(b.var + "/" + x)
    for x in ("id", "id2"):
        if os.path.exists(b.d + "/" + x):
            os.unlink(b.d + "/" + x)
    r = subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, LD_PRELOAD=b.d + "/e.so", END_AT=str(n)), capture_output=True, text=True)
    if os.path.exists(b.d + "/id2"):
        try:
            lists = [{x["run_id"] for x in b.runs()}, {x["run_id"] for x in b.running()}]
        except sqlite3.DatabaseError as e:
            bad.append((n, str(e)))
        else:
            if sorted(map(len, lists)) != [0, 1]:
                bad.append((n, lists))
    if r.returncode == 0:
        break
insist(not bad, bad)
''')
SEEDS["c29-directory-is-page"] = dict(
    property="C29",
    edits=[("dsari/render.py", """        if os.path.isfile(run_html_filename):
            if not self.args.regenerate:
                return
""", """        if os.path.isdir(os.path.dirname(run_html_filename)):
            if not self.args.regenerate:
                return
""")],
    needs="a rendering which ended between making the directory of a run's page and finishing the page",
    breaks="The page of that run is never written.",
    demo='''
from dl import *
b = Box()
os.mkdir(b.d + "/t")
b.config({"template_dir": b.d + "/t", "jobs": {"a": {"command": ["true"]}}})
ids = record(b, [("a", 0, 0, 1, 0), ("a", 5, 5, 6, 0)])
with open(b.d + "/t/run.html", "w") as f:
    f.write("{{ run.id.x.y }}")
b.main("dsari.render")
os.unlink(b.d + "/t/run.html")
r = b.main("dsari.render")
insist(r.returncode == 0, r.stderr)
for i in ids:
    insist(os.path.exists(b.var + "/html/a/" + i + "/index.html"), "no page of {}", i)
''')
SEEDS["c29-errors-are-logged"] = dict(
    property="C29",
    edits=[("dsari/render.py", """    r = Renderer(args)
    r.render()
""", """    r = Renderer(args)
    try:
        r.render()
    except OSError as e:
        r.logger.error("Cannot write reports: {}".format(e))
""")],
    needs="a full disk, or another error while a report is written",
    breaks="dsari-render ends with status 0 although reports are missing.",
    demo='''
from dl import *
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
record(b, [("a", 0, 0, 1, 0)])
with open(b.var + "/html", "w") as f:
    f.write("in the way")
r = b.main("dsari.render")
insist(r.returncode != 0, "dsari-render succeeds")
''')
SEEDS["c29-job-page-in-place"] = dict(
    property="C29",
    edits=[("dsari/render.py", """        write_html_file(job_html_filename, self.job_template.render(context))
""", """        stream = self.job_template.stream(context)
        opener = gzip.open if job_html_filename.endswith(".gz") else open
        with opener(job_html_filename, "wb") as f:
            stream.dump(f, encoding="utf-8", errors="replace")
""")],
    needs="a rendering which is killed or runs out of space while it writes the page of a job",
    breaks="The job page is cut off; until the next rendering visitors see only a part of it, where they saw the previous page.",
    demo='''
from dl import *
import resource
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
record(b, [("a", i, i, i + 1, 0) for i in range(3)])
r = b.main("dsari.render")
insist(r.returncode == 0, r.stderr)
fn = b.var + "/html/a/index.html"
before = open(fn).read()
record(b, [("a", i, i, i + 1, 0) for i in range(10, 150)])
p = subprocess.run([sys.executable, "-B", "-m", "dsari.render", "-c", b.etc], capture_output=True, text=True, cwd=ROOT, timeout=100, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (9000, 9000)))
insist(p.returncode != 0, "there was space: {}", p.stderr)
insist(open(fn).read() == before or open(fn).read().rstrip().endswith("</html>"), "the job page is cut off")
''')
