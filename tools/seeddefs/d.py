SEEDS = {}
HIDE = '''
def hiding(b, *names):
    """An environment in which these packages cannot be imported."""
    p = b.d + "/hidden"
    os.makedirs(p, exist_ok=True)
    for n in names:
        with open(p + "/" + n + ".py", "w") as f:
            f.write("raise ImportError('hidden')\\n")
    return dict(os.environ, PYTHONPATH=p + ":" + ROOT)
'''
SEEDS["c27-yaml-or-nothing"] = dict(
    property="C27",
    edits=[("dsari/daemon.py", """            if not os.path.exists(test_file):
                continue
            if fn_type == "yaml" and isinstance(yaml, ImportError):
                continue
            trigger_file = test_file
""", """            if not os.path.exists(test_file):
                continue
            trigger_file = test_file
""")],
    needs="PyYAML not installed, and a YAML trigger file",
    breaks="The daemon ends with an ImportError instead of leaving the YAML trigger alone.",
    demo='''
from dl import *''' + HIDE + '''
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}, "b": {"command": ["true"]}}})
b.start(env=hiding(b, "yaml"))
b.trigger("a", "{}", name="trigger.yaml", raw=True)
time.sleep(2)
insist(b.alive(), "the daemon has ended: {}", b.text()[-500:])
b.trigger("b", {})
insist(wait(lambda: b.runs("b"), 15), "b was not run")
''')
SEEDS["c27-yaml-config-skipped"] = dict(
    property="C27",
    edits=[("dsari/config.py", """        for fn, fn_type in [("dsari.yaml", "yaml"), ("dsari.json", "json")]:
            if os.path.exists(os.path.join(config_dir, fn)):
""", """        for fn, fn_type in utils.loadable(
            [("dsari.yaml", "yaml"), ("dsari.json", "json")]
        ):
            if os.path.exists(os.path.join(config_dir, fn)):
"""), ("dsari/utils.py", """def load_structured_file(""", """def loadable(files):
    # There is no point in trying what cannot be parsed
    return [
        (fn, fn_type)
        for fn, fn_type in files
        if fn_type != "yaml" or not isinstance(yaml, ImportError)
    ]


def load_structured_file(""")],
    needs="PyYAML not installed, and a YAML configuration file",
    breaks="The YAML file is silently ignored: an installation with it passes config check and has no jobs.",
    demo='''
from dl import *''' + HIDE + '''
b = Box()
b.config("data_dir: %s\\njobs:\\n  a:\\n    command: ['true']\\n" % b.var, name="dsari.yaml", raw=True)
r = b.main("dsari.info", "config", "check")
insist(r.returncode == 0, r.stderr)
env = hiding(b, "yaml")
env["DSARI_HOME"] = b.d
env["HOME"] = b.d
r = b.main("dsari.info", "config", "check", env=env)
insist(r.returncode == 1, "config check says {}", r.returncode)
''')
SEEDS["c27-shell-colours"] = dict(
    property="C27",
    edits=[("dsari/info.py", """        try:
            import termcolor

            self.termcolor = termcolor
        except ImportError:
            self.do_color = False
            return
        for c in self.termcolor.COLORS.keys():
            if c in ("red", "grey"):
                continue
            self.hash_colors.append((c, ["bold"]))
            self.hash_colors.append((c, []))
""", """        try:
            import termcolor
        except ImportError:
            return
        self.termcolor = termcolor
        for c in self.termcolor.COLORS.keys():
            if c in ("red", "grey"):
                continue
            self.hash_colors.append((c, ["bold"]))
            self.hash_colors.append((c, []))
""")],
    needs="termcolor not installed, and run list (pretty) on a terminal",
    breaks="The lists fail on a terminal.",
    demo='''
from dl import *''' + HIDE + '''
import pty
b = Box()
b.config({"jobs": {"a": {"command": ["true"]}}})
record(b, [("a", 0, 0, 1, 0)])
env = hiding(b, "termcolor")
env["PAGER"] = "cat"
pid, fd = pty.fork()
if pid == 0:
    os.execve(sys.executable, [sys.executable, "-B", "-m", "dsari.info", "-c", b.etc, "run", "list"], env)
text = b""
while True:
    try:
        x = os.read(fd, 4096)
    except OSError:
        break
    if not x:
        break
    text += x
_, st = os.waitpid(pid, 0)
insist(os.waitstatus_to_exitcode(st) == 0, "status {}: {}", st, text[-800:].decode())
''')
SEEDS["c28-config-d-alone"] = dict(
    property="C28",
    edits=[("dsari/config.py", """def dir_has_config(dir):
    if os.path.exists(os.path.join(dir, "dsari.json")):
        return True
    elif os.path.exists(os.path.join(dir, "dsari.yaml")):
        return True
    elif os.path.exists(os.path.join(dir, "config.d")):
        return True
    else:
        return False
""", """def dir_has_config(dir):
    return any(
        os.path.isfile(os.path.join(dir, "dsari.{}".format(ext)))
        for ext in ("json", "yaml", "d")
    )
""")],
    needs="a default configuration directory which has nothing but a config.d",
    breaks="A configuration in ~/.dsari/etc/config.d is passed over if there is a system-wide one.",
    demo='''
from dl import *
b = Box()
os.makedirs(b.d + "/.dsari/etc/config.d")
with open(b.d + "/.dsari/etc/config.d/a.json", "w") as f:
    json.dump({"jobs": {"a": {"command": ["true"]}}}, f)
# as if there was a system-wide configuration, too
code = """
import os
real = os.stat
def stat(p, *a, **kw):
    return real("/" if isinstance(p, str) and p in ("/etc/dsari", "/etc/dsari/dsari.json") else p, *a, **kw)
os.stat = stat
exists = os.path.exists
os.path.exists = lambda p: p == "/etc/dsari/dsari.json" or exists(p)
isfile = os.path.isfile
os.path.isfile = lambda p: p == "/etc/dsari/dsari.json" or isfile(p)
import dsari.config
print(dsari.config.DEFAULT_CONFIG_DIR)
print(dsari.config.DEFAULT_DATA_DIR)
"""
r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, env=dict(os.environ, HOME=b.d))
insist(r.stdout.split() == [b.d + "/.dsari/etc", b.d + "/.dsari/var"], r.stdout + r.stderr)
''')
SEEDS["c28-daemonized"] = dict(
    property="C28",
    edits=[("dsari/daemon.py", """        child_pid = os.fork()
        if child_pid > 0:
            return
    s = Scheduler(args)
""", """        if os.fork() > 0:
            return
        # Do not keep a file system or a terminal busy
        os.setsid()
        os.chdir("/")
    s = Scheduler(args)
""")],
    needs="--fork together with a relative --config-dir",
    breaks="The daemon in the background looks for its configuration below the root directory, and has no jobs.",
    demo='''
from dl import *
import ctypes
ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)     # PR_SET_CHILD_SUBREAPER
b = Box()
b.config({"jobs": {"a": {"command": ["sh", "-c", "echo $PPID"]}}})
b.trigger("a", {}, poke=False)
r = subprocess.run([sys.executable, "-B", "-m", "dsari.daemon", "--fork", "-c", "etc"], cwd=b.d, env=dict(os.environ, PYTHONPATH=ROOT, DSARI_HOME=b.d), stdout=b.log, stderr=b.log, stdin=subprocess.DEVNULL, timeout=60)
x = wait(lambda: b.runs("a"), 15)
if x:
    os.kill(int(b.output(x[0])), 9)
else:
    # end what was started here, now a child of this process
    for p in os.listdir("/proc"):
        try:
            if p.isdigit() and open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()[1] == str(os.getpid()):
                os.kill(int(p), 9)
        except OSError:
            pass
insist(x, "the job was not run")
''')
SEEDS["c28-home-of-the-user"] = dict(
    property="C28",
    edits=[("dsari/config.py", """elif dir_has_config("/etc/dsari"):
    DEFAULT_CONFIG_DIR = "/etc/dsari"
    DEFAULT_DATA_DIR = "/var/lib/dsari"
else:
    DEFAULT_CONFIG_DIR = os.path.join(os.path.expanduser("~"), ".dsari", "etc")
    DEFAULT_DATA_DIR = os.path.join(os.path.expanduser("~"), ".dsari", "var")
""", """elif dir_has_config("/etc/dsari"):
    DEFAULT_CONFIG_DIR = "/etc/dsari"
    DEFAULT_DATA_DIR = os.path.join(os.path.expanduser("~"), ".dsari", "var")
    if os.access("/var/lib/dsari", os.W_OK):
        DEFAULT_DATA_DIR = "/var/lib/dsari"
else:
    DEFAULT_CONFIG_DIR = os.path.join(os.path.expanduser("~"), ".dsari", "etc")
    DEFAULT_DATA_DIR = os.path.join(os.path.expanduser("~"), ".dsari", "var")
""")],
    needs="a configuration in /etc/dsari only, and a first start, when /var/lib/dsari does not exist",
    breaks="The daemon and users who may not write there see different installations; on the first start data goes to ~/.dsari/var.",
    demo='''
from dl import *
b = Box()
code = """
import os
real = os.stat
there = ("/etc/dsari", "/etc/dsari/dsari.json")
os.stat = lambda p, *a, **kw: real("/" if isinstance(p, str) and p in there else p, *a, **kw)
exists = os.path.exists
os.path.exists = lambda p: p in there or exists(p)
import dsari.config
print(dsari.config.DEFAULT_CONFIG_DIR)
print(dsari.config.DEFAULT_DATA_DIR)
"""
r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, env=dict(os.environ, HOME=b.d))
insist(r.stdout.split() == ["/etc/dsari", "/var/lib/dsari"], r.stdout + r.stderr)
''')
