#!/usr/bin/env python3
"""Mutation testing of the checks: small systematic changes to dsari which the existing tests let pass; prints those no check finds.

mutate.py FILE.. [--sample N] [--seed S] [--out results.jsonl]    works on a scratch copy of /repo
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "utils.py": "C01 C02 C03 C05 C10 C11 C18 C06 C16 C22 C25",
    "croniter_hash.py": "C02 C01",
    "config.py": "C05 C04 C06 C18 C22 C27 C28",
    "daemon.py": "C16 C18 C10 C09 C12 C13 C14 C07 C19 C15 C11 C17 C08",
    "database.py": "C21 C20 C17 C16 C22 C28 C26",
    "info.py": "C22 C06 C05 C28",
    "prometheus_exporter.py": "C23 C28",
    "render.py": "C24 C25 C29",
    "__init__.py": "C07 C10 C16 C20 C22 C24",
    "run.html": "C25 C24", "job.html": "C24", "index.html": "C24",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def quiet(node):
    """Nothing but messages."""
    s = ast.unparse(node)
    return ".logger." in s or s.startswith(("parser.add_argument", "argparse", "print(", "logging.", "lh_console"))


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.split("\n")
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l) + 1)

    def pos(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def put(self, node, text, what):
        a, b = self.pos(node)
        self.out.append((a, b, text, "%d: %s: %s -> %s" % (node.lineno, what, self.src[a:b].replace("\n", " ")[:80], text[:80])))

    def generic_visit(self, node):
        if isinstance(node, ast.stmt) and not isinstance(node, (ast.If, ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Try, ast.With)) and quiet(node):
            return
        super().generic_visit(node)

    def visit_FunctionDef(self, node):
        if node.name == "__repr__":
            return
        for d in node.args.defaults:
            self.visit(d)
        for s in node.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            l, r = ast.unparse(node.left), ast.unparse(node.comparators[0])
            self.put(node, "(%s %s %s)" % (l, SWAP[type(node.ops[0])], r), "cmp")
            if type(node.ops[0]) in (ast.Lt, ast.Gt):
                pass
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = " or " if isinstance(node.op, ast.And) else " and "
        self.put(node, "(" + op.join("(%s)" % ast.unparse(v) for v in node.values) + ")", "bool")
        for i in range(len(node.values)):
            rest = [v for j, v in enumerate(node.values) if j != i]
            self.put(node, "(" + (" and " if isinstance(node.op, ast.And) else " or ").join("(%s)" % ast.unparse(v) for v in rest) + ")", "drop")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.put(node, "(%s)" % ast.unparse(node.operand), "not")
        self.generic_visit(node)

    def visit_If(self, node):
        if isinstance(node.test, (ast.Name, ast.Attribute, ast.Call)):
            self.put(node.test, "not (%s)" % ast.unparse(node.test), "if")
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.put(node, str(not v), "const")
        elif isinstance(v, (int, float)):
            self.put(node, repr(v + 1), "const")
        elif isinstance(v, str) and v and v.strip():
            self.put(node, repr(v + "x"), "str")

    def visit_JoinedStr(self, node):
        pass

    def visit_BinOp(self, node):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "//"}
        if type(node.op) in sw and not isinstance(node.left, ast.Constant):
            self.put(node, "(%s %s %s)" % (ast.unparse(node.left), sw[type(node.op)], ast.unparse(node.right)), "arith")
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            if quiet(node):
                return
            self.put(node, "pass", "del")
        self.generic_visit(node)

    def visit_Assign(self, node):
        self.put(node, "pass", "del")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.put(node, "pass", "del")
        self.generic_visit(node)

    def visit_Delete(self, node):
        self.put(node, "pass", "del")

    def visit_Continue(self, node):
        self.put(node, "break", "flow")

    def visit_Break(self, node):
        self.put(node, "pass", "flow")

    def visit_Return(self, node):
        if node.value is not None:
            self.put(node, "return None", "ret")
        else:
            self.put(node, "pass", "ret")
        self.generic_visit(node)

    def visit_Call(self, node):
        for i, k in enumerate(node.keywords):
            if k.arg:
                c = ast.parse(ast.unparse(node)).body[0].value
                del c.keywords[i]
                self.put(node, ast.unparse(c), "kw")
        if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "reversed", "str", "int", "list", "dict", "set", "float") and len(node.args) == 1 and not node.keywords:
            self.put(node, "(%s)" % ast.unparse(node.args[0]), "unwrap")
        self.generic_visit(node)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--sample", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--checks")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    seen = set()
    if os.path.exists(a.out):
        seen = {(d["file"], d["what"]) for d in map(json.loads, open(a.out))}
    work = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        for f in a.files:
            path = "/repo/dsari/" + f
            src = open(path).read()
            fi = Finder(src)
            fi.visit(ast.parse(src))
            muts = fi.out
            if a.list:
                print(f, len(muts))
                continue
            rnd.shuffle(muts)
            n = 0
            for x, y, text, what in muts:
                if n >= a.sample:
                    break
                if (f, what) in seen:
                    continue
                new = src[:x] + text + src[y:]
                try:
                    compile(new, f, "exec")
                except SyntaxError:
                    continue
                n += 1
                repo = work + "/repo"
                subprocess.run(["rm", "-rf", repo], check=True)
                shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
                open(repo + "/dsari/" + f, "w").write(new)
                try:
                    t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
                except subprocess.TimeoutExpired:
                    t = "timeout"
                res = {"file": f, "what": what}
                if t:
                    res["result"] = "tests"
                else:
                    res["result"] = "SURVIVED"
                    for c in (a.checks or CHECKS[f]).split():
                        try:
                            p = subprocess.Popen([VERIF + "/check", c], env=dict(os.environ, DSARI_REPO=repo), stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT, start_new_session=True)
                            rc = p.wait(timeout=900)
                        except subprocess.TimeoutExpired:
                            rc = "timeout"
                            os.killpg(p.pid, 9)
                            p.wait()
                        if rc != 0:
                            res["result"] = c
                            res["rc"] = rc
                            break
                with open(a.out, "a") as o:
                    o.write(json.dumps(res) + "\n")
                print(res["result"], f, what, flush=True)
    finally:
        subprocess.run(["rm", "-rf", work])


if __name__ == "__main__":
    main()
