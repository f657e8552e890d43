"""Systematic small mutations of /repo, to find behaviour that neither the tests nor the checks notice.

python3 tools/mutate.py OUT.jsonl [--files substring,...] [--every N] [--offset K] [--scale S] [--jobs J]

Run it from a copy of /verif.  Each mutant that passes the tests is run against the checks that concern its
file; those that no check notices are printed for reading (many are equivalent to the original).
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/compas_cem/"
MAP = [("equilibrium/", "C03 C02 C07 C01 C08 C06"), ("mesh_mixins", "C20"), ("diagrams/", "C12 C13 C09 C10 C11 C14 C06 C08 C03"),
       ("optimization/", "C16 C18 C19 C15 C17"), ("plotters/", "C21"), ("viewers/", "C23"), ("ghpython/", "C22"),
       ("elements/", "C12 C13 C14 C22"), ("loads/", "C12 C14 C22"), ("supports/", "C12 C14 C22"), ("data/", "C15 C14 C12")]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.out = []
        self.start = [0]
        for ln in self.lines:
            self.start.append(self.start[-1] + len(ln.encode()))
        self.raw = text.encode()

    def span(self, n):
        return self.start[n.lineno - 1] + n.col_offset, self.start[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        if self.raw[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno))

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            return
        self.add(n.test, "True", "if true")
        self.add(n.test, "False", "if false")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n.test, "True", "if true")
        self.add(n.test, "False", "if false")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.add(n, "%s %s %s" % (self.seg(n.left), CMP[type(n.ops[0])], self.seg(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or type(n.op) in BIN and isinstance(getattr(n.left, "value", None), (int, float)):
            self.add(n, "%s %s %s" % (self.seg(n.left), BIN[type(n.op)], self.seg(n.right)), "arith")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, op.join("(%s)" % self.seg(v) for v in n.values), "bool")
        for v in n.values:
            self.add(n, self.seg(v), "bool part")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, self.seg(n.operand), "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "const")
        elif isinstance(v, (int, float)):
            self.add(n, repr(v + 1 if v != 1 else 2 if isinstance(v, int) else 1.5), "const")
            if v:
                self.add(n, repr(v * 0), "const")

    def visit_Call(self, n):
        if getattr(n.func, "id", "") == "print":
            return
        for k in n.keywords:
            if k.arg is not None:
                a, b = self.span(k)
                while a > 0 and self.raw[a - 1:a] in (b" ", b"\n", b","):
                    a -= 1
                    if self.raw[a:a + 1] == b",":
                        break
                else:
                    if self.raw[b:b + 1] == b",":
                        b += 1
                self.out.append((a, b, "", "drop keyword " + k.arg, n.lineno))
        self.generic_visit(n)

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Assert)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "print":
                    continue
                self.add(s, "pass", "delete")
            if isinstance(s, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets):
                self.add(s, "pass", "delete")
            if isinstance(s, ast.Continue):
                self.add(s, "break", "break")
            if isinstance(s, ast.Return) and s.value is not None:
                self.add(s, "return", "return none")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_Assign(self, n):
        if getattr(n.targets[0], "id", "").startswith("__"):
            return
        self.generic_visit(n)

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                self.body(b)
        super(Finder, self).generic_visit(n)


def mutants(path):
    text = open(path).read()
    f = Finder(text)
    f.visit(ast.parse(text))
    seen = set()
    for a, b, new, kind, line in f.out:
        out = f.raw[:a].decode() + new + f.raw[b:].decode()
        if out in seen:
            continue
        seen.add(out)
        try:
            compile(out, path, "exec")
        except SyntaxError:
            continue
        yield line, kind, f.raw[a:b].decode(), new, out


def sh(cmd, cwd, env, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return p.returncode, p.stdout.decode(errors="replace")


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def main():
    out = open(sys.argv[1], "a")
    files = opt("--files", "").split(",")
    every, offset = int(opt("--every", "1")), int(opt("--offset", "0"))
    jobs = int(opt("--jobs", "4"))
    lock = threading.Lock()
    todo = []
    for folder, _, names in os.walk("/repo/" + SRC):
        for name in sorted(names):
            path = os.path.join(folder, name)
            rel = path[len("/repo/" + SRC):]
            if not name.endswith(".py") or name == "__init__.py" or "install" in name or not any(f in rel for f in files):
                continue
            pids = [p for key, p in MAP if key in rel]
            if not pids or "plotters/proxy" in rel or "constraints/mesh" in rel:
                continue
            for m in mutants(path):
                todo.append((rel, pids[0].split()) + m)
    todo = todo[offset::every]
    print(len(todo), "mutants")
    trees = []
    base = tempfile.mkdtemp(prefix="mutate-")
    local = threading.local()

    def work(job):
        rel, pids, line, kind, old, new, text = job
        if not hasattr(local, "tree"):
            with lock:
                local.tree = os.path.join(base, "t%d" % len(trees))
                trees.append(local.tree)
            subprocess.run(["git", "clone", "-q", "/repo", local.tree], check=True)
        full = os.path.join(local.tree, SRC + rel)
        orig = open("/repo/" + SRC + rel).read()
        res = {"file": rel, "line": line, "kind": kind, "old": old[:120], "new": new[:120]}
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
                   PYTHONPATH=local.tree + "/src", VERIF_REPO=local.tree, VERIF_WORKERS="1", VERIF_SCALE=opt("--scale", "0.25"))
        try:
            open(full, "w").write(text)
            code, _ = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], local.tree, env, 120)
            if code:
                res["result"] = "tests"
            else:
                res["result"] = "survived"
                for pid in pids:
                    code, txt = sh([os.path.join(ROOT, "check"), pid], ROOT, env, 400)
                    if code:
                        res["result"] = pid if code == 1 else "error %s: %s" % (pid, txt[-300:])
                        break
        finally:
            open(full, "w").write(orig)
        with lock:
            out.write(json.dumps(res) + "\n")
            out.flush()
            if res["result"] == "survived" or res["result"].startswith("error"):
                print("%s:%d %s  %r -> %r  %s" % (rel, line, kind, old[:90], new[:60], res["result"]))
                sys.stdout.flush()

    try:
        list(ThreadPoolExecutor(jobs).map(work, todo))
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
