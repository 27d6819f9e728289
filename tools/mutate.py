"""Mutation study: mutate.py [-n PER_FILE] [--seed S] [--files GLOB...] [--jobs J] OUT.jsonl

Plants small random changes into a scratch copy of the package, runs the checks anchored at the changed file from a scratch copy of
/verif and records which of them report it. Survivors are for reading: each is a change that means nothing, or a gap."""
import argparse
import ast
import fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "+", ast.Mod: "*", ast.Pow: "*"}
SWAP = {"min": "max", "max": "min", "greedy_actions": "max", "detach": None, "log": "exp", "sum": "mean", "mean": "sum",
        "append": "appendleft", "clone": None, "all": "any", "any": "all"}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.splitlines(True)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()))
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, n.lineno))

    def visit_Assert(self, n):
        pass

    visit_Raise = visit_Import = visit_ImportFrom = visit_AnnAssign = visit_Assert

    def visit_FunctionDef(self, n):
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if "logger" in self.text(n) or "print(" in self.text(n):
            return
        if "super()" not in self.text(n):
            self.add(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            self.add(n, "pass", "drop assignment")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop update")
        self.generic_visit(n)

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and "__name__" in self.text(n.test):
            return
        self.add(n.test, "True", "if True")
        self.add(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.text(n.body), "then")
        self.add(n, self.text(n.orelse), "else")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.add(n, "(%s %s %s)" % (self.text(n.left), CMP[type(n.ops[0])], self.text(n.comparators[0])), "compare")
            if isinstance(n.ops[0], (ast.Lt, ast.GtE)):
                self.add(n, "(%s + 1 %s %s)" % (self.text(n.left), "<" if isinstance(n.ops[0], ast.Lt) else ">=", self.text(
                    n.comparators[0])), "off by one")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or isinstance(n.op, (ast.Sub, ast.Mult)):
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                self.add(n, "(%s %s %s)" % (self.text(n.left), BIN.get(type(n.op), "+"), self.text(n.right)), "arith")
        if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            self.add(n, self.text(n.left), "left operand only")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join(self.text(v) for v in n.values) + ")", "boolop")
        self.add(n, self.text(n.values[0]), "first only")
        self.add(n, self.text(n.values[-1]), "last only")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            self.add(n, "(%s)" % self.text(n.operand), "unary")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        s = n.slice
        if isinstance(s, ast.Constant) and s.value == 0 and s.value is not False:
            self.add(s, "-1", "index")
        elif isinstance(s, ast.UnaryOp) and self.text(s) == "-1":
            self.add(s, "0", "index")
        elif isinstance(s, ast.Slice):
            if s.lower is not None and s.upper is None:
                self.add(s, ":", "slice")
            elif s.upper is not None and s.lower is None:
                self.add(s, ":", "slice")
        self.visit(n.value)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "int")
        elif isinstance(v, float):
            self.add(n, repr(v * 2 + (0.5 if v == 0 else 0)), "float")

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in SWAP:
            new = SWAP[f.attr]
            if new is None:
                if not n.args:
                    self.add(n, self.text(f.value), "drop ." + f.attr)
            else:
                self.add(f, "%s.%s" % (self.text(f.value), new), "swap call")
        if isinstance(f, ast.Name) and f.id in ("min", "max"):
            self.add(f, SWAP[f.id], "swap call")
        if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
            a, b = n.args[0], n.args[1]
            self.out.append((self.pos(a)[0], self.pos(b)[1], "%s, %s" % (self.text(b), self.text(a)), "swap args",
                             n.lineno))
        for k in n.keywords:
            if k.arg and not (isinstance(k.value, ast.Name) and len(n.keywords) < 2) and len(n.keywords) > 1:
                a = self.off[k.lineno - 1] + k.col_offset
                b = self.pos(k.value)[1]
                tail = self.b[b:b + 80].decode(errors="ignore")
                cut = len(tail) - len(tail.lstrip())
                if tail[cut:cut + 1] == ",":
                    self.out.append((a, b + cut + 1, "", "drop keyword " + k.arg, k.lineno))
        self.generic_visit(n)

    def visit_With(self, n):
        t = self.text(n.items[0].context_expr)
        if len(n.items) == 1 and n.items[0].optional_vars is None:
            self.add(n.items[0].context_expr, "__import__('contextlib').nullcontext()", "drop with " + t[:30])
        for s in n.body:
            self.visit(s)

    def visit_Break(self, n):
        self.add(n, "pass", "drop break")

    def visit_Continue(self, n):
        self.add(n, "pass", "drop continue")


def mutants(path):
    src = open(path).read()
    f = Finder(src)
    f.visit(ast.parse(src))
    out = []
    for a, b, new, kind, line in f.out:
        m = f.b[:a] + new.encode() + f.b[b:]
        if m == f.b:
            continue
        try:
            ast.parse(m.decode())
        except SyntaxError:
            continue
        out.append(dict(line=line, kind=kind, old=f.b[a:b].decode(), new=new, text=m.decode()))
    return out


def checks_for(path, props):
    out = []
    for p in props:
        best = None
        for q in p["anchors"]["files"] if isinstance(p["anchors"], dict) and "files" in p["anchors"] else paths(p):
            if q == path:
                best = 0
            elif q.endswith("/") and path.startswith(q):
                best = 1 if best is None else best
        if best is not None:
            out.append((best, len(paths(p)), p["id"]))
    return [x[2] for x in sorted(out)]


def paths(p):
    a = p["anchors"]
    return [x if isinstance(x, str) else x.get("path", x.get("file", "")) for x in a] if isinstance(a, list) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=8)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--files", nargs="*", default=["pfrl/*"])
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--max-checks", type=int, default=6)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    files = subprocess.run(["git", "ls-files", "pfrl"], cwd=REPO, capture_output=True, text=True).stdout.split()
    files = [f for f in files if f.endswith(".py") and any(fnmatch.fnmatch(f, g) for g in a.files)]
    r = random.Random(a.seed)
    jobs = []
    for f in files:
        cs = checks_for(f, props)
        if not cs:
            print("no check:", f)
            continue
        ms = mutants(os.path.join(REPO, f))
        r.shuffle(ms)
        jobs += [(f, cs[:a.max_checks], m) for m in ms[:a.n]]
    r.shuffle(jobs)
    print(len(jobs), "mutants")
    if a.list:
        return
    base = "/tmp/mutate-%d" % os.getpid()
    os.makedirs(base)
    free = []
    for k in range(a.jobs):
        w = os.path.join(base, str(k))
        os.makedirs(w)
        shutil.copytree(ROOT, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"),
                        symlinks=True)
        free.append(w)

    def one(job):
        f, cs, m = job
        w = free.pop()
        try:
            shutil.rmtree(w + "/repo", ignore_errors=True)
            os.makedirs(w + "/repo")
            shutil.copytree(REPO + "/pfrl", w + "/repo/pfrl")
            shutil.copy(REPO + "/setup.py", w + "/repo")
            open(os.path.join(w, "repo", f), "w").write(m["text"])
            res, t0 = {}, time.time()
            for c in cs:
                try:
                    p = subprocess.run(["./check", c, "--nproc", str(max(1, 8 // a.jobs))], cwd=w + "/verif",
                                       env=dict(os.environ, PFRL_REPO=w + "/repo", VERIF_TIER="quick"),
                                       capture_output=True, text=True, timeout=600)
                    res[c] = p.returncode
                except subprocess.TimeoutExpired:
                    res[c] = "timeout"
                if res[c]:
                    break
            rec = dict(file=f, line=m["line"], kind=m["kind"], old=m["old"][:300], new=m["new"][:300], res=res,
                       caught=any(v == 1 for v in res.values()), s=round(time.time() - t0))
            with open(a.out, "a") as h:
                h.write(json.dumps(rec) + "\n")
        except Exception as e:  # noqa: B902
            print("error", e, file=sys.stderr)
        finally:
            free.append(w)

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, jobs))
    shutil.rmtree(base)


main()
