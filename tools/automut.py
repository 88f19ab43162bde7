"""Automatic mutation of the library (development tool, no check uses it).

``python3 tools/automut.py OUT N SEED [FILE...]`` runs all checks on N random mutants and appends
the survivors and errors to OUT (one JSON object per line).
"""

import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "/repo/curvlinops"
FIRST = [f"C{i:02d}" for i in (1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 6, 7)]
LATER = ["C33", "C30", "C31", "C32", "C29", "C21", "C24", "C20", "C26", "C25", "C27", "C23", "C28", "C22"]
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*",
       ast.Pow: "*", ast.MatMult: "*"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
SKIP_CALLS = {"print", "tqdm", "warn", "format"}


class Src:
    def __init__(self, path):
        self.path, self.text = path, open(path).read()
        self.tree = ast.parse(self.text)
        self.lines = self.text.splitlines(keepends=True)
        self.off = [0]
        for x in self.text.encode().splitlines(keepends=True):
            self.off.append(self.off[-1] + len(x))
        self.bytes = self.text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.bytes[a:b].decode()

    def sub(self, n, new):
        a, b = self.span(n)
        return (self.bytes[:a] + new.encode() + self.bytes[b:]).decode()


def mutants(s):
    """(line, what, new text)"""
    doc, ann = set(), set()
    for n in ast.walk(s.tree):
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                ann |= {id(x) for x in ast.walk(getattr(n, f))}
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            ann |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in SKIP_CALLS:
            ann |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc |= {id(n), id(n.value)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            ann.add(id(n))
    for n in ast.walk(s.tree):
        if id(n) in ann or id(n) in doc or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield n, f"({s.seg(n.left)}) {BIN[type(n.op)]} ({s.seg(n.right)})"
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield n, f"({s.seg(n.left)}) {CMP[type(n.ops[0])]} ({s.seg(n.comparators[0])})"
        if isinstance(n, ast.BoolOp):
            yield n, (" and " if isinstance(n.op, ast.Or) else " or ").join(
                f"({s.seg(v)})" for v in n.values)
            yield n, s.seg(n.values[0])
            yield n, s.seg(n.values[-1])
        if isinstance(n, ast.UnaryOp):
            yield n, f"({s.seg(n.operand)})"
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield n, str(not n.value)
            elif isinstance(n.value, int):
                yield n, f"{n.value + 1}"
                if n.value > 0:
                    yield n, f"{n.value - 1}"
            elif isinstance(n.value, float):
                yield n, f"{n.value * 10 + 1}"
            elif n.value is None:
                yield n, "0"
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.test, f"(not ({s.seg(n.test)}))"
            yield n.test, "True"
            yield n.test, "False"
        if isinstance(n, ast.Expr) or isinstance(n, (ast.AugAssign, ast.Raise, ast.Delete)):
            yield n, "pass"
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            yield n, "pass"
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not (
                    isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "super")):
                yield n, s.seg(n.func.value)
            for k in n.keywords:
                args = [s.seg(a) for a in n.args] + [
                    s.seg(x) for x in n.keywords if x is not k]
                yield n, f"{s.seg(n.func)}({', '.join(args)})"
            if len(n.args) >= 2:
                a = [s.seg(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                yield n, f"{s.seg(n.func)}({', '.join(a + [s.seg(x) for x in n.keywords])})"
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            e = [s.seg(x) for x in n.elts]
            o, c = ("[", "]") if isinstance(n, ast.List) else ("(", ")")
            yield n, o + ", ".join(e[::-1]) + c
        if isinstance(n, ast.Return) and n.value is not None:
            yield n, "return None"
        if isinstance(n, ast.For):
            yield n.iter, f"list({s.seg(n.iter)})[1:]"
            yield n.iter, f"list({s.seg(n.iter)})[:1]"


def run(m):
    rel, line, old, new, text = m
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp/w/mut")
    try:
        shutil.copytree(LIB, f"{d}/curvlinops", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/curvlinops/{rel}", "w").write(text)
        und = {}
        for pid in FIRST + LATER:
            try:
                r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=os.environ.get(
                    "SA_ROOT", ROOT), text=True, capture_output=True, timeout=600,
                    env={**os.environ, "SA_REPO": d, "SA_JOBS": "1"})
            except subprocess.TimeoutExpired:
                und[pid] = "timeout"
                continue
            if r.returncode == 1:
                return dict(st="caught", by=pid)
            if r.returncode:
                return dict(st="error", by=pid, msg=r.stderr[-400:])
            line_ = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
            if " 0 undecided" not in line_:
                und[pid] = line_
        return dict(st="survived", und=und)
    finally:
        shutil.rmtree(d)


def main():
    out, n, seed, *files = sys.argv[1:]
    files = files or [os.path.relpath(f"{p}/{f}", LIB) for p, _, fs in os.walk(LIB) for f in fs
                      if f.endswith(".py") and "examples" not in p and f != "__init__.py"]
    todo = []
    for rel in sorted(files):
        s = Src(f"{LIB}/{rel}")
        seen = set()
        for node, new in mutants(s):
            t = s.sub(node, new)
            if t in seen or t == s.text:
                continue
            seen.add(t)
            try:
                ast.parse(t)
            except SyntaxError:
                continue
            todo.append((rel, node.lineno, s.seg(node), new, t))
    print(len(todo), "mutants available")
    random.Random(int(seed)).shuffle(todo)
    todo = todo[:int(n)]
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["key"] for x in open(out)}
    todo = [m for m in todo if f"{m[0]}:{m[1]}:{m[2]}->{m[3]}" not in done]

    def one(m):
        r = run(m)
        r["key"] = f"{m[0]}:{m[1]}:{m[2]}->{m[3]}"
        with open(out, "a") as f:
            f.write(json.dumps(r) + "\n")
        return r
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "7"))) as ex:
        rs = list(ex.map(one, todo))
    for st in ("caught", "survived", "error"):
        print(st, len([r for r in rs if r["st"] == st]))


if __name__ == "__main__":
    main()
