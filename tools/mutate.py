#!/opt/venv/bin/python
"""mutate.py gen | test [N] | kill: first-order mutants of /repo that pass the tests, run against the checks.
Results in /tmp/mut. A tool for finding blind spots; no check uses it."""
import ast
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf
from pathlib import Path

OUT = Path("/tmp/mut")
SRC = Path("/repo/src/backy")
FILES = ["cli/__init__.py", "daemon/__init__.py", "daemon/api.py", "daemon/scheduler.py", "file/__init__.py", "rbd/__init__.py",
         "rbd/chunked/__init__.py", "rbd/chunked/chunk.py", "rbd/chunked/file.py", "rbd/chunked/store.py", "rbd/rbd.py", "report.py",
         "repository.py", "revision.py", "schedule.py", "source.py", "utils.py"]
CHECKS = {
    "cli/__init__.py": "C22 C30 C26 C27 C34 C20 C01", "daemon/__init__.py": "C15 C14 C21 C16 C27 C13 C18 C31 C34", "daemon/api.py": "C16 C18 C19 C15 C29 C24 C33 C34",
    "daemon/scheduler.py": "C13 C12 C14 C18 C19 C15 C33 C31 C27 C09 C34 C36", "file/__init__.py": "C22 C07 C01 C05 C06 C08", "rbd/__init__.py": "C01 C04 C25 C10 C24 C32 C22 C07 C23 C26 C21 C08 C06",
    "rbd/chunked/__init__.py": "C02 C10 C01 C23", "rbd/chunked/chunk.py": "C02 C10 C01 C06 C05 C23", "rbd/chunked/file.py": "C02 C01 C03 C06 C05 C28",
    "rbd/chunked/store.py": "C07 C28 C05 C10 C01 C32", "rbd/rbd.py": "C01 C03 C04 C25 C24", "report.py": "C26 C22", "repository.py": "C20 C17 C11 C30 C22 C09 C27 C25 C18 C26 C05 C08 C34",
    "revision.py": "C29 C17 C18 C25 C05 C06 C20 C10 C11 C32 C33", "schedule.py": "C12 C11 C27 C13 C15 C34", "source.py": "C22 C15 C01 C13 C31", "utils.py": "C26 C12 C01 C21 C29 C23 C20 C05 C06 C18",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.BitOr: "&", ast.BitAnd: "|"}


def is_log(n):
    s = ast.unparse(n)
    return any(x in s for x in ("log.", ".print", "print(", "logging", "_LOG")) and isinstance(n, (ast.Expr, ast.Call))


def mutants(f):
    src = (SRC / f).read_text()
    tree = ast.parse(src)
    starts = [0]
    for l in src.encode().splitlines(keepends=True):
        starts.append(starts[-1] + len(l))
    raw = src.encode()
    out = []

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, kind):
        a, b = pos(n)
        out.append({"file": f, "line": n.lineno, "kind": kind, "a": a, "b": b, "old": raw[a:b].decode(), "new": new})

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ("main", "__repr__", "__str__", "setup_argparse") or isinstance(n, ast.Assert) or is_log(n):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.arg, ast.AnnAssign)):
            for an in filter(None, [getattr(n, "returns", None), getattr(n, "annotation", None)]):
                for x in ast.walk(an):
                    skip.add(id(x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_argument", "add_parser", "debug", "info", "warning", "error", "exception", "bind"):
            for x in ast.walk(n):
                skip.add(id(x))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " and " if isinstance(n.op, ast.Or) else " or "
            add(n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                add(n, "(" + (" or " if isinstance(n.op, ast.Or) else " and ").join(f"({seg(v)})" for v in rest) + ")", f"bool-drop{i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({seg(n.operand)})", "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 1:
                    add(n, str(n.value - 1), "const")
        elif isinstance(n, (ast.Expr,)) and isinstance(n.value, (ast.Call, ast.Await)):
            add(n, "pass", "del")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in getattr(n, "targets", [getattr(n, "target", None)])):
            add(n, "pass", "del")
        elif isinstance(n, (ast.Continue, ast.Break, ast.Raise)):
            add(n, "pass", "del")
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant)):
                add(n, "return None", "ret")
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            add(n.test, f"(not ({seg(n.test)}))", "neg")
        elif isinstance(n, ast.IfExp):
            add(n, f"({seg(n.body)})", "ifexp")
            add(n, f"({seg(n.orelse)})", "ifexp")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and "Exception" != seg(n.type):
            add(n.type, "Exception", "except")
        elif isinstance(n, ast.Try) and n.handlers and "Exception" == (seg(n.handlers[-1].type) if n.handlers[-1].type else ""):
            add(n.handlers[-1].type, "MemoryError", "except-none")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "sorted", "reversed", "set", "list", "any", "all"):
            alt = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "reversed": "list"}.get(n.func.id)
            if alt:
                add(n.func, alt, "call")
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                if "locked" in seg(d):
                    a, b = pos(d)
                    out.append({"file": f, "line": d.lineno, "kind": "unlock", "a": a - 1, "b": b, "old": "@" + seg(d), "new": "# unlocked"})
                    if '"shared"' in seg(d):
                        add(d, seg(d).replace("shared", "exclusive"), "lockmode")
                    else:
                        add(d, seg(d).replace("exclusive", "shared"), "lockmode")
    return out


def copy(m):
    d = Path(tempfile.mkdtemp(prefix="mut.", dir="/dev/shm"))
    shutil.copytree("/repo", d, dirs_exist_ok=True, symlinks=True, ignore=shutil.ignore_patterns(".git", "target", "*.pyc"))
    p = d / "src/backy" / m["file"]
    raw = p.read_bytes()
    a, b = m["a"], m["b"]
    base = os.environ.get("MUT_BASE")  # the commit the mutants were made for
    if base:
        old = subprocess.run(["git", "-C", "/repo", "show", f"{base}:src/backy/{m['file']}"], capture_output=True, check=True).stdout
        assert old[a:b].decode() == m["old"], m
        for x, y, n in difflib.SequenceMatcher(None, old.splitlines(1), raw.splitlines(1), autojunk=False).get_matching_blocks():
            lo, hi = (sum(map(len, old.splitlines(1)[:k])) for k in (x, x + n))
            if lo <= a and b <= hi:
                delta = sum(map(len, raw.splitlines(1)[:y])) - lo
                a, b = a + delta, b + delta
                break
        else:
            shutil.rmtree(d)
            return None
    assert raw[a:b].decode() == m["old"], m
    p.write_bytes(raw[:a] + m["new"].encode() + raw[b:])
    return d


def test(m):
    d = copy(m)
    try:
        try:
            compile((d / "src/backy" / m["file"]).read_text(), m["file"], "exec")
        except SyntaxError:
            return m, "syntax"
        try:
            r = subprocess.run(
                ["setpriv", "--bounding-set", "-dac_override,-dac_read_search", "--inh-caps", "-dac_override,-dac_read_search",
                 "/opt/venv/bin/pytest", "--no-cov", "-p", "no:cacheprovider", "-q", "-x", f"--basetemp={d}/tmp", "--deselect",
                 "src/backy/cli/tests/test_main.py::test_call_unexpected_exception"], cwd=d, capture_output=True, text=True, timeout=240,
                env={**os.environ, "PYTHONPATH": f"{d}/src:/opt/vp/meta", "PYTHONDONTWRITEBYTECODE": "1"})
        except subprocess.TimeoutExpired:
            return m, "timeout"
        return m, "survived" if r.returncode == 0 else "killed " + (r.stdout.strip().splitlines() or [""])[-1][:200]
    finally:
        shutil.rmtree(d)


def kill(m):
    d = copy(m)
    if d is None:
        return {**m, "by": "gone", "why": ""}
    res = []
    try:
        for c in CHECKS[m["file"]].split():
            try:
                r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", c], cwd="/verif", capture_output=True, text=True, timeout=600,
                                   env={**os.environ, "BACKY_REPO": str(d)})
                res.append((c, r.returncode))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    return {**m, "by": c, "why": r.stdout.strip().splitlines()[-2][:300]}
                if r.returncode not in (0, 1):
                    return {**m, "by": c, "why": f"no answer {r.stderr[-300:]}"}
                if r.returncode == 1:
                    return {**m, "by": c, "why": f"crash {r.stderr[-300:]}"}
            except subprocess.TimeoutExpired:
                return {**m, "by": c, "why": "timeout"}
    finally:
        shutil.rmtree(d)
    return {**m, "by": None, "why": str(res)}


def main():
    cmd = sys.argv[1]
    OUT.mkdir(exist_ok=True)
    if cmd == "gen":
        ms = [m for f in FILES for m in mutants(f)]
        random.Random(1).shuffle(ms)
        (OUT / "mutants.json").write_text(json.dumps(ms))
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms))
    elif cmd == "test":
        ms = json.loads((OUT / "mutants.json").read_text())
        done = OUT / "tested.jsonl"
        seen = set(done.read_text().splitlines()) if done.exists() else set()
        n = len(seen)
        todo = ms[n:n + int(sys.argv[2])]
        with cf.ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 6) as ex, open(done, "a") as f:
            for m, r in ex.map(test, todo):
                f.write(json.dumps([m, r]) + "\n")
                f.flush()
    elif cmd == "kill":
        tested = [json.loads(l) for l in (OUT / "tested.jsonl").read_text().splitlines()]
        done = OUT / "killed.jsonl"
        seen = {(r["file"], r["a"], r["b"], r["new"]) for r in map(json.loads, done.read_text().splitlines())} if done.exists() else set()
        todo = [m for m, r in tested if r == "survived" and (m["file"], m["a"], m["b"], m["new"]) not in seen]
        print(len(todo), "to do", flush=True)
        with open(done, "a") as f:
            for m in todo:
                r = kill(m)
                f.write(json.dumps(r) + "\n")
                f.flush()


main()
