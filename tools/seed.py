#!/opt/venv/bin/python
"""seed.py SPECFILE [--nocheck]: build /verif/seeded/<id>/ from specs, confirm each in a scratch copy.

A spec (several separated by '%%%%\n'):
  id: C01-name
  property: C01
  needs: ...
  breaks: ...
  --- FILE           (below src/backy; repeated)
  old
  ===
  new
  --- demo
  python code (mc/ beside it is importable)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path("/verif")
PRE = '''"""Exit 0 if the property holds, 1 if not. Run through demo.sh."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import env

'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export BACKY_REPO="$PWD"
export PYTHONDONTWRITEBYTECODE=1
export PATH="/opt/venv/bin:$PATH"
export TZ=UTC
exec timeout 250 /opt/venv/bin/python -X utf8 "$here/demo.py"
'''
MC = ["__init__", "env", "ceph", "world", "hist", "net", "jobs"]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(d):
    r = sh(["setpriv", "--bounding-set", "-dac_override,-dac_read_search", "--inh-caps", "-dac_override,-dac_read_search",
            "/opt/venv/bin/pytest", "--no-cov", "-p", "no:cacheprovider", "-q", "-x", "--deselect",
            "src/backy/cli/tests/test_main.py::test_call_unexpected_exception"], d,
           env={**os.environ, "PYTHONPATH": f"{d}/src:/opt/vp/meta"})
    return r.returncode == 0, (r.stdout.strip().splitlines() or [""])[-1], [x for x in r.stdout.splitlines() if x.startswith("FAILED")]


def build(spec, check):
    head, *parts = re.split(r"^--- ", spec, flags=re.M)
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines())
    sid = meta["id"]
    print("==", sid, flush=True)
    d = Path(tempfile.mkdtemp(prefix="seed.", dir="/tmp"))
    try:
        shutil.copytree("/repo", d, dirs_exist_ok=True, symlinks=True)
        out = VERIF / "seeded" / sid
        demo = None
        for p in parts:
            name, body = p.split("\n", 1)
            name = name.strip()
            if name == "demo":
                demo = body
                continue
            old, new = body.split("\n===\n") if "\n===\n" in body else (body.removesuffix("===\n").rstrip("\n"), "")
            old, new = old.strip("\n"), new.strip("\n")
            f = d / "src/backy" / name
            s = f.read_text()
            if s.count(old) != 1:
                print("   ??", s.count(old), "matches:", old)
                return False
            # must change lines of the original repository
            f.write_text(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        blame_ok = False
        for hunk in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, flags=re.M):
            pass
        curfile = None
        ln = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                curfile = l[6:]
            elif l.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                b = sh(["git", "blame", "-s", "-l", "-L", f"{ln},{ln}", "HEAD", "--", curfile], d).stdout
                base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], d).stdout.strip()
                orig = b.startswith("^") or b.startswith(base)
                blame_ok |= orig
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if not blame_ok:
            print("   !! changes no original line")
        if out.exists():
            shutil.rmtree(out)
        (out / "mc").mkdir(parents=True)
        for m in MC:
            shutil.copy(VERIF / "mc" / f"{m}.py", out / "mc" / f"{m}.py")
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(PRE + demo)
        (out / "demo.sh").write_text(SH)
        (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(json.dumps(
            {"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, indent=1) + "\n")
        env_ = {k: v for k, v in os.environ.items() if k != "BACKY_REPO"}
        with tempfile.TemporaryDirectory(prefix="seeddemo.", dir="/tmp") as t:
            shutil.copytree(out, Path(t) / "x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            good = sh(["bash", f"{t}/x/demo.sh"], "/repo", env=env_)
            bad = sh(["bash", f"{t}/x/demo.sh"], d, env=env_)
        ok, last, failed = tests(d)
        print("   blame", blame_ok, "| demo clean", good.returncode, "patched", bad.returncode, "| tests", ok, last[:60], failed[:1])
        if good.returncode:
            print(good.stdout[-600:], good.stderr[-800:])
        else:
            print("   ", (bad.stderr.strip().splitlines() or ["-"])[-1][:160])
        good_ = blame_ok and good.returncode == 0 and bad.returncode != 0 and ok
        if check:
            props = [meta["property"]] + [c for c in meta.get("also", "").split(",") if c]
            for c in props:
                r = sh(["/opt/venv/bin/python", "/verif/run.py", c], "/verif", env={**os.environ, "BACKY_REPO": str(d)})
                v = [x for x in r.stdout.splitlines() if x.startswith("  ")] or [r.stderr[-300:]]
                print("   ", c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", v[0][:200], flush=True)
        if not good_:
            shutil.rmtree(out)
            print("   !! NOT KEPT")
        return good_
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    import concurrent.futures as cf
    import contextlib
    import io

    specs = [s for s in Path(sys.argv[1]).read_text().split("%%%%\n") if s.strip()]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    if only:
        specs = [s for s in specs if any(f"id: {o}" in s for o in only)]
    if len(specs) == 1:
        build(specs[0], "--nocheck" not in sys.argv)
        sys.exit()

    def one(s):
        with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
            f.write(s)
            f.flush()
            print(sh([sys.argv[0], f.name, *[a for a in sys.argv[2:] if a.startswith("-")]], "/verif").stdout, end="", flush=True)

    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(one, specs))
