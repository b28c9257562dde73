#!/opt/venv/bin/python
"""mut.py FILE CHECKS [-t] <<< 'old\n===\nnew' (several separated by ######):
run checks against scratch copies of /repo with one text replacement each; -t
also runs the test suite."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

f, checks = sys.argv[1], sys.argv[2].split(",")
tests = "-t" in sys.argv
for m in sys.stdin.read().split("######\n"):
    old, new = m.split("\n===\n")
    old = old.strip("\n")
    new = new.strip("\n")
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree("/repo", d, dirs_exist_ok=True, symlinks=True)
        p = os.path.join(d, "src/backy", f)
        s = open(p).read()
        if s.count(old) != 1:
            print("??", s.count(old), "matches:", old)
            continue
        open(p, "w").write(s.replace(old, new))
        print("==", old.strip().replace("\n", "\\n")[:80], "->", new.strip().replace("\n", "\\n")[:80], flush=True)
        if tests:
            r = subprocess.run(
                ["setpriv", "--bounding-set", "-dac_override,-dac_read_search", "--inh-caps", "-dac_override,-dac_read_search",
                 "/opt/venv/bin/pytest", "--no-cov", "-p", "no:cacheprovider", "-q", "-x", "--deselect",
                 "src/backy/cli/tests/test_main.py::test_call_unexpected_exception"], cwd=d, capture_output=True, text=True,
                env={**os.environ, "PYTHONPATH": f"{d}/src:/opt/vp/meta"})
            print("   tests:", r.stdout.strip().splitlines()[-1][:150], [x for x in r.stdout.splitlines() if x.startswith("FAILED")][:1], flush=True)
        for c in checks:
            r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", c], capture_output=True, text=True,
                               env={**os.environ, "BACKY_REPO": d})
            out = r.stdout.strip().splitlines()
            v = [x for x in out if x.startswith("  ")]
            print("  ", c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", (v or [r.stderr[-200:]])[0][:220], flush=True)
    finally:
        shutil.rmtree(d)
