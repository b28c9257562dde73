#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.pop("PYTHONPATH", None)
    os.execv(sys.executable, [sys.executable, "-X", "utf8"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(HERE, "build", "shim.so")
if any(a.upper() in ("C05", "C06", "C08", "C09", "C21", "C23", "C28") for a in sys.argv[1:2]) and "MC_SHIM" not in os.environ:
    import subprocess

    src = os.path.join(HERE, "mc", "shim.c")
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        subprocess.run(["bash", os.path.join(HERE, "setup.sh")], check=True)
    os.environ["MC_SHIM"] = "1"
    os.environ["LD_PRELOAD"] = SHIM
    os.execv(sys.executable, [sys.executable, "-X", "utf8"] + sys.argv)
os.environ.pop("LD_PRELOAD", None)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    from mc import core

    mod = importlib.import_module(f"mc.checks.{a.property.lower()}")
    if a.replay:
        import json

        with open(a.replay) as f:
            r = json.load(f)["replay"]
        if r.get("case", 0) is None:  # found while preparing
            try:
                mod.run(core.Report(a.property, a.tier), a.tier)
            except core.Violation as v:
                print("VIOLATION reproduced:", v)
                sys.exit(1)
            sys.exit(0)
        sys.exit(mod.replay(r))
    rep = core.Report(a.property, a.tier)
    try:
        mod.run(rep, a.tier)
    except core.Violation as v:
        rep.violation(v.key, v.detail, {"case": None})
    sys.stdout.flush()
    rc = rep.finish()
    sys.stdout.flush()
    sys.exit(rc)


main()
