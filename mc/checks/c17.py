"""C17: tag edits, all combinations of current tags, expectation, action, new
tags, selection and flags, on the command line and through HTTP."""
import asyncio
import itertools
import os

from .. import core, env, hist, net, world
from ..core import Violation

SCHED = {"daily": {"interval": "1d", "keep": 2}, "weekly": {"interval": "7d", "keep": 2}}
CUR = [("daily",), ("daily", "manual:a"), ("manual:a",), ()]
NEW = [("daily",), ("manual:b",), ("daily", "manual:a"), ("unknown",), ("weekly", "unknown")]
EXP = [None, ("daily",), ("daily", "manual:a"), ("manual:a",)]
SEL = ["0", "1", "all", "local", "first,last", "tag:daily", "U0", "nosuch"]
_env = {}


def setup():
    env.boot()


def box():
    if os.getpid() not in _env:
        _env[os.getpid()] = world.Box(typ="file", schedule=SCHED)
    return _env[os.getpid()]


U = [hist.uuid_of(0), hist.uuid_of(1), hist.uuid_of(2)]


def write(path, cur):
    hist.clear_revs(path)
    for i, tags in enumerate(cur):
        hist.write_rev(path, U[i], 1000.0 * i, tags, extra_stats={"n": i}, trust=("trusted", "verified", "distrusted")[i])


def selected(sel, cur):
    n = len(cur)
    if sel == "U0":
        return [0]
    if sel.isdigit():
        return [n - 1 - int(sel)] if int(sel) < n else None
    if sel in ("all", "local"):
        return list(range(n))
    if sel == "first,last":
        return [0, n - 1]
    if sel == "tag:daily":
        return [i for i in range(n) if "daily" in cur[i]]
    return None


def model(cur, sel, action, tags, expect, force, autoremove):
    """-> (success, list of tag sets or None if removed)"""
    idx = selected(sel, cur)
    same = [set(c) for c in cur]
    tags = set(tags)
    if idx is None:
        return False, same
    if action != "remove" and not force and any(not t.startswith("manual:") and t not in SCHED for t in tags):
        return False, same
    if expect is not None and any(set(cur[i]) != set(expect) for i in idx):
        return False, same
    out = list(same)
    for i in set(idx):
        t = {"set": tags, "add": same[i] | tags, "remove": same[i] - tags}[action]
        out[i] = None if not t and autoremove else t
    return True, out


def compare(path, what, ok, want, before, rc_ok):
    after = hist.read_revs(path)
    if ok != rc_ok:
        raise Violation("status", f"{what}: reported {'success' if rc_ok else 'failure'}, want {'success' if ok else 'failure'}")
    for i, w in enumerate(want):
        a = after.get(U[i])
        if w is None:
            if a:
                raise Violation("not-removed", f"{what}: revision {i} still has {a['tags']}")
            continue
        if a is None:
            raise Violation("removed", f"{what}: revision {i} is gone")
        if set(a["tags"]) != w:
            raise Violation("tags", f"{what}: revision {i} has {sorted(a['tags'])}, want {sorted(w)}")
        x, y = hist.norm(a), hist.norm(before[U[i]])
        if x[:4] + x[5:] != y[:4] + y[5:]:
            raise Violation("other-metadata", f"{what}: revision {i} {y} -> {x}")
    if len(after) != sum(w is not None for w in want):
        raise Violation("extra", what)


def cli_job(j):
    cur, action, tier = j
    b = box()
    out = {}
    for tags, expect, sel, force, auto in itertools.product(NEW, EXP, SEL, (False, True), (False, True)):
        write(b.repo, cur)
        before = hist.read_revs(b.repo)
        args = ["tags", action, "-r", U[0] if sel == "U0" else sel, ",".join(tags)]
        if force:
            args.append("-f")
        if auto:
            args.append("--autoremove")
        if expect is not None:
            args += ["--expect", ",".join(expect)]
        what = f"current={cur} {' '.join(args)}"
        rc, _ = b.cli(*args)
        ok, want = model(cur, sel, action, tags, expect, force, auto)
        compare(b.repo, what, ok, want, before, rc == 0)
        out[f"cli/{action}/{ok}"] = out.get(f"cli/{action}/{ok}", 0) + 1
    return [(n, o) for o, n in out.items()]


def http_job(j):
    cur, tier = j
    srv = net.server_env("c17", dead=["job"], schedule=SCHED)
    path = srv.base / "job"
    out = {}
    for old, new, sel, auto in itertools.product(CUR, [*NEW, ()], SEL, (False, True)):
        write(path, cur)
        before = hist.read_revs(path)
        spec = U[0] if sel == "U0" else sel
        what = f"current={cur} PUT {spec} old={old} new={new} autoremove={auto}"
        st, _ = srv.request("PUT", f"/v1/backups/job/revs/{spec}/tags?autoremove={int(auto)}",
                            json={"old_tags": list(old), "new_tags": list(new)})
        ok, want = model(cur, sel, "set", new, old, True, auto)
        compare(path, what, ok, want, before, 200 <= st < 300)
        if not ok and st not in ((404,) if selected(sel, cur) is None else (412,)):
            raise Violation("http-status", f"{what}: {st}")
        out[f"http/{st}"] = out.get(f"http/{st}", 0) + 1
    for body in ({}, {"old_tags": []}, {"new_tags": ["x"]}):
        write(path, cur)
        before = hist.read_revs(path)
        st, _ = srv.request("PUT", "/v1/backups/job/revs/all/tags", json=body)
        compare(path, f"PUT {body}", False, [set(c) for c in cur], before, 200 <= st < 300)
    return [(n, o) for o, n in out.items()]


def run(rep, tier):
    setup()
    curs = list(itertools.product(CUR, repeat=2))
    if tier == "thorough":
        curs += list(itertools.product(CUR, repeat=3))
    else:
        curs = [c for c in curs if c[0] != c[1] or c[0] in (CUR[0], CUR[1])] + [(CUR[0], CUR[0], CUR[1])]
    core.cases(rep, "cli", cli_job, [(c, a, tier) for c in curs for a in ("set", "add", "remove")])
    core.cases(rep, "http", http_job, [(c, tier) for c in curs])
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]


def replay(r):
    setup()
    c = r["case"]
    cur = tuple(tuple(x) for x in c[0])
    try:
        if r["space"] == "cli":
            cli_job((cur, c[1], c[2]))
        else:
            http_job((cur, c[1]))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
