"""C27: the status check and the daemon's status list for every bounded
history, against an independent reference."""
import itertools
import os

import yaml

from .. import core, env, hist, world
from ..core import Violation

H, DAY = 3600.0, 86400.0
SCHEDULES = {
    "d": ({"daily": {"interval": "1d", "keep": 2}}, DAY),
    "dw": ({"weekly": {"interval": "7d", "keep": 2}, "daily": {"interval": "1d", "keep": 2}}, DAY),
    "h": ({"a": {"interval": "90m", "keep": 1}, "b": {"interval": "3h", "keep": 1}}, 1.5 * H),
    "ld": ({"a": {"interval": "7d", "keep": 2}, "b": {"interval": "1d", "keep": 2}, "c": {"interval": "30d", "keep": 1}}, DAY),
}
NOW = 50 * DAY
KIND = {"c": (True, ""), "i": (False, ""), "r": (True, "other"), "x": (False, "other")}
_env = {}


def setup():
    env.boot()


def daemon_for(sched):
    k = (os.getpid(), sched)
    if k not in _env:
        from backy.daemon import BackyDaemon

        root = env.fresh_dir("c27")
        base = root / "base"
        base.mkdir()
        conf = {"global": {"base-dir": str(base)}, "schedules": {"s": SCHEDULES[sched][0]},
                "jobs": {"job": {"source": {"type": "file", "filename": "/nonexistent"}, "schedule": "s"}}}
        (root / "conf").write_text(yaml.safe_dump(conf))
        d = BackyDaemon(root / "conf", env.log())
        d._read_config()
        from backy.daemon.scheduler import Job

        d.jobs["job"] = j = Job(d, "job", env.log())
        j.configure(conf["jobs"]["job"])
        _env[k] = d, base / "job"
    return _env[k]


def one(sched, revs, reports):
    d, path = daemon_for(sched)
    hist.clear_revs(path)
    q = path / "quarantine"
    for e in list(os.scandir(q)):
        if e.name.endswith(".report"):
            os.unlink(e.path)
    for i, (age, kind, tags) in enumerate(revs):
        hist.write_rev(path, hist.uuid_of(i), NOW - age, tags, clean=KIND[kind][0], server=KIND[kind][1],
                       orig=tags if KIND[kind][1] else ())
    for i in range(reports):
        (q / f"{hist.uuid_of(i, 'p')}.report").write_text("uuid: x\n")
    env.clock.t = NOW
    what = f"{sched} {revs} reports={reports}"
    rc, _ = world.run_cli(["-C", str(path), "check"])
    clean = [age for age, kind, _ in revs if KIND[kind][0]]
    limit = 1.5 * SCHEDULES[sched][1]
    over = bool(clean) and min(clean) > limit
    want = 2 if over else 1 if reports else 0
    if rc != want:
        raise Violation("check-status", f"{what}: exit status {rc}, want {want}")
    st = d.status()
    if len(st) != 1:
        raise Violation("status-jobs", f"{what}: {st}")
    st = st[0]
    if (st["sla"] == "OK") != (not over) or bool(st["sla_overdue"]) != over:
        raise Violation("status-sla", f"{what}: {st['sla']} {st['sla_overdue']}, want overdue={over}")
    if over and abs(float(st["sla_overdue"]) - min(clean)) > 1:
        raise Violation("status-overdue", f"{what}: {st['sla_overdue']}")
    if bool(st["problem_reports"]) != bool(reports):
        raise Violation("status-reports", f"{what}: {st['problem_reports']}")
    last = st["last_time"]
    if (last is None) != (not clean) or (clean and abs((env.clock.now() - last).total_seconds() - min(clean)) > 0.01):
        raise Violation("status-last", f"{what}: {last}")
    local = sum(1 for _, k, _ in revs if k == "c")
    if st["local_revs"] != local:
        raise Violation("status-local", f"{what}: {st['local_revs']}, want {local}")
    return f"{want}/{len(revs)}/{len(clean)}"


def job(j):
    sched, ages, tier = j
    out = {}
    for kinds in itertools.product("cirx", repeat=len(ages)):
        for reports in (0, 1, 2) if len(ages) < 3 else (0, 1):
            revs = [(a, k, t) for a, k, t in zip(ages, kinds, itertools.cycle([["daily"], ["manual:a"], ["weekly", "daily"]]))]
            o = one(sched, revs, reports)
            out[o] = out.get(o, 0) + 1
    return [(n, o) for o, n in out.items()]


def run(rep, tier):
    setup()
    js = []
    for sched, (_, short) in SCHEDULES.items():
        ages = [5 * short, 1.5 * short + 60, 1.5 * short + 1, 1.5 * short - 1, 1.5 * short - 60, 1.2 * short, short, 0.3 * short]
        for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            for a in itertools.combinations(ages, n):
                js.append((sched, a, tier))
        for a in itertools.combinations(ages[::2], 3):
            js.append((sched, a, tier))
    core.cases(rep, "histories", job, js)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += ["ages at least one second away from the limit"]


def replay(r):
    setup()
    try:
        job(tuple(r["case"]))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
