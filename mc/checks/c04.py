"""C04: every answer of every source command during a backup is a choice point;
all runs with up to `bound` wrong answers are executed on the real commands."""
import os
import random

from .. import core, env, hist, world
from ..core import Violation
from . import c01

IM = {"A": b"AAAABBBBCC", "B": b"AAAAxBBBC\0\0\0DDDD", "S": b"AAA"}
SCEN = {
    # name: (images backed up before, image of the disturbed run, distrust first)
    "full": ("", "A", False),
    "incremental": ("A", "B", False),
    "shrink": ("AB", "S", False),
    "distrusted": ("A", "B", True),
}


def setup():
    env.boot(chunk=4)
    env.set_chunk(4, 1)
    world.quiet_sync()


def kinds(argv, out, tier):
    """Wrong answers of one rbd call: (label, exit code, output transform, effect?)"""
    a = argv[1]
    ks = [("exit1", 1, lambda o: b"", False), ("exit2", 2, lambda o: b"", False),
          ("killed", -9, lambda o: b"", False), ("late-exit1", 1, lambda o: o, True),
          ("late-killed", -15, lambda o: o, True), ("missing", None, None, False)]
    if a.startswith("export"):
        n = len(out)
        cuts = range(n) if tier == "thorough" or n < 24 else sorted({0, 1, 4, 8, n // 2, n - 5, n - 1, *range(12, n, 9)})
        for c in cuts:
            ks.append((f"cut{c}-exit1", 1, lambda o, c=c: o[:c], True))
            if c % 4 == 0:
                ks.append((f"cut{c}-killed", -9, lambda o, c=c: o[:c], True))
            if a == "export-diff":
                ks.append((f"cut{c}-exit0", 0, lambda o, c=c: o[:c], True))
        if a == "export-diff":
            ks.append(("garbage", 0, lambda o: b"\xff" * len(o), True))
    elif out and argv[1] != "--version":
        ks += [("cut-exit0", 0, lambda o: o[: len(o) // 2], True), ("garbage", 0, lambda o: b"\xff{", True),
               ("empty", 0, lambda o: b"", True), ("emptyobj", 0, lambda o: b"{}", True), ("emptylist", 0, lambda o: b"[]", True)]
    elif out:
        ks += [("garbage", 0, lambda o: b"no such version", True)]
    return ks


_cache = {}


def prepared(name):
    k = (os.getpid(), name)
    if k not in _cache:
        before, img, distrust = SCEN[name]
        b = world.Box()
        random.sample = lambda population, k, **kw: list(population)
        model = {}
        for i in before:
            env.clock.t += 86400
            b.set_source(IM[i])
            rc, u = b.backup("daily")
            if rc:
                raise Violation("backup-failed", f"{name}: undisturbed backup failed")
            model[u] = IM[i]
        if distrust:
            b.cli("distrust")
        b.ceph.snap_create(world.IMG, "foreign")
        b.set_source(IM[img])
        _cache[k] = b, model, b.capture()
    b, model, snap = _cache[k]
    b.activate()
    b.load(snap)
    return b, dict(model), IM[img_of(name)]


def img_of(name):
    return SCEN[name][1]


def one(name, sample, tier, ch):
    b, model, img = prepared(name)
    random.sample = (lambda population, k, **kw: list(population)) if sample else (lambda population, k, **kw: [])
    before = {u: hist.norm(d) for u, d in b.revs().items()}
    env.clock.t += 86400
    faults = []
    hit = set()

    def fault(prog, argv, run):
        if prog != "rbd":
            return run()
        snap0 = b.ceph.capture()
        code, out = run()
        ks = kinds(argv, out, tier)
        c = ch(len(ks) + 1, " ".join(argv))
        if not c:
            return code, out
        label, code, tr, effect = ks[c - 1]
        faults.append(f"{' '.join(argv[1:3])}: {label}")
        hit.add(argv[1])
        if not effect:
            b.ceph.restore_state(snap0, [world.IMG])
        if label == "missing":
            raise FileNotFoundError(2, "No such file or directory", argv[0])
        return code, tr(out)

    b.world.fault = fault
    try:
        rc, _ = b.backup("daily")
    finally:
        b.world.fault = None
    what = f"{name} sample={sample} faults={faults}"
    have = b.complete()
    new = [u for u in have if u not in model]
    if rc == 0 and not new:
        raise Violation("success-without-revision", what)
    if len(new) > 1:
        raise Violation("several-revisions", what)
    for u in model:
        # verification of a distrusted revision may mark it
        if u not in have:
            raise Violation("old-revision-lost", f"{what}: {u}")
        n, o = hist.norm(have[u]), before[u]
        if n[:3] + n[4:] != o[:3] + o[4:] or n[3] not in (o[3], "verified" if o[3] == "distrusted" else o[3]):
            raise Violation("old-revision-changed", f"{what}: {o} -> {n}")
    for u in new:
        model[u] = img
    left = [u for u in b.revs() if u not in have]
    if left:
        raise Violation("unfinished-revision-left", f"{what}: {left}")
    c01.check_restores(b, model, what)
    if b.ceph.mappings() and not hit & {"map", "showmapped", "unmap", "--version"}:
        raise Violation("still-mapped", f"{what}: {b.ceph.mappings()}")
    # unmap by hand what a failing mapping command left behind
    for m in b.ceph.mappings():
        b.ceph.cli(["unmap", m["device"]])
    env.clock.t += 86400
    img2 = b"AAAAqqqqC\0"
    b.set_source(img2)
    rc2, u = b.backup("daily")
    if rc2 or not u or u not in b.complete():
        raise Violation("next-backup-failed", f"{what}: rc={rc2}")
    model[u] = img2
    random.sample = lambda population, k, **kw: list(population)
    c01.check_restores(b, model, what + " (after the next backup)")
    return f"{name}: {'failed' if rc else 'ok'}/{'completed' if new else 'none'}"


def job(j):
    name, sample, tier, prefix, bound = j
    out = []

    def run(ch):
        out.append((1, one(name, sample, tier, ch)))

    core.explore_dfs(run, bound=bound, prefix=prefix)
    return out


def run(rep, tier):
    setup()
    bound = 1 if tier == "quick" else 2
    jobs = []
    for name in SCEN:
        for sample in (False, True):
            def probe(j):
                ch = core.Choices()
                o = one(name, sample, tier, ch)
                return 1, (o, ch.trace)

            for _, kind, val in core.pmap(probe, [0], 1):
                if kind == "violation":
                    rep.violation(val[0], val[1], {"space": "faults", "case": [name, sample, tier, [], 0]})
                    return
                trace = val[1][1]
            rep.add(transitions=1)
            for i, (label, n, _) in enumerate(trace):
                for alt in range(1, n):
                    jobs.append((name, sample, tier, [0] * i + [alt], bound))
    if tier == "thorough":
        # pairs only for one sample choice each
        jobs = [j if j[1] == (j[0] in ("full", "shrink")) else (*j[:4], 1) for j in jobs]
    core.cases(rep, "faults", job, jobs)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += [
        "a raw export that breaks off exits with a non-zero status (its output carries no length)",
        "mappings left by failing map/showmapped/unmap commands are not attributed to backy",
    ]


def replay(r):
    setup()
    name, sample, tier, prefix, bound = r["case"]
    try:
        print(job((name, sample, tier, prefix, bound)))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
