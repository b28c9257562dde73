"""C25: snapshots and mappings on the image after every history of successful
and failing backups, with foreign snapshots and failing snapshot removals."""
import os
import random

from .. import core, env, world
from ..core import Violation

IMAGES = {"A": b"AAAABBBB", "B": b"AAAACCCCD"}
DAY = 86400.0
FOREIGN = ["foreign", "xbacky-1", "Backy-2"]


def setup():
    env.boot(chunk=4)
    env.set_chunk(4, 1)
    world.quiet_sync()
    random.sample = lambda population, k, **kw: list(population)


class Space:
    def __init__(self, version="nautilus", always_full=False):
        self.args = dict(version=version, source_extra={"full-always": True} if always_full else None)
        self.full = always_full
        self.box = None
        self.oplist = [
            "backup:A:", "backup:B:", "backup:A:rm-all", "backup:B:rm-first", "backup:B:rm-last", "backup:B:rm-killed",
            "backup:B:export", "backup:A:export-killed", "backup:B:create", "backup:B:mismatch", "backup:B:info",
            "backup:A:device",
            "foreign:0", "foreign:1", "foreign:2", "snaploss", "rm:last", "rm:first", "distrust", "expire",
        ]

    def get(self):
        if self.box is None or self.box.pid != os.getpid():
            self.box = world.Box(**self.args)
            self.box.pid = os.getpid()
        self.box.activate()
        return self.box

    def init(self):
        b = self.get()
        b.set_source(IMAGES["A"])
        return [("init", b.capture())]

    def ops(self, st, hist):
        out = []
        for o in self.oplist:
            if hist and hist[-1] == o and not o.startswith("backup"):
                continue
            if not hist and o.startswith(("snaploss", "rm", "distrust", "expire")):
                continue
            out.append(o)
        return out

    def step(self, st, op, hist):
        b = self.get()
        b.load(st)
        kind, _, arg = op.partition(":")
        env.clock.t += 60
        outcome = kind
        foreign = {s: b.ceph.snap_data(world.IMG, s) for s in b.ceph.snap_names(world.IMG) if not s.startswith("backy-")}
        what = f"{hist} {op}"
        if kind == "foreign":
            n = FOREIGN[int(arg)]
            if not b.ceph.snap_path(world.IMG, n):
                b.ceph.snap_create(world.IMG, n)
                foreign[n] = b.source()
        elif kind == "snaploss":
            for s in b.ceph.snap_names(world.IMG):
                if s.startswith("backy-"):
                    b.ceph.snap_rm(world.IMG, s)
        elif kind == "rm":
            b.cli("rm", "-r", arg)
        elif kind == "distrust":
            b.cli("distrust", "-r", "local")
        elif kind == "expire":
            b.cli("gc", "--expire", "--local")
        else:
            img, fault = arg.split(":")
            env.clock.t += DAY
            b.set_source(IMAGES[img])
            rms = []
            kept = set()
            nrm = len([s for s in b.ceph.snap_names(world.IMG) if s.startswith("backy-")])

            def f(prog, argv, run):
                if prog != "rbd":
                    return run()
                a = argv[1:]
                if a[:2] == ["snap", "rm"]:
                    rms.append(a[2])
                    if a[2].partition("@")[2] not in foreign and (
                            fault in ("rm-all", "rm-killed") or (fault == "rm-first" and len(rms) == 1)
                            or (fault == "rm-last" and len(rms) == nrm)):
                        kept.add(a[2].partition("@")[2])
                        return (-9 if fault == "rm-killed" else 16), b""
                if fault.startswith("export") and a[0].startswith("export"):
                    code, out = run()
                    return (-9 if fault == "export-killed" else 1), out[: len(out) // 2]
                if fault == "create" and a[:2] == ["snap", "create"]:
                    return 1, b""
                if fault == "info" and a[0] == "info":
                    return 1, b""
                r = run()
                if fault == "mismatch" and a[0] == "map":
                    for m in b.ceph.mappings():
                        open(m["device"], "r+b").write(b"?")
                if fault == "device" and a[0] == "map":  # e.g. no device node (yet)
                    for m in b.ceph.mappings():
                        os.unlink(m["device"])
                return r

            b.world.fault = f
            rc, u = b.backup("daily")
            b.world.fault = None
            ok = rc == 0
            outcome = f"backup/{fault}/{ok}"
            if ok != (fault in ("", "rm-all", "rm-first", "rm-last", "rm-killed")):
                raise Violation("status", f"{what}: exit status {rc}")
            if ok:
                if u not in b.complete():
                    raise Violation("incomplete", what)
                mine = {s for s in b.ceph.snap_names(world.IMG) if s.startswith("backy-")}
                want = (set() if self.full else {f"backy-{u}"}) | kept
                if mine != want:
                    raise Violation("snapshots", f"{what}: left {sorted(mine)}, want {sorted(want)}")
                rc, data = b.restore(u)
                if rc or data != IMAGES[img]:
                    raise Violation("content", f"{what}: {rc} {data}")
        now = {s: b.ceph.snap_data(world.IMG, s) for s in b.ceph.snap_names(world.IMG) if not s.startswith("backy-")}
        if now != foreign:
            raise Violation("foreign", f"{what}: {sorted(foreign)} -> {sorted(now)}")
        if b.ceph.mappings():
            raise Violation("mapped", f"{what}: {b.ceph.mappings()}")
        revs = b.revs()
        order = {u: i for i, u in enumerate(sorted(revs, key=lambda u: revs[u]["timestamp"]))}
        key = core.digest((
            [(order[u], d["trust"], "duration" in d["stats"]) for u, d in sorted(revs.items(), key=lambda x: order[x[0]])],
            [order.get(s.removeprefix("backy-"), "gone" if s.startswith("backy-") else s) for s in b.ceph.snap_names(world.IMG)],
            b.source(), len(b.chunk_files())))
        return key, b.capture(), outcome


SPACES = {
    "nautilus": lambda: Space(),
    "luminous": lambda: Space("luminous"),
    "full": lambda: Space(always_full=True),
}


def run(rep, tier):
    setup()
    plan = {"quick": {"nautilus": 4, "luminous": 2, "full": 3}, "thorough": {"nautilus": 6, "luminous": 4, "full": 5}}[tier]
    for name, depth in plan.items():
        s = SPACES[name]()
        core.bfs(rep, name, s.init(), s.ops, s.step, depth, max_states=4000 if tier == "quick" else 200000,
                 deadline=60 if tier == "quick" else 3000)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]


def replay(r):
    setup()
    s = SPACES[r["space"]]()
    (_, st), = s.init()
    h = ()
    try:
        for op in r["history"]:
            _, st, o = s.step(st, op, h)
            print(op, "->", o)
            h += (op,)
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
