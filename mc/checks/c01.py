"""C01: restoring a completed backup reproduces the source byte for byte, for
every operation history up to a depth (explicit-state search over the real
commands, fake Ceph, tiny chunks), plus a stratum at the real chunk size."""
import os
import random
import sys

from .. import core, env, world
from ..core import Violation

CHUNK = 4
IMAGES = {
    "A": b"AAAABBBB",
    "B": b"AAAACCCC",
    "H": b"AAAA\0\0\0\0CC",
    "S": b"AAA",
    "L": b"BBBBAAAAxBBBB\0\0\0",
    "Z": b"\0\0\0\0\0\0",
}
DAY = 86400.0


def setup(chunk=CHUNK, ft=1):
    env.boot(chunk=chunk)
    env.set_chunk(chunk, ft)
    world.quiet_sync()
    random.sample = lambda population, k, **kw: list(population)


def raw_restore(box, uuid, pre=None, stdout=False):
    """Restore through the source helper's command line."""
    t = box.root / "restored"
    if pre is None:
        t.unlink(missing_ok=True)
    else:
        t.write_bytes(pre)
    prog = "backy-" + box.typ
    args = [prog, "-C", str(box.repo), "restore", uuid]
    if box.typ == "rbd":
        args += ["--backend", "python"]
    if stdout:
        fd = os.open(box.root / "stdout", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        save = os.dup(1)
        sys.stdout.flush()
        os.dup2(fd, 1)
        try:
            rc, _ = box.world.spawn([*args, "-"])
        finally:
            os.dup2(save, 1)
            os.close(save)
            os.close(fd)
        return rc, (box.root / "stdout").read_bytes()
    rc, _ = box.world.spawn([*args, str(t)])
    return rc, t.read_bytes() if t.exists() else None


def check_restores(box, model, what):
    for n, (u, want) in enumerate(model.items()):
        last = n == len(model) - 1
        pre = [None, b"", b"previous content, longer than the image" * 2][n % 3]
        rc, got = raw_restore(box, u, pre)
        if rc != 0 or got != want:
            raise Violation("restore-differs", f"{what}: revision #{n} rc={rc} got={got!r:.120} want={want!r:.120}")
        if last and box.typ == "rbd":
            rc, got = raw_restore(box, u, stdout=True)
            if rc != 0 or got != want:
                raise Violation("restore-stdout-differs", f"{what}: rc={rc} got={got!r:.120} want={want!r:.120}")


class Space:
    def __init__(self, typ="rbd", images="ABHSLZ", diff_mode="extent", version="nautilus", obj=4, extra=(), always_full=False):
        self.args = dict(typ=typ, diff_mode=diff_mode, version=version, obj=obj,
                         source_extra={"full-always": True} if always_full else None)
        self.images = images
        self.typ = typ
        self.oplist = [f"backup:{i}" for i in images] + ["rm:first", "rm:last", "gc", "expire"]
        if typ == "rbd":
            self.oplist += ["distrust", "distrust:last", "verify", "snaploss", "failing:A"]
        self.oplist += list(extra)
        self.box = None

    def get(self):
        if self.box is None or self.box.pid != os.getpid():
            self.box = world.Box(**self.args)
            self.box.pid = os.getpid()
        self.box.activate()
        return self.box

    def init(self):
        b = self.get()
        b.set_source(IMAGES["A"])
        return [("init", (b.capture(), {}, 0))]

    def ops(self, st, hist):
        _, model, _ = st
        out = []
        for o in self.oplist:
            if not model and not o.startswith(("backup", "failing")):
                continue
            if o == "rm:last" and len(model) < 2:
                continue
            if o == "snaploss" and not st[0][1]:
                continue
            if hist and hist[-1] == o and not o.startswith("backup"):
                continue  # repeating it is a no-op on the checked state
            out.append(o)
        return out

    def step(self, st, op, hist):
        b = self.get()
        snap, model, n = st
        b.load(snap)
        model = dict(model)
        kind, _, arg = op.partition(":")
        env.clock.t += 60
        if kind == "backup":
            env.clock.t += DAY
            b.set_source(IMAGES[arg])
            rc, u = b.backup("daily")
            if rc != 0 or not u or u not in b.complete():
                raise Violation("backup-failed", f"{hist} {op}: rc={rc} uuid={u}")
            model[u] = IMAGES[arg]
        elif kind == "failing":
            # the full or incremental export breaks off: the run must fail
            b.set_source(IMAGES["L"])

            def fault(prog, argv, run):
                code, out = run()
                if prog == "rbd" and argv[1].startswith("export"):
                    return 1, out[: len(out) // 2]
                return code, out

            b.world.fault = fault
            env.clock.t += DAY
            b.cli("backup", "daily")
            b.world.fault = None
            for u in b.complete():
                if u not in model:
                    rc, got = raw_restore(b, u)
                    if rc or got != IMAGES["L"]:
                        raise Violation("broken-export-completed", f"{hist} {op}: rc={rc} got={got!r}")
                    model[u] = got
        elif kind == "rm":
            u = list(model)[0 if arg == "first" else -1]
            b.cli("rm", "-r", u)
            del model[u]
        elif kind == "gc":
            rc, _ = b.cli("gc")
            if rc:
                raise Violation("gc-failed", f"{hist} {op}: rc={rc}")
        elif kind == "expire":
            b.cli("gc", "--expire", "--local")
            have = b.complete()
            gone = [u for u in model if u not in have]
            if len(model) - len(gone) < min(len(model), 2):
                raise Violation("expired-too-much", f"{hist} {op}: {len(model)} -> {len(model) - len(gone)}")
            for u in gone:
                del model[u]
        elif kind == "distrust":
            b.cli("distrust", "-r", arg or "local")
        elif kind == "verify":
            b.cli("verify", "-r", "all")
        elif kind == "snaploss":
            for s in b.ceph.snap_names(world.IMG):
                b.ceph.snap_rm(world.IMG, s)
        have = b.complete()
        if set(have) != set(model):
            raise Violation("revisions-differ", f"{hist} {op}: have {sorted(have)} want {sorted(model)}")
        check_restores(b, model, f"{hist} {op}")
        return self.key(b, model), (b.capture(), model, n + 1), f"{kind}/{len(model)}"

    def key(self, b, model):
        order = {u: i for i, u in enumerate(model)}
        now = env.clock.now()
        revs = [
            (order.get(u, "x"), tuple(sorted(d["tags"])), d["trust"],
             round((now - d["timestamp"]).total_seconds() / DAY))
            for u, d in b.revs().items()
        ]
        maps = []
        files = []
        for p in sorted(b.repo.iterdir()):
            if p.is_file() and p.name in order:
                maps.append((order[p.name], p.read_bytes()))
            elif p.is_file() and len(p.name) == 22:
                files.append(p.read_bytes())
        chunks = sorted(b.chunk_files())
        snaps = [order.get(s.removeprefix("backy-"), s if not s.startswith("backy-") else "x")
                 for s in b.ceph.snap_names(world.IMG)] if b.typ == "rbd" else []
        return core.digest((sorted(map(str, revs)), maps, sorted(files), chunks, snaps, list(model.values()), b.source()))


SPACES = {
    "rbd-extent": lambda: Space(),
    "rbd-object": lambda: Space(images="AHL", diff_mode="object", version="luminous", obj=8),
    "rbd-data": lambda: Space(images="AHLS", diff_mode="data", version="jewel", obj=4),
    "rbd-full": lambda: Space(images="AHS", always_full=True),
    "file": lambda: Space(typ="file", images="AHSZ"),
}

M = 4 * 1024 * 1024


def big_images():
    A, B = b"a" * M, os.urandom(0) + bytes(range(256)) * (M // 256)
    Z = bytes(M)
    return {
        "AB": A + B, "ABt": A + B + b"t", "AZB": A + Z + B, "BA": B + A, "A-": A[:-1],
        "AxZ": A[: M // 2] + b"x" * 5 + A[M // 2 + 5 :] + Z[:7],
        "ZZB": Z + Z + B, "AAA": A * 3,
    }


def big_case(job):
    """full backup of X, incremental to Y and back, at the real chunk size"""
    x, y, mode = job
    setup(M, 1)
    imgs = big_images()
    b = world.Box(diff_mode=mode.rstrip("2"), obj=2 * M if mode.endswith("2") else M)
    try:
        model = {}
        for i in (x, y, x):
            env.clock.t += DAY
            b.set_source(imgs[i])
            rc, u = b.backup("daily")
            if rc or not u:
                raise Violation("backup-failed", f"real chunk size {job} {i}: rc={rc}")
            model[u] = imgs[i]
            for n, (u, want) in enumerate(model.items()):
                rc, got = raw_restore(b, u, [None, b"y" * (3 * M + 5)][n % 2])
                if rc or got != want:
                    raise Violation("restore-differs", f"real chunk size {job} revision #{n}: rc={rc}")
        return 3, "big-ok"
    finally:
        b.close()


def run(rep, tier):
    setup()
    depth = {"rbd-extent": 3, "rbd-object": 3, "rbd-data": 3, "rbd-full": 3, "file": 4}
    if tier == "thorough":
        depth = {"rbd-extent": 5, "rbd-object": 5, "rbd-data": 4, "rbd-full": 4, "file": 6}
    for name, mk in SPACES.items():
        s = mk()
        core.bfs(rep, name, s.init(), s.ops, s.step, depth[name],
                 max_states=None if tier == "quick" else 60000)
    pairs = [(x, y, m) for m in ("extent", "object") for x in big_images() for y in big_images() if x != y]
    if tier == "quick":
        pairs = [p for i, p in enumerate(pairs) if p[2] == ("extent" if i % 2 else "object")]
    # extents larger than a chunk
    pairs += [("ZZB", "AAA", "object2"), ("AAA", "ZZB", "object2"), ("AB", "AZB", "object2"), ("ABt", "ZZB", "object2")]
    core.cases(rep, "real-chunk-size", big_case, pairs)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += [
        "rbd is a stand-in producing well-formed v1 diffs; every transition runs the real backy commands in process",
        "chunk size reduced to 4 bytes except in the real-chunk-size space",
    ]


def replay(r):
    setup()
    s = SPACES[r["space"]]() if r["space"] in SPACES else None
    if s is None:
        print(big_case(tuple(r["case"])))
        return 0
    st = s.init()[0][1]
    try:
        for i, op in enumerate(r["history"]):
            _, st, o = s.step(st, op, tuple(r["history"][:i]))
            print(op, o)
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
