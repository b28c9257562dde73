"""C32: backups are incremental and deduplicated, after every history of
successful, failing and killed backups with the operations in between."""
import os
import random

import lzo
import mmh3

from .. import core, env, world
from ..core import Violation

IMAGES = {"A": b"AAAABBBBCCCC", "B": b"AAAADDDDCCCC", "Z": b"\0\0\0\0BBBBEEEEAAAA"}
DAY = 86400.0


def setup():
    env.boot(chunk=4)
    env.set_chunk(4, 1)
    world.quiet_sync()
    random.sample = lambda population, k, **kw: list(population)


def name_of(data):
    return mmh3.hash_bytes(data).hex()


def contents(image):
    return {name_of(image[i:i + 4]) for i in range(0, len(image), 4)}


class Space:
    def __init__(self, version="nautilus", always_full=False, diff_mode="extent", small=False):
        self.args = dict(version=version, diff_mode=diff_mode,
                         source_extra={"full-always": True} if always_full else None)
        self.full = always_full
        self.box = None
        faults = ["", "create", "export", "export-killed", "device", "map"]
        kills = [] if small else ["kill-early", "kill-export", "kill-map", "kill-end"]
        self.oplist = ["backup:A:", "backup:B:", "backup:Z:"]
        self.oplist += [f"backup:B:{f}" for f in (faults + kills)[1:]]
        self.oplist += ["backup:Z:export", "rm:last", "rm:first", "distrust:last", "distrust:first", "distrust:local", "verify", "snaploss:all",
                        "snaploss:newest", "expire", "gc"]
        self.oplist += ["backup:B:keep", "backup:Z:keep"]  # the old snapshots can't be removed

    def get(self):
        if self.box is None or self.box.pid != os.getpid():
            self.box = world.Box(**self.args)
            self.box.pid = os.getpid()
        self.box.activate()
        return self.box

    def init(self):
        b = self.get()
        b.set_source(IMAGES["A"])
        return [("init", (b.capture(), {}))]

    def ops(self, st, hist):
        for o in self.oplist:
            if hist and hist[-1] == o and not o.startswith("backup"):
                continue
            if not hist and not o.startswith("backup"):
                continue
            yield o

    def step(self, st, op, hist):
        b = self.get()
        snap, model = st
        b.load(snap)
        model = dict(model)  # complete revisions -> content
        kind, _, arg = op.partition(":")
        env.clock.t += 60
        what = f"{hist} {op}"
        outcome = kind
        if kind == "backup":
            img, fault = arg.split(":")
            env.clock.t += DAY
            outcome = self.backup(b, IMAGES[img], fault, model, what)
        elif kind == "snaploss":
            revs = b.revs()
            names = [s for s in b.ceph.snap_names(world.IMG)]
            names.sort(key=lambda s: str(revs.get(s.removeprefix("backy-"), {}).get("timestamp", "")))
            for s in names if arg == "all" else names[-1:]:
                b.ceph.snap_rm(world.IMG, s)
        elif kind == "rm":
            b.cli("rm", "-r", arg)
        elif kind == "distrust":
            b.cli("distrust", "-r", arg)
        elif kind == "verify":
            b.cli("verify", "-r", "all")
        elif kind == "expire":
            b.cli("gc", "--expire", "--local")
        elif kind == "gc":
            rc, _ = b.cli("gc")
            want = {h for u in b.revs() if (b.repo / u).exists() for h in b.mapping(u)["mapping"].values()}
            if rc or set(b.chunk_files()) != want:
                raise Violation("gc", f"{what}: {rc} {sorted(b.chunk_files())} want {sorted(want)}")
        have = b.complete()
        model = {u: d for u, d in model.items() if u in have}
        self.check_store(b, model, what)
        revs = b.revs()
        order = {u: i for i, u in enumerate(sorted(revs, key=lambda u: revs[u]["timestamp"]))}
        key = core.digest((
            [(order[u], d["trust"], "duration" in d["stats"], model.get(u)) for u, d in sorted(revs.items(), key=lambda x: order[x[0]])],
            [order.get(s.removeprefix("backy-"), "gone") for s in b.ceph.snap_names(world.IMG)],
            sorted(b.chunk_files())))
        return key, (b.capture(), model), outcome

    def check_store(self, b, model, what):
        """One file per content, named by it; revisions sharing content share
        the file; restoring gives the content."""
        files = b.chunk_files()
        for h, p in files.items():
            if name_of(lzo.decompress(p.read_bytes())) != h:
                raise Violation("name", f"{what}: {h} holds {lzo.decompress(p.read_bytes())}")
        for u, data in model.items():
            m = b.mapping(u)
            want = {str(i // 4): name_of(data[i:i + 4]) for i in range(0, len(data), 4)}
            got = m["mapping"]
            for k, h in want.items():
                if got.get(k, h) != h or (k not in got and data[int(k) * 4:int(k) * 4 + 4].strip(b"\0")):
                    raise Violation("not-shared", f"{what}: {u} {m} want {want}")
            if m["size"] != len(data):
                raise Violation("size", f"{what}: {u} {m} {len(data)}")

    def usable(self, b):
        """The revision the next backup is to be based on."""
        snaps = set(b.ceph.snap_names(world.IMG))
        revs = b.complete()
        for u in sorted(revs, key=lambda u: revs[u]["timestamp"], reverse=True):
            if revs[u]["trust"] != "distrusted" and f"backy-{u}" in snaps:
                return u
        return None

    def backup(self, b, image, fault, model, what):
        b.set_source(image)
        base = None if self.full else self.usable(b)
        distrusted = any(d["trust"] == "distrusted" for d in b.complete().values())
        before = {h: (p.stat().st_ino, p.stat().st_mtime_ns) for h, p in b.chunk_files().items()}
        exports = []
        killed = []

        def f(prog, argv, run):
            if prog != "rbd":
                return run()
            a = [x for x in argv[1:] if not x.startswith("--format")]
            if not killed and (
                    (fault == "kill-early" and a[:2] == ["snap", "create"])
                    or (fault == "kill-export" and a[0].startswith("export"))
                    or (fault == "kill-map" and a[0] == "map")
                    or (fault == "kill-end" and a[:2] == ["snap", "ls"])):
                killed.append(b.capture())
            if a[0].startswith("export"):
                exports.append(a)
                code, out = run()
                if fault in ("export", "export-killed"):
                    return (-9 if fault == "export-killed" else 1), out[: len(out) // 2]
                if fault == "export-late":
                    return 1, out
                return code, out
            if fault == "create" and a[:2] == ["snap", "create"]:
                return 1, b""
            if fault == "keep" and a[:2] == ["snap", "rm"]:
                return 16, b""
            if fault == "map" and a[0] == "map":
                return 6, b""
            r = run()
            if fault == "device" and a[0] == "map":
                for m in b.ceph.mappings():
                    os.unlink(m["device"])
            return r

        b.world.fault = f
        rc, u = b.backup("daily")
        b.world.fault = None
        if fault.startswith("kill-"):
            if not killed:
                raise Violation("harness", f"{what}: not killed")
            b.load(killed[0])
            b.ceph._save_mappings([])  # the machine was restarted
        elif (rc == 0) != (fault in ("", "keep")):
            raise Violation("status", f"{what}: {rc}")
        if fault != "create" and len(exports) != 1:
            raise Violation("exports", f"{what}: {exports}")
        for a in exports:
            if base is None and "--from-snap" in a:
                raise Violation("stale-base", f"{what}: {a}")
            if base is not None and (a[0] != "export-diff" or a[a.index("--from-snap") + 1] != f"backy-{base}"):
                raise Violation("not-incremental", f"{what}: {a}, should be based on {base}")
        after = {h: (p.stat().st_ino, p.stat().st_mtime_ns) for h, p in b.chunk_files().items()}
        if distrusted and rc == 0:
            # What is transferred is stored again.
            old = model.get(base, b"") if base else b""
            sent = {name_of(image[i:i + 4]) for i in range(0, len(image), 4)
                    if base is None or image[i:i + 4] != (old[i:i + 4] or bytes(4))}
            for h in sent & set(before) & set(after):
                if after[h] == before[h] and not (base is None and h == name_of(bytes(4))):
                    raise Violation("relies-on-distrusted", f"{what}: {h} is not written again")
        if not distrusted:
            if not killed:
                gone = {h for h in before if h in after and after[h] != before[h]}
                if gone:
                    raise Violation("rewritten", f"{what}: {sorted(gone)}")
            new = set(after) - set(before)
            if not fault.startswith("export") and new - contents(image):
                raise Violation("new-chunks", f"{what}: {sorted(new - contents(image))}")
            if not self.full and fault in ("", "keep") and rc == 0 and base in model:
                stored = contents(image) - contents(model[base])
                if new - stored:
                    raise Violation("new-chunks", f"{what}: {sorted(new - stored)} are in the previous revision")
        if rc == 0 and not killed:
            model[u] = image
        elif base and base in b.complete() and self.usable(b) != base:
            raise Violation("base-lost", f"{what}: the next backup can't be based on {base}: {b.ceph.snap_names(world.IMG)}")
        return f"backup/{fault}/{'full' if base is None else 'diff'}"


SPACES = {
    "nautilus": lambda: Space(),
    "luminous": lambda: Space("luminous", diff_mode="object", small=True),
    "full": lambda: Space(always_full=True, small=True),
}


def run(rep, tier):
    setup()
    plan = {"quick": {"nautilus": 4, "luminous": 3, "full": 3}, "thorough": {"nautilus": 6, "luminous": 5, "full": 5}}[tier]
    for name, depth in plan.items():
        s = SPACES[name]()
        core.bfs(rep, name, s.init(), s.ops, s.step, depth, max_states=4000 if tier == "quick" else 200000,
                 deadline={"nautilus": 60, "luminous": 90, "full": 110}[name] * (1 if tier == "quick" else 6))
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += ["chunk size reduced to 4 bytes; rbd is a stand-in"]


def replay(r):
    setup()
    s = SPACES[r["space"]]()
    (_, st), = s.init()
    h = ()
    try:
        for op in r["history"]:
            _, st, o = s.step(st, op, h)
            print(op, "->", o)
            h += (op,)
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
