"""C03: diff streams. Every bounded well-formed stream is applied by the real
parser to a real image and compared with a byte array; every truncation and
every structural corruption of representative streams must fail the backup."""
import io
import itertools
import os
import random
import struct

from .. import ceph, core, env, world
from ..core import Violation

DATA = b"abcdefghijklmnopqrstuvwxyz"
OLD = {n: bytes(65 + i for i in range(n)) for n in range(0, 17)}


def rec(kind, off, ln):
    if kind == "z":
        return b"z" + struct.pack("<QQ", off, ln)
    return b"w" + struct.pack("<QQ", off, ln) + DATA[:ln]


def stream(old, new, size, extents, order="fts"):
    parts = {"f": ceph.rec_str(b"f", old), "t": ceph.rec_str(b"t", new), "s": b"s" + struct.pack("<Q", size)}
    return b"rbd diff v1\n" + b"".join(parts[c] for c in order) + b"".join(rec(*e) for e in extents) + b"e"


def expected(old, size, extents):
    m = bytearray(old[:size].ljust(size, b"\0"))
    for k, off, ln in extents:
        m[off : off + ln] = DATA[:ln] if k == "w" else bytes(ln)
    return bytes(m)


def setup(ft=1):
    env.boot(chunk=4)
    env.set_chunk(4, ft)
    world.quiet_sync()


_st = {}


def apply_case(job):
    """All extent lists of one shape: (old size, new size, first extents, n more, grid)"""
    osz, nsz, first, rest, ft = job
    from backy.rbd.chunked import File, Store
    from backy.rbd.rbd import RBDDiffV1

    env.set_chunk(4, ft)
    d = env.scratch_root() / f"c03.{os.getpid()}"
    if d not in _st:
        d.mkdir(exist_ok=True)
        _st[d] = Store(d / "chunks", env.log())
        import copy

        for n, b in OLD.items():
            with File(d / f"old{n}", copy.deepcopy(_st[d]), "rw") as f:
                f.write(b)
            if not n:
                (d / "old0").write_text('{"mapping": {}, "size": 0}')
    import copy

    n = 0
    for ext in itertools.product(*rest):
        exts = [e for e in (*first, *ext) if e]
        (d / "img").write_bytes((d / f"old{osz}").read_bytes())
        try:
            # the mode used for backups
            with File(d / "img", copy.deepcopy(_st[d]), "wb") as f:
                order = ("fts", "tfs", "sft")[n % 3]
                RBDDiffV1(io.BufferedReader(io.BytesIO(stream("a", "b", nsz, exts, order)))).integrate(f, "a", "b")
            with File(d / "img", copy.deepcopy(_st[d]), "rb") as f:
                got = f.read()
        except Exception as e:
            raise Violation("apply-raised", f"old={osz} new={nsz} {exts}: {type(e).__name__} {e}")
        if got != expected(OLD[osz], nsz, exts):
            raise Violation("apply-differs", f"old={osz} new={nsz} {exts}: got {got!r} want {expected(OLD[osz], nsz, exts)!r}")
        n += 1
    return n, f"applied/{len(first) + len(rest)}"


def extents(size, lens, offs=None):
    out = []
    for off in offs if offs is not None else range(size):
        for ln in lens:
            if off + ln <= size:
                out += [("w", off, ln), ("z", off, ln)]
    return out


def apply_jobs(tier):
    jobs = []
    # any single extent for every pair of sizes
    for o in OLD:
        for n in range(0, 14):
            jobs.append((o, n, (), [extents(n, range(1, n + 1)) + [None]], 1))
    # all pairs, any order, overlapping or not
    for o, n in ((6, 9), (9, 6), (8, 8), (5, 12)) if tier == "quick" else itertools.product((0, 4, 6, 9, 12), (4, 6, 9, 13)):
        es = extents(n, (1, 2, 4, 5, 8) if tier == "quick" else range(1, n + 1))
        for e in es:
            jobs.append((o, n, (e,), [es], 1))
    # triples on a coarse grid, several cache sizes
    for ft in (1, 10):
        for o, n in ((6, 13),) if tier == "quick" else ((6, 13), (13, 10), (16, 9)):
            es = extents(n, (3, 4, 6), range(0, n, 3 if tier == "quick" else 2))
            for e in es:
                jobs.append((o, n, (e,), [es, es], ft))
    return jobs


M = 4 * 1024 * 1024
BIG = {
    "long": (2 * M + 3, [("w", 1, M + 5)]),
    "longer": (3 * M, [("w", M - 3, 2 * M + 1), ("z", 0, M - 3)]),
    "zeros": (3 * M + 1, [("z", 5, 2 * M + 9), ("w", 3 * M - 1, 2)]),
    "hole": (5 * M + 2, [("w", 5 * M, 2)]),
}


def big_case(name):
    """Extents longer than the parser's and the store's block size."""
    from backy.rbd.chunked import File, Store
    from backy.rbd.rbd import RBDDiffV1

    global DATA
    env.set_chunk(M, 1)
    size, exts = BIG[name]
    save, DATA = DATA, bytes((i * 7 + i // 251) % 256 for i in range(256)) * (3 * M // 256)
    d = env.fresh_dir("c03big")
    try:
        st = Store(d / "chunks", env.log())
        old = DATA[5 : 5 + M + 9]
        with File(d / "img", st, "rw") as f:
            f.write(old)
        with File(d / "img", st, "wb") as f:
            RBDDiffV1(io.BufferedReader(ceph.PipeEnd(stream("a", "b", size, exts)))).integrate(f, "a", "b")
        with File(d / "img", st, "rb") as f:
            if f.read() != expected(old, size, exts):
                raise Violation("apply-differs", f"big {name}")
        return 1, "applied-big"
    finally:
        DATA = save
        env.rmtree(d)


# ---------------------------------------------------------------- rejection

REP = {
    "grow": (b"AAAABBBB", b"AAAAxBBBcccc\0\0"),
    "shrink": (b"AAAABBBBCCCC", b"AAzz\0\0"),
    "same": (b"AAAABBBBCCCC", b"AAAA\0\0\0\0CxxC"),
}


def reject_points(s, name):
    """(label, bytes) of every corruption of stream s that must be rejected."""
    out = [(f"cut@{i}", s[:i]) for i in range(len(s))]
    pos = len(b"rbd diff v1\n")
    for i in range(pos):
        out.append((f"header@{i}", s[:i] + bytes([s[i] ^ 1]) + s[i + 1 :]))
    # walk the records
    while pos < len(s):
        t = s[pos : pos + 1]
        for bad in (b"x", b"\0", b"F", b"\xff", b" "):
            out.append((f"record{t.decode()}@{pos}->{bad!r}", s[:pos] + bad + s[pos + 1 :]))
        if t in b"ft":
            n = struct.unpack("<i", s[pos + 1 : pos + 5])[0]
            for i in range(pos + 5, pos + 5 + n):
                out.append((f"name@{i}", s[:i] + bytes([s[i] ^ 1]) + s[i + 1 :]))
            other = ceph.rec_str(t, "backy-other")
            out.append((f"other-{t.decode()}", s[:pos] + other + s[pos + 5 + n :]))
            pos += 5 + n
        elif t == b"s":
            pos += 9
        elif t == b"z":
            pos += 17
        elif t == b"w":
            pos += 17 + struct.unpack("<QQ", s[pos + 1 : pos + 17])[1]
        elif t == b"e":
            pos += 1
    # metadata after data
    body = s[:-1]
    out.append(("late-size", body + b"s" + struct.pack("<Q", 4) + b"e"))
    out.append(("late-from", body + ceph.rec_str(b"f", "backy-x") + b"e"))
    return out


def reject_case(job):
    """One corrupted stream through the real backup command. The sampled
    comparison is made to miss (its sample is empty)."""
    name, idx = job
    setup()
    random.sample = lambda population, k, **kw: []
    old, new = REP[name]
    if (os.getpid(), name) not in _boxes:
        b = world.Box()
        b.set_source(old)
        rc, u = b.backup("daily")
        if rc:
            raise Violation("backup-failed", "first backup")
        b.set_source(new)
        _boxes[os.getpid(), name] = b, u, b.capture()
    b, first, snap = _boxes[os.getpid(), name]
    n = 0
    out = []
    pts = None
    i = 0
    while True:
        b.activate()
        b.load(snap)
        env.clock.t += 3600
        used = []

        def fault(prog, argv, run):
            code, o = run()
            if prog == "rbd" and argv[1] == "export-diff":
                nonlocal pts
                pts = reject_points(o, name)[idx::8]
                used.append(pts[i][0])
                return code, pts[i][1]
            return code, o

        b.world.fault = fault
        rc, u = b.backup("daily")
        b.world.fault = None
        if not used:
            raise Violation("no-diff", f"{name}: the second backup did not use a diff")
        n += 1
        new_complete = set(b.complete()) - {first}
        if new_complete or rc == 0:
            raise Violation("bad-stream-accepted", f"{name} {used[0]}: rc={rc} completed={sorted(new_complete)}")
        if first not in b.complete():
            raise Violation("old-revision-lost", f"{name} {used[0]}")
        out.append((1, "rejected/" + used[0].split("@")[0]))
        i += 1
        if i >= len(pts):
            break
    return out


_boxes = {}


def run(rep, tier):
    setup()
    core.cases(rep, "apply", apply_case, apply_jobs(tier))
    if rep.violations:
        return
    core.cases(rep, "big", big_case, BIG)
    core.cases(rep, "reject", reject_case, [(n, i) for n in REP for i in range(8)])
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += [
        "extents lie within the new image size; chunk size 4 bytes",
        "corruptions that yield another well-formed stream (payload, offsets) are indistinguishable and not required to fail",
    ]


def replay(r):
    setup()
    try:
        print({"apply": apply_case, "big": big_case, "reject": reject_case}[r["space"]](tuplify(r["case"])))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0


def tuplify(j):
    if not isinstance(j, list):
        return j
    return tuple(tuplify(x) for x in j)
