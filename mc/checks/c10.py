"""C10: every damage of every stored chunk in several histories, followed by
every sequence of restore/verify/distrust/backup commands up to a depth."""
import json
import os
import random

from .. import core, env, hist, world
from ..core import Violation
from . import c01

IM = {"A": b"AAAABBBBCC", "B": b"AAAACCCCBBBB", "C": b"DDDDBBBB", "L": b"AAAABBBBCCCCDDDD\0\0", "K": b"BBBBAAAA"}
HISTORIES = {"AB": "AB", "ABC": "ABC", "LA": "LA", "A": "A"}
DAMAGES = ("flip", "flipend", "truncated", "empty", "swapped", "garbage", "missing", "longer", "nothing", "shorter")


def setup():
    env.boot(chunk=4)
    env.set_chunk(4, 1)
    world.quiet_sync()
    random.sample = lambda population, k, **kw: []  # the sampled comparison looks elsewhere


_cache = {}


def prepared(name):
    k = (os.getpid(), name)
    if k not in _cache:
        b = world.Box()
        model = {}
        for i in HISTORIES[name]:
            env.clock.t += 86400
            b.set_source(IM[i])
            rc, u = b.backup("daily")
            if rc:
                raise Violation("backup-failed", name)
            model[u] = IM[i]
        need = {u: set(b.mapping(u)["mapping"].values()) for u in model}
        _cache[k] = b, model, need, b.capture()
    b, model, need, snap = _cache[k]
    b.activate()
    return b, model, need, snap


def damage(b, chunk, kind):
    files = b.chunk_files()
    p = files[chunk]
    data = p.read_bytes()
    if kind == "flip":
        new = data[: len(data) // 2] + bytes([data[len(data) // 2] ^ 1]) + data[len(data) // 2 + 1 :]
    elif kind == "flipend":
        new = data[:6] + bytes([data[6] ^ 0x20]) + data[7:]
    elif kind == "truncated":
        new = data[: len(data) - 2]
    elif kind == "empty":
        new = b""
    elif kind == "garbage":
        new = b"\x07" * len(data)
    elif kind == "longer":
        import lzo

        new = lzo.compress(lzo.decompress(data) + b"!")
    elif kind in ("nothing", "shorter"):
        import lzo

        # a valid compressed chunk with less data
        new = lzo.compress(b"" if kind == "nothing" else lzo.decompress(data)[:-1])
    elif kind == "swapped":
        others = [c for c in sorted(files) if c != chunk]
        new = files[others[0]].read_bytes() if others else b"x"
    elif kind == "missing":
        p.unlink()
        return
    p.unlink()
    p.write_bytes(new)


def intact(b, uuid):
    """Independent check whether all data of a revision is present and right."""
    import lzo
    import mmh3

    files = b.chunk_files()
    for h in b.mapping(uuid)["mapping"].values():
        try:
            if mmh3.hash_bytes(lzo.decompress(files[h].read_bytes())).hex() != h:
                return False
        except Exception:
            return False
    return True


OPS = ["restore", "verify:first", "verify:last", "verify:all", "distrust", "backup:C", "backup:K"]


def apply(b, op, model, what):
    """One command; checks the property around it. Returns the new model."""
    kind, _, arg = op.partition(":")
    env.clock.t += 3600
    ok = {u: intact(b, u) for u in model}
    before = b.revs()
    distrusted = any(d["trust"] == "distrusted" for d in before.values())
    all_distrusted = all(d["trust"] == "distrusted" for d in before.values())
    if kind == "restore":
        for u, want in model.items():
            rc, got = c01.raw_restore(b, u)
            if rc == 0 and got != want:
                raise Violation("corrupt-restore", f"{what}: rc=0 got={got!r} want={want!r}")
            if ok[u] and (rc or got != want):
                raise Violation("restore-of-intact-failed", f"{what}: rc={rc} got={got!r}")
        return model
    if kind == "verify":
        targets = list(model) if arg == "all" else [list(model)[0 if arg == "first" else -1]]
        covered = any(d["trust"] == "verified" for d in before.values())
        b.cli("verify", "-r", arg if arg == "all" else targets[0])
        after = b.revs()
        for u in model:
            if u in targets:
                if ok[u] and u not in after:
                    raise Violation("intact-removed", f"{what}: {u}")
                if not ok[u] and u in after and not covered:
                    raise Violation("damaged-survived-verify", f"{what}: {after[u]['trust']}")
                if u in after and after[u]["trust"] != "verified" and not (not ok[u]):
                    raise Violation("intact-not-verified", f"{what}: {after[u]['trust']}")
            elif u not in after:
                raise Violation("unrelated-removed", f"{what}: {u}")
            elif after[u]["trust"] != before[u]["trust"]:
                raise Violation("unrelated-trust-changed", f"{what}: {before[u]['trust']} -> {after[u]['trust']}")
        model = {u: c for u, c in model.items() if u in after}
    elif kind == "distrust":
        b.cli("distrust")
        after = b.revs()
        if set(after) != set(before):
            raise Violation("distrust-removed", what)
        for u, d in after.items():
            if d["trust"] != "distrusted":
                raise Violation("distrust-ignored", f"{what}: {d['trust']}")
    elif kind == "backup":
        b.set_source(IM[arg])
        rc, u = b.backup("daily")
        after = b.revs()
        have = b.complete()
        new = [x for x in have if x not in model]
        for x in before:
            if x not in after and (ok[x] or not distrusted):
                raise Violation("intact-removed", f"{what}: {x}")
            if x in after and after[x]["trust"] == "verified" and before[x]["trust"] != "verified" and not intact(b, x):
                raise Violation("damaged-verified", what)
        if all_distrusted:
            if rc or not new:
                raise Violation("backup-after-distrust-failed", f"{what}: rc={rc}")
            if not intact(b, new[0]):
                raise Violation("backup-after-distrust-damaged", f"{what}")
        model = {x: c for x, c in model.items() if x in have}
        for x in new:
            model[x] = IM[arg]
    # whatever happened: no restore succeeds with wrong content, intact ones do
    for u, want in model.items():
        rc, got = c01.raw_restore(b, u)
        if rc == 0 and got != want:
            raise Violation("corrupt-restore", f"{what}: rc=0 got={got!r} want={want!r}")
        if rc and intact(b, u):
            raise Violation("restore-of-intact-failed", f"{what}: rc={rc} got={got!r}")
    revs = b.revs()
    for u in model:
        if revs[u]["trust"] == "verified" and not intact(b, u):
            raise Violation("damaged-marked-verified", what)
    return model


def job(j):
    name, n, kind, depth = j
    b, model, need, snap = prepared(name)
    b.load(snap)
    chunks = sorted(b.chunk_files())
    if n >= len(chunks):
        return 0, "no-such-chunk"
    damage(b, chunks[n], kind)
    out = []
    frontier = [((), b.capture(), model)]
    seen = set()
    for d in range(depth):
        nxt = []
        for h, st, m in frontier:
            for op in OPS:
                if not m and op != "backup:C":
                    continue
                b.load(st)
                what = f"history {name}, chunk #{n} {kind}, {(*h, op)}"
                m2 = apply(b, op, dict(m), what)
                out.append((1, f"{op.split(':')[0]}/{kind}/{len(m)}->{len(m2)}"))
                if op == "restore" or d == depth - 1:
                    continue
                revs = b.revs()
                key = core.digest(([(x, revs[x]["trust"]) for x in m2], [b.mapping(x) for x in m2],
                                   sorted((c, p.read_bytes()) for c, p in b.chunk_files().items())))
                if key in seen:
                    continue
                seen.add(key)
                nxt.append(((*h, op), b.capture(), m2))
        frontier = nxt
    return out


def run(rep, tier):
    setup()
    depth = 2 if tier == "quick" else 4
    jobs = [(h, n, k, depth + (h == "A")) for h in HISTORIES for n in range(9) for k in DAMAGES]
    core.cases(rep, "damage", job, jobs)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += ["one damaged chunk per history, damaged before any revision was verified; chunk size 4 bytes"]


def replay(r):
    setup()
    try:
        job(tuple(r["case"]))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
