"""C26: mismatching blocks, all choices of the sample and all subsets of
reports, on the real commands."""
import hashlib
import io
import itertools
import os
import random

import yaml

from .. import core, env, world
from ..core import Violation

BLOCK = 4 * 1024 * 1024
DAY = 86400


class ChoiceRandom(random.Random):
    """Every random decision is an explored choice."""

    ch = None

    def _randbelow(self, n):
        return type(self).ch(n, "random") if n > 1 else 0

    def random(self):
        return type(self).ch(4, "random") / 4

    def getrandbits(self, k):
        return type(self).ch(1 << k, "random") if k <= 4 else 0

    def __getattr__(self, a):
        return getattr(random, a)


def setup():
    env.boot()
    import backy.utils

    if backy.utils.random is random:
        backy.utils.random = ChoiceRandom()


# ------------------------------------------------ the comparison itself


class Named(io.BytesIO):
    def fileno(self):
        raise OSError("not a file")


def compare_case(j):
    """(number of blocks, length of the tail, share of sampled blocks,
    differing blocks)"""
    n, tail, share, diff = j
    import backy.utils

    size = n * 4 + tail
    a = bytes((65 + i // 4) for i in range(size))
    b = bytearray(a)
    for d in diff:
        b[min(d * 4 + d % 4, size - 1)] ^= 32
    b = bytes(b)
    k = max(int(share * n), 1)
    want_blocks = range(max(n, 1))
    out = {}
    seen = set()

    def run(ch):
        ChoiceRandom.ch = ch
        reports = []
        env.clock.t = 0.0
        ok = backy.utils.files_are_roughly_equal(
            Named(a), Named(b), samplesize=share, blocksize=4, report=lambda x, y, o: reports.append((x, y, o)))
        what = f"{n} blocks + {tail}, sampling {k}, differing {diff}: result {ok}, reports {reports}"
        if bool(ok) == bool(reports):
            raise Violation("report-without-failure" if ok else "failure-without-report", what)
        if len(reports) > 1:
            raise Violation("reports-many", what)
        for x, y, o in reports:
            if o % 4 or x != a[o:o + 4] or y != b[o:o + 4] or x == y:
                raise Violation("report-wrong", what)
            seen.add(o // 4)
        full = [d for d in diff if d in want_blocks]
        if ok and len(want_blocks) - len(full) < k:
            raise Violation("mismatch-missed", what)
        if not ok and not diff:
            raise Violation("false-mismatch", what)
        o = f"compare/{'equal' if ok else 'differs'}"
        out[o] = out.get(o, 0) + 1

    core.explore_dfs(run)
    missing = {d for d in diff if d in want_blocks} - seen
    if missing:
        raise Violation("never-sampled", f"{n} blocks + {tail}, sampling {k}, differing {diff}: blocks {sorted(missing)} are found by no sample")
    return [(c, o) for o, c in out.items()]


# ------------------------------------------------ backups


_boxes = {}


def box():
    k = os.getpid()
    if k not in _boxes:
        b = world.Box(obj=BLOCK)
        b.set_source(b"P" * BLOCK + b"Q" * BLOCK)
        _boxes[k] = b, b.capture()
    b, snap = _boxes[k]
    b.activate()
    b.load(snap)
    q = b.repo / "quarantine"
    if q.exists():
        for f in world.walk_files(str(q)):
            os.unlink(f)
    return b


def reports(b):
    q = b.repo / "quarantine"
    return {p.name.removesuffix(".report"): yaml.safe_load(p.read_text()) for p in q.glob("*.report")} if q.exists() else {}


def image(size, salt):
    out = b"".join(bytes([salt + i]) * BLOCK for i in range(size // BLOCK + 1))
    return out[:size]


def check_report(b, what, rep, snap, dev):
    """The report describes a block in which the two versions differ."""
    o = rep["offset"]
    data = {}
    for kind in ("source", "target"):
        h = rep[f"{kind}_hash"]
        p = b.repo / "quarantine" / "chunks" / h
        if not p.exists():
            raise Violation("block-not-stored", f"{what}: {kind} block {h}")
        data[kind] = p.read_bytes()
        if hashlib.md5(data[kind]).hexdigest() != h:
            raise Violation("block-not-stored", f"{what}: content of the {kind} block does not match its hash")
    if o % BLOCK or data["source"] != dev[o:o + BLOCK] or data["target"] != snap[o:o + BLOCK]:
        raise Violation("report-wrong", f"{what}: offset {o}, {[x[:4] for x in data.values()]}")
    if data["source"] == data["target"]:
        raise Violation("report-wrong", f"{what}: the reported blocks are equal")


def status(b):
    return b.cli("check")[0]


def backup_case(j):
    size, parents, diff = j
    out = {}
    seen = set()
    snap = image(size, 97)
    dev = bytearray(snap)
    for d in diff:
        pos = min(d * BLOCK + 17, size - 1)
        dev[pos] ^= 1
    dev = bytes(dev)
    blocks = range(max(size // BLOCK, 1))

    def run(ch):
        b = box()
        ChoiceRandom.ch = core.Choices()
        for i in range(parents):
            env.clock.t += DAY
            rc, u = b.backup("daily")
            if rc:
                raise Violation("backup-failed", f"undisturbed backup: rc={rc}")
        before = b.complete()
        env.clock.t += DAY * 0.6
        b.set_source(snap)
        ChoiceRandom.ch = ch
        maps = []

        def fault(prog, argv, run_):
            code, o = run_()
            if prog == "rbd" and argv[1] == "map" and code == 0:
                maps.append(1)
                d = b.ceph.mappings()[-1]["device"]
                with open(d, "wb") as f:
                    f.write(dev)
            return code, o

        b.world.fault = fault
        try:
            rc, u = b.backup("daily")
        finally:
            b.world.fault = None
        what = f"image of {size} bytes, {parents} earlier backups, blocks {diff} differ, choices {[a for _, _, a in ch.trace]}"
        new = set(b.complete()) - set(before)
        reps = reports(b)
        if rc == 0:
            if reps:
                raise Violation("report-without-failure", f"{what}: {len(reps)} reports")
            if len(new) != 1:
                raise Violation("backup-lost", what)
            if diff and set(diff) >= set(blocks):
                raise Violation("mismatch-missed", what)
            if status(b) != 0:
                raise Violation("check", f"{what}: check exits with {status(b)} after a good backup")
        else:
            if not diff:
                raise Violation("false-mismatch", f"{what}: rc={rc}")
            if new:
                raise Violation("mismatch-completed", f"{what}: {new}")
            if len(reps) != 1:
                raise Violation("report-count", f"{what}: {len(reps)} reports")
            (rid, rep), = reps.items()
            check_report(b, what, rep, snap, dev)
            seen.add(rep["offset"] // BLOCK)
            if set(b.revs()) != set(before):
                raise Violation("leftover", f"{what}: {sorted(b.revs())}")
            if status(b) != 1:
                raise Violation("check", f"{what}: check exits with {status(b)} although there is a report")
            # the same again: another report; then delete them one by one
            env.clock.t += DAY * 0.3
            b.world.fault = fault
            try:
                rc2, _ = b.backup("daily")
            finally:
                b.world.fault = None
            reps2 = reports(b)
            if set(reps) - set(reps2) or (rc2 != 0) != (len(reps2) == 2):
                raise Violation("report-count", f"{what}: second run rc={rc2}, {len(reps2)} reports")
            for x in sorted(reps2):
                if status(b) != 1:
                    raise Violation("check", f"{what}: check exits with {status(b)} although there is a report")
                rc3, _ = b.cli("reports-delete", x)
                if rc3:
                    raise Violation("delete-failed", f"{what}: rc={rc3}")
                left = set(reports(b))
                if x in left or left != {y for y in reps2 if y > x}:
                    raise Violation("delete-wrong", f"{what}: deleted {x}, left {left}")
            if status(b) != 0:
                raise Violation("check", f"{what}: check exits with {status(b)} after all reports were deleted")
        if not maps:
            raise Violation("not-compared", f"{what}: the snapshot was not read")
        o = f"backup/{'completed' if rc == 0 else 'refused'}"
        out[o] = out.get(o, 0) + 1

    core.explore_dfs(run)
    missing = {d for d in diff if d in blocks} - seen
    if missing and len(diff) == 1:
        raise Violation("never-sampled", f"image of {size} bytes, {parents} earlier backups: a mismatch in {sorted(missing)} is found by no sample")
    return [(c, o) for o, c in out.items()]


# ------------------------------------------------ report commands


def report_case(j):
    """Present reports, command, selection."""
    n, sel_len = j
    from backy.report import ChunkMismatchReport

    out = {}
    for sel in itertools.product(range(n + 1), repeat=sel_len):
        for cmd in ("show", "delete"):
            b = box()
            repo = b.repository()
            ids = []
            for i in range(n):
                r = ChunkMismatchReport(b"same" if i else b"abcd" * 40, bytes([65 + i]) * 3, i * 4)
                repo.add_report(r)
                ids.append(r.uuid)
            (b.repo / "quarantine" / "unrelated.txt").write_text("x")
            content = {i: (b.repo / "quarantine" / f"{i}.report").read_text() for i in ids}
            what = f"{n} reports, {cmd} {sel}"
            rc, txt = b.cli("reports-list")
            if rc or sorted(txt.split()) != sorted(ids):
                raise Violation("list-wrong", f"{what}: rc={rc} {txt.split()}")
            names = [ids[i] if i < n else "z" * 22 for i in sel]
            known = all(i < n for i in sel) and len(set(sel)) == len(sel)
            if sel_len:
                rc, txt = b.cli(f"reports-{cmd}", ",".join(names))
            elif cmd == "show":
                rc, txt = b.cli("reports-show")
                names = ids
            else:
                rc, txt = b.cli("reports-delete", "--all-reports")
                names = ids
            left = set(reports(b))
            if cmd == "show":
                if left != set(ids):
                    raise Violation("show-deletes", what)
                if all(x in ids for x in names) != (rc == 0):
                    raise Violation("show-status", f"{what}: rc={rc}")
                if rc == 0:
                    for x in ids:
                        if (content[x].strip() in txt) != (x in names):
                            raise Violation("show-wrong", f"{what}: {x} {txt!r}")
            else:
                if known and rc:
                    raise Violation("delete-status", f"{what}: rc={rc}")
                if any(x not in ids for x in names) and rc == 0:
                    raise Violation("delete-status", f"{what}: rc={rc} for an unknown report")
                if set(ids) - left - set(names):
                    raise Violation("delete-wrong", f"{what}: deleted {set(ids) - left}")
                if rc == 0 and left & set(names):
                    raise Violation("delete-wrong", f"{what}: still there {left & set(names)}")
            if not (b.repo / "quarantine" / "unrelated.txt").exists():
                raise Violation("delete-wrong", f"{what}: unrelated file deleted")
            for x in left:
                if (b.repo / "quarantine" / f"{x}.report").read_text() != content[x]:
                    raise Violation("report-changed", what)
            want = 1 if left else 0
            if status(b) != want:
                raise Violation("check", f"{what}: check exits with {status(b)}, {len(left)} reports are left")
            o = f"{cmd}/{'ok' if rc == 0 else 'error'}"
            out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


KINDS = {"compare": compare_case, "backup": backup_case, "report": report_case}


def case(j):
    return KINDS[j[0]](j[1])


def jobs_for(tier):
    jobs = []
    top = 4 if tier == "quick" else 6
    for n in range(0, top + 1):
        for tail in (0, 3):
            if not n + tail:
                continue
            for share in (0.01, 0.5, 1.0):
                for r in range(0, n + 2):
                    for diff in itertools.combinations(range(n + (1 if tail else 0)), r):
                        jobs.append(("compare", (n, tail, share, diff)))
    sizes = [BLOCK // 2, BLOCK, 2 * BLOCK, 3 * BLOCK, 2 * BLOCK + 4096]
    if tier == "thorough":
        sizes += [5 * BLOCK, 4 * BLOCK + 1]
    for size in sizes:
        n = max(size // BLOCK, 1)
        m = (size + BLOCK - 1) // BLOCK
        for parents in (0, 1) if tier == "quick" else (0, 1, 2):
            for diff in [(), *((i,) for i in range(m)), tuple(range(n))]:
                jobs.append(("backup", (size, parents, diff)))
    for n in range(0, 4):
        for k in range(0, 3 if tier == "quick" else 4):
            jobs.append(("report", (n, k)))
    return list(dict.fromkeys(jobs))


def run(rep, tier):
    setup()
    world.quiet_sync()
    core.cases(rep, "reports", case, jobs_for(tier))
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["rbd is a stand-in; the differing block is injected into the mapped snapshot device"]


def replay(r):
    setup()
    world.quiet_sync()
    k, a = r["case"]
    try:
        print(case((k, tuple(tuple(x) if isinstance(x, list) else x for x in a))))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
