"""C28: repositories in the old chunk layout (chunks/ab/cd/<hash>) are opened
by every command; the conversion is killed before every file system operation
and started again."""
import errno
import itertools
import os

from .. import core, env, proc, scen
from ..core import Violation
from . import c01, c05

# variant -> extras found in the old layout
VARIANTS = ("plain", "stray", "emptydir", "topstray")
OPENERS = {
    "restore": lambda p: lambda: p.box.restore(p.last)[0],
    "restore-first": lambda p: lambda: p.box.restore(p.first)[0],
    "backup": scen.BACKUP,
    "gc": scen._cli("gc"),
    "verify": scen._cli("verify", "-r", "all"),
}


def old_layout(p, moved, variant):
    """Turn the store of a prepared world into the old layout; the chunks
    whose numbers are in `moved` are already converted."""
    b = p.box
    d = b.repo / "chunks"
    files = sorted(b.chunk_files().items())
    for i, (h, f) in enumerate(files):
        if i in moved:
            continue
        sub = d / h[:2] / h[2:4]
        sub.mkdir(exist_ok=True)
        f.rename(sub / f.name)
    (d / "store").unlink()
    h = files[0][0]
    if variant == "stray":
        (d / h[:2] / h[2:4]).mkdir(exist_ok=True)
        (d / h[:2] / h[2:4] / "tmpabcdefg").write_bytes(b"rest")
    if variant == "emptydir":
        (d / "00" / "11").mkdir(exist_ok=True)
    if variant == "topstray":
        (d / h[:2] / "tmpabcdefg").write_bytes(b"rest")
    return [h for i, (h, f) in enumerate(files) if i in moved]


def check_open(p, what):
    b = p.box
    for u, want in p.model.items():
        rc, got = b.restore(u)
        if rc or got != want:
            raise Violation("not-restorable", f"{what}: {u} rc={rc} got={got!r} want={want!r}")
    # and they are where every later command expects them
    have = set(os.listdir(b.repo / "chunks"))
    for h, f in b.chunk_files().items():
        if f.parent.name != h[:2] or f.parent.parent.name != "chunks":
            raise Violation("not-converted", f"{what}: {f.relative_to(b.repo)}")
    assert "store" in have, what


def contents(b):
    return {h: (f.read_bytes(), f.stat().st_ino, f.stat().st_mode) for h, f in b.chunk_files().items()}


def case(job):
    base, moved, variant, opener = job
    p = scen.prepared(base)
    c05.hooked(p)
    converted = old_layout(p, moved, variant)
    before = contents(p.box)
    snap = p.box.capture()
    p.model = dict(p.model)
    cmd = OPENERS[opener]
    what = f"{base}, converted {moved}, {variant}, {opener}"
    r = proc.child(cmd(p), proc.KILL, p.box.base, 0, flags=proc.LIST)
    log = r.log
    if r.value:
        raise Violation("open-failed", f"{what}: exit {r.value}")
    if opener in ("restore", "restore-first", "verify"):
        now = contents(p.box)
        need = scen.used_data(p.box)[1]
        for h, v in before.items():
            if opener == "verify" and h not in need:
                continue  # purged by its gc
            if h not in now or now[h][0] != v[0] or now[h][2] != v[2]:
                raise Violation("chunk-changed", f"{what}: {h} {v} {now.get(h)}")
            if h in converted and now[h] != v:
                raise Violation("chunk-touched", f"{what}: {h}")
    check_open(p, what)
    n = 1
    after = p.box.revs()
    for k in range(1, len(log) + 1):
        reset(p, snap)
        old_layout_dirs(p, variant)
        r = proc.child(cmd(p), proc.KILL, p.box.base, k)
        w = f"{what}, killed before operation {k} {log[k - 1][0]} {os.path.basename(log[k - 1][1])}"
        if not r.killed:
            raise Violation("nondeterministic", w)
        if opener not in ("backup",):
            check_open(p, w)
        else:
            c05.check_state(p, w, after, p.box.source())
            check_open(p, w)
        n += 1
        if k % 7 == 0 or opener == "restore":
            recover(p, w)
    return n, f"{variant}/{len(moved)}/{opener}/{len(log)}"


PARTS = 8


def case3(job):
    """A failing operation instead of a death."""
    base, moved, variant, opener, part = job
    p = scen.prepared(base)
    old_layout(p, moved, variant)
    snap = p.box.capture()
    cmd = OPENERS[opener]
    r = proc.child(cmd(p), proc.FAIL, p.box.base, 0, flags=proc.LIST)
    alike = {}
    n = 0
    full = {h[:2] for h in p.box.chunk_files()}
    for k, op in enumerate(r.log, 1):
        if k % PARTS != part:
            continue
        d = os.path.basename(op[1])
        if len(d) == 2 and d not in full and "/chunks/" in op[1]:
            alike[op[0]] = alike.get(op[0], 0) + 1
            if alike[op[0]] % 16 != 1:
                continue
        for err in (errno.EIO, errno.EMFILE) if op[0] in ("open", "create", "opendir") else (errno.EIO,):
            if op[1].endswith(".chunk.lzo") and opener == "verify" and err == errno.EIO:
                continue  # may be taken for damage
            reset(p, snap)
            old_layout_dirs(p, variant)
            proc.child(cmd(p), proc.FAIL, p.box.base, k, err=err)
            check_open(p, f"{base}, converted {moved}, {variant}, {opener}, {errno.errorcode[err]} in operation {k} {op[0]} {d}")
            n += 1
    return n, f"{variant}/{len(moved)}/{opener}/fault"


def case2(job):
    """Two deaths: every pair of operations."""
    base, moved, variant, opener = job
    p = scen.prepared(base)
    c05.hooked(p)
    old_layout(p, moved, variant)
    snap = p.box.capture()
    cmd = OPENERS[opener]
    count = proc.child(cmd(p), proc.KILL, p.box.base, 0).count
    n = 0
    for k in range(1, count + 1):
        reset(p, snap)
        old_layout_dirs(p, variant)
        proc.child(cmd(p), proc.KILL, p.box.base, k)
        mid = p.box.capture()
        d = scen.dirs(p.box.base)
        c2 = proc.child(cmd(p), proc.KILL, p.box.base, 0).count
        for k2 in range(1, c2 + 1):
            reset(p, mid)
            for x in sorted(d):
                os.makedirs(x, exist_ok=True)
            proc.child(cmd(p), proc.KILL, p.box.base, k2)
            check_open(p, f"{base}, converted {moved}, {variant}, {opener}, killed before operation {k}, then {k2}")
            n += 1
    return n, f"{variant}/{len(moved)}/{opener}/twice"


def recover(p, what):
    p2 = scen.Prep()
    p2.__dict__.update(p.__dict__)
    c05.recover(p2, what)


def reset(p, snap):
    for x in sorted(scen.dirs(p.box.base) - p.dirs, reverse=True):
        for e in os.scandir(x):
            if e.is_file():
                os.unlink(e.path)
        os.rmdir(x)
    p.box.load(snap)


def old_layout_dirs(p, variant):
    if variant == "emptydir":
        (p.box.repo / "chunks" / "00" / "11").mkdir(exist_ok=True)


def jobs(tier):
    out = []
    for base in ("Rbase", "Rgarbage"):
        p = scen.prepared(base)
        n = len(p.box.chunk_files())
        for r in range(n + 1):
            for moved in itertools.combinations(range(n), r):
                if tier == "quick" and base == "Rgarbage" and r not in (0, 1, n):
                    continue
                for variant in VARIANTS:
                    for opener in OPENERS:
                        if tier == "quick" and (variant != "plain" or r not in (0, n)) and opener not in ("restore", "gc"):
                            continue
                        if tier == "quick" and variant != "plain" and r not in (0, 1):
                            continue
                        out.append((base, moved, variant, opener))
    return out


def run(rep, tier):
    scen.setup()
    js = jobs(tier)
    core.cases(rep, "conversion", case, js)
    core.cases(rep, "conversion-fault", case3, [
        (*j, part) for part in range(PARTS) for j in js if (tier == "thorough" or j[2] == "plain" and len(j[1]) == 0) and j[3] in ("restore", "gc")])
    if tier == "thorough" and not rep.violations:
        core.cases(rep, "conversion-twice", case2, [j for j in js if j[3] in ("restore", "gc") and j[0] == "Rbase"])
    rep.add(traces_validated_against_impl=rep.cov["transitions"])


def replay(r):
    scen.setup()
    try:
        print({"conversion-twice": case2, "conversion-fault": case3}.get(r["space"], case)(tuple(tuple(x) if isinstance(x, list) else x for x in r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
