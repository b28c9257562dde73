"""Prepared repositories and commands shared by the crash, fault, power loss
and concurrency checks."""
import os
import random

from . import ceph, core, env, hist, proc, world

IM = {"A": b"AAAABBBBCC", "B": b"AAAACCCCBBBB", "C": b"AAAADDDDBBBBEE", "S": b"EEEE", "Z": b"AAAA\0\0\0\0BBBBGGGG"}
SCHEDULE = {"daily": {"interval": "1d", "keep": 1}, "weekly": {"interval": "7d", "keep": 2}}


def setup():
    env.boot(chunk=4)
    env.set_chunk(4, 1)
    random.sample = lambda population, k, **kw: list(population)


class Prep:
    pass


_cache = {}


def prepared(base):
    """A world in the named state: (box, model uuid -> content, snapshot)."""
    k = (os.getpid(), base)
    if k not in _cache:
        _cache[k] = _build(base)
    p = _cache[k]
    p.box.activate()
    p.box.load(p.snap)
    for d in sorted(dirs(p.box.base) - p.dirs, reverse=True):
        os.rmdir(d)
    return p


def dirs(d):
    out = set()
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False):
            out.add(e.path)
            out |= dirs(e.path)
    return out


def _build(base):
    typ = "file" if base.startswith("F") else "rbd"
    p = Prep()
    b = p.box = world.Box(typ, schedule=SCHEDULE)
    p.model = {}
    p.damaged = set()
    env.clock.t = 1e6
    env.uuids.n = 7_000_000  # the same ids in every worker

    def backup(img, tags):
        env.clock.t += 86400 * 3
        b.set_source(IM[img])
        rc, u = b.backup(tags)
        if rc or not u:
            raise core.Violation("backup-failed", f"{base}: undisturbed backup of {img} exits with {rc}")
        p.model[u] = IM[img]
        return u

    if base[1:] != "0":
        p.first = backup("A", "daily,manual:a")
        if base[1:] in ("garbage", "mix"):
            g = backup("S", "daily")
            b.cli("rm", "-r", g)
            del p.model[g]
            p.middle = backup("Z", "daily")
        p.last = backup("B", "daily")
    if base[1:] in ("leftover", "mix"):
        # a backup that was killed: incomplete revision, partial data
        env.clock.t += 3600
        b.set_source(IM["S"])
        real = b.world.run_source
        b.world.run_source = lambda t, a: 1
        u = hist.uuid_of(77)
        hist.write_rev(b.repo, u, hist.ts(env.clock.t), tags=["daily"], clean=False)
        (b.repo / u).write_text('{"mapping": {}, "size": 0}' if typ == "rbd" else "EE")
        b.world.run_source = real
        p.leftover = u
    if base[1:] in ("distrusted", "corrupt") or base == "Rmix":
        b.cli("distrust", "-r", "all" if base[1:] == "distrusted" else p.last)
    if base[1:] == "corrupt":
        m1, m2 = b.mapping(p.first)["mapping"], b.mapping(p.last)["mapping"]
        own = [h for h in m2.values() if h not in m1.values()]
        f = b.chunk_files()[own[0]]
        d = f.read_bytes()
        f.unlink()
        f.write_bytes(d[:-1])
        p.damaged.add(p.last)
    if base[1:] == "meta":
        # revisions of two peers, one with a change not yet pushed
        for n, (tags, orig, server) in enumerate([("daily", "daily", "peer"), ("", "daily", "peer"), ("weekly", "weekly", "gone")]):
            u = hist.uuid_of(90 + n)
            hist.write_rev(b.repo, u, hist.ts(env.clock.t - 7000 + n), tags=tags.split(), orig=orig.split() or None,
                           server=server)
            setattr(p, f"remote{n}", u)
    env.clock.t += 3600
    b.set_source(IM["S" if base.endswith("shrink") else "C"])
    p.snap = b.capture()
    p.dirs = dirs(b.base)
    p.before = b.revs()
    return p


def hook(box):
    """Make every external call a point of the interposer."""
    real = box.world.spawn

    def spawn(argv):
        if os.path.basename(argv[0]) == "rbd":
            proc.lib().mc_point(("rbd " + " ".join(argv[1:3])).encode())
        return real(argv)

    box.world.spawn = spawn


def _rm(which):
    return lambda p: lambda: p.box.cli("rm", "-r", getattr(p, which))[0]


def _cli(*args, advance=0):
    def prep(p):
        def run():
            env.clock.t += advance
            return p.box.cli(*[getattr(p, a[1:]) if a.startswith("@") else a for a in args])[0]

        return run

    return prep


BACKUP = _cli("backup", "daily")
# name -> (base, command, exit status of the undisturbed run)
COMMANDS = {
    "backup-first": ("R0", BACKUP),
    "backup": ("Rbase", BACKUP),
    "backup-shrink": ("Rshrink", BACKUP),
    "backup-leftover": ("Rleftover", BACKUP),
    "backup-distrusted": ("Rdistrusted", BACKUP),
    "gc": ("Rgarbage", _cli("gc")),
    "gc-leftover": ("Rleftover", _cli("gc")),
    "expire": ("Rgarbage", _cli("gc", "--expire", "--local", advance=86400 * 30)),
    "rm-first": ("Rbase", _rm("first")),
    "rm-last": ("Rbase", _rm("last")),
    "tags-set": ("Rbase", _cli("tags", "set", "-r", "all", "weekly,manual:x")),
    "tags-remove": ("Rbase", _cli("tags", "remove", "--autoremove", "-r", "all", "daily")),
    "distrust": ("Rbase", _cli("distrust", "-r", "all")),
    "verify": ("Rdistrusted", _cli("verify", "-r", "all")),
    "verify-corrupt": ("Rcorrupt", _cli("verify", "-r", "@last")),
    "restore": ("Rbase", lambda p: lambda: p.box.restore(p.last)[0]),
    "file-backup-first": ("F0", BACKUP),
    "file-backup": ("Fbase", BACKUP),
    "file-backup-leftover": ("Fleftover", BACKUP),
    "file-gc": ("Fgarbage", _cli("gc")),
    "file-rm": ("Fbase", _rm("first")),
    "file-tags": ("Fbase", _cli("tags", "add", "-r", "all", "weekly")),
    "file-restore": ("Fbase", lambda p: lambda: p.box.restore(p.last)[0]),
}


def revs_lenient(box):
    """Like Box.revs, but unreadable metadata is reported, not raised."""
    import yaml

    out = {}
    for q in sorted(box.repo.glob("*.rev")):
        if q.is_symlink():
            continue
        try:
            d = yaml.safe_load(q.read_text())
            d["uuid"], d["timestamp"], d["tags"]
        except Exception:
            d = None
        out[q.name.removesuffix(".rev")] = d
    return out


def is_complete(d):
    return d is not None and "duration" in (d.get("stats") or {}) and not d.get("server")


def used_data(box):
    """(data files present, data files needed by present local revisions)"""
    revs = [u for u, d in box.revs().items() if not d.get("server")]
    if box.typ == "rbd":
        need = set()
        for u in revs:
            need |= set(box.mapping(u)["mapping"].values())
        return set(box.chunk_files()), need
    have = {q.name for q in box.repo.iterdir() if q.is_file() and len(q.name) == 22 and q.name in
            {x.name for x in box.repo.iterdir()} and not q.name.startswith("tmp")}
    return have, set(revs)
