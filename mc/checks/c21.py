"""C21: the periodic passes of the daemon over all small trees, with recorded
instead of executed deletions."""
import asyncio
import itertools
import os
from pathlib import Path

import yaml

from .. import core, env, hist, jobs, net, proc, scen
from ..core import Violation

DAY = 86400.0
LIMIT = 3 * 31 * DAY
NOW = 1000 * DAY
OLD, YOUNG, TURNS = LIMIT + 10, LIMIT - 10 - 3 * DAY, LIMIT - DAY / 2  # the last one is old at the second pass


class Stop(Exception):
    pass


deleted = []
failing = set()


def setup():
    env.boot()
    env.own_time()
    net.install()
    import shutil

    import aioshutil
    import backy.daemon

    async def rmtree(path, *a, **kw):
        record(path)

    def srmtree(path, *a, **kw):
        record(path)

    if not hasattr(aioshutil, "_mc_real"):
        aioshutil._mc_real = aioshutil.rmtree
        aioshutil.rmtree = rmtree
        backy.daemon.aioshutil.rmtree = rmtree
        env._rmtree = shutil.rmtree
        shutil.rmtree = srmtree


def record(path):
    p = os.fspath(path)
    deleted.append((env.clock.t, p))
    if os.path.basename(p) in failing:
        raise OSError(5, "Input/output error", p)


def root():
    d = env.scratch_root() / f"c21.{os.getpid()}"
    if not d.exists():
        (d / "base").mkdir(parents=True)
        (d / "outside").mkdir()
        (d / "outside" / "new").write_text("x")
        (d / "outside" / "dir").mkdir()
        (d / "outside" / "dir" / "new").write_text("x")
    return d


def wipe(d):
    for e in list(os.scandir(d)):
        if e.is_dir(follow_symlinks=False):
            wipe(e.path)
            os.rmdir(e.path)
        else:
            os.unlink(e.path)


# entries: ("f", age) ("l", age, target) ("d", age, [entries])


def build(path, e):
    if e[0] == "f":
        Path(path).write_text("x")
    elif e[0] == "l":
        os.symlink(e[2], path)
    else:
        os.mkdir(path)
        for i, c in enumerate(e[2]):
            build(os.path.join(path, f"{'abcdef'[i]}{c[0]}"), c)
    t = epoch() + NOW - e[1]
    os.utime(path, (t, t), follow_symlinks=False)


def epoch():
    return env.EPOCH.timestamp()


def youngest(e):
    return min([e[1], *(youngest(c) for c in (e[2] if e[0] == "d" else ()))])


def daemon(base, jobs_=()):
    from backy.daemon import BackyDaemon

    conf = base.parent / "backy.conf"
    conf.write_text(yaml.safe_dump({
        "global": {"base-dir": str(base)}, "schedules": {"s": {"daily": {"interval": "1d", "keep": 1}}},
        "jobs": {j: {"source": {"type": "file", "filename": "/nonexistent"}, "schedule": "s"} for j in jobs_}}))
    d = BackyDaemon(conf, env.log())
    d._read_config()
    return d


def passes(coro, until):
    loop = net.new_loop()
    loop.horizon = until
    try:
        t = loop.create_task(coro())
        try:
            loop.run_until_complete(t)
        except net.Horizon:
            pass
        else:
            raise Violation("pass-ended", "the periodic pass ended")
    finally:
        net.close_loop(loop)


def old_case(j):
    """Lists of candidates in the base directory."""
    out = {}
    for cands in j:
        d = root()
        base = d / "base"
        wipe(base)
        for i, (e, fails) in enumerate(cands):
            build(base / f"c{i}", e)
        failing.clear()
        failing.update(f"c{i}" for i, (e, fails) in enumerate(cands) if fails)
        env.clock.t = NOW
        dm = daemon(base)
        os.utime(base, (epoch() + NOW - OLD,) * 2)
        deleted.clear()
        passes(dm.purge_old_files, NOW + 1.5 * DAY)
        what = f"{cands}"
        for t, p in deleted:
            name = os.path.basename(p)
            if os.path.dirname(p) != str(base) or not name.startswith("c"):
                raise Violation("outside", f"{what}: deleted {p}")
            e = cands[int(name[1:])][0]
            if e[0] != "d":
                raise Violation("not-a-directory", f"{what}: deleted {e}")
            if youngest(e) + (t - NOW) < LIMIT:
                raise Violation("too-young", f"{what}: deleted {name} whose newest entry is {(youngest(e) + t - NOW) / DAY:g} days old")
        if not failing:
            for i, (e, _) in enumerate(cands):
                for day in (0, DAY):
                    if e[0] == "d" and youngest(e) + day > LIMIT and not any(
                            os.path.basename(p) == f"c{i}" and abs(t - NOW - day) < 100 for t, p in deleted):
                        raise Violation("not-deleted", f"{what}: c{i} is abandoned but was not deleted on day {day / DAY:g}")
        o = f"old/{len({p for _, p in deleted})}"
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


AGES = (OLD, YOUNG, TURNS)


def entries(depth):
    out = [("f", a) for a in AGES]
    out += [("l", a, t) for a in (OLD, YOUNG) for t in ("../outside/dir", "/nonexistent-target", ".", "..")]
    if depth:
        sub = entries(depth - 1)
        out += [("d", a, ()) for a in AGES]
        out += [("d", OLD, (s,)) for s in sub]
        out += [("d", YOUNG, (("f", OLD),))]
    return out


def old_jobs(tier):
    kids = entries(2)
    single = [("d", a, ()) for a in AGES] + [("d", a, (k,)) for a in AGES for k in kids]
    small = entries(1)
    single += [("d", OLD, ks) for ks in itertools.product(small, repeat=2)]
    if tier == "thorough":
        single += [("d", OLD, ks) for ks in itertools.product(small[::2], repeat=3)]
    lists = [((e, False),) for e in single]
    lists += [((e, False),) for e in entries(0)]
    few = [("d", OLD, ()), ("d", YOUNG, ()), ("d", OLD, (("f", YOUNG),)), ("l", OLD, "../outside/dir"), ("f", OLD),
           ("d", OLD, (("l", OLD, "../c0"),)), ("d", OLD, (("d", OLD, (("f", YOUNG),)),))]
    for n in (2, 3):
        for c in itertools.product(few, repeat=n):
            for bad in range(-1, n):
                lists.append(tuple((e, i == bad) for i, e in enumerate(c)))
    return [("old", lists[i:i + 40]) for i in range(0, len(lists), 40)]


# ------------------------------------------------ repositories that peers use


def walk(d):
    yield d
    for e in os.scandir(d):
        yield e.path
        if e.is_dir(follow_symlinks=False):
            yield from (x for x in walk(e.path) if x != e.path)


def peer_case(j):
    """A repository without a job does not count as abandoned while a peer
    pulls from it (or touches it)."""
    from . import c18

    out = {}
    for state, action, host in j:
        setup()
        p = c18.pair()
        env.clock.t = c18.NOW
        st = c18.start(state)
        p.write(st)
        t = epoch() + c18.NOW
        before = {}
        for s in "BC":
            for f in walk(str(p.path[s])):
                os.utime(f, (t - OLD,) * 2, follow_symlinks=False)
                before[f] = os.lstat(f).st_mtime_ns
        if action == "pull":
            c18.exchange(p, st, "pull", (), f"pull {state}")
        elif action == "refused":
            c18.exchange(p, st, "pull", (host.lower(), "all", "refused"), f"pull {state}")
        elif action == "touch":
            async def touch():
                return await p.servers[host].arequest("POST", "/v1/backups/r/touch")

            status, _ = p.loop.run_until_complete(touch())
            if status != 204:
                raise Violation("touch-refused", f"{status}")
        for s in "BC":
            for f in walk(str(p.path[s])):
                if os.lstat(f).st_mtime_ns != before.get(f):
                    os.utime(f, (t,) * 2, follow_symlinks=False)
        for s in "BC":
            used = {"pull": True, "refused": s != host, "touch": s == host, "none": False}[action]
            for after, gone in ((DAY / 2, not used), (LIMIT - DAY / 2, not used), (LIMIT + DAY / 2, True)):
                env.clock.t = c18.NOW + after
                deleted.clear()
                failing.clear()
                passes(p.servers[s].daemon.purge_old_files, c18.NOW + after + DAY / 4)
                what = f"{state}: {action} of {host}, {after / DAY:g} days later the repository on {s}"
                if bool(deleted) != gone:
                    raise Violation("used-by-peer" if deleted else "not-deleted", f"{what}: deleted {deleted}")
                if any(x != str(p.path[s]) for _, x in deleted):
                    raise Violation("outside", f"{what}: deleted {deleted}")
        o = f"peer/{action}"
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def peer_jobs():
    from . import c18

    return [("peer", [(s, a, h)]) for s in c18.INIT for a in ("pull", "refused", "touch", "none") for h in "BC"
            if h == "B" or a in ("refused", "touch")]


# ------------------------------------------------ pending purges

KINDS = ["job", "job-clean", "dead", "dead-clean", "dead-late", "broken", "locked", "badsource", "link", "file", "fails"]


def make_repo(base, name, kind):
    p = base / name
    if kind == "file":
        p.write_text("x")
        return
    if kind == "link":
        t = base.parent / "outside" / "repo"
        if not t.exists():
            make_repo(base.parent / "outside", "repo", "dead")
        (t / ".purge_pending").touch()
        (t / hist.uuid_of(9, "g")).write_text("x")
        os.symlink(t, p)
        return
    p.mkdir()
    src = {"type": "file", "filename": "/nonexistent"}
    if kind == "badsource":
        src = {"type": "unknown"}
    (p / "config").write_text("]broken" if kind == "broken" else yaml.safe_dump({
        "path": str(p), "source": src, "schedule": {"daily": {"interval": "1d", "keep": 1}}}))
    (p / hist.uuid_of(9, "g")).write_text("garbage")
    hist.write_rev(p, hist.uuid_of(1), NOW - DAY, ("daily",))
    (p / hist.uuid_of(1)).write_text("data")
    if not kind.endswith(("clean", "late")):
        (p / ".purge_pending").touch()


def pending_case(j):
    import fcntl

    out = {}
    for kinds in j:
        d = root()
        base = d / "base"
        wipe(base)
        if (d / "outside" / "repo").exists():
            wipe(d / "outside" / "repo")
            os.rmdir(d / "outside" / "repo")
        names = [f"{'rstu'[i]}-{k}" for i, k in enumerate(kinds)]
        for n, k in zip(names, kinds):
            make_repo(base, n, k)
        env.clock.t = NOW
        dm = daemon(base, [n for n, k in zip(names, kinds) if k.startswith("job")])
        for n, k in zip(names, kinds):
            if k.startswith("job"):
                from backy.daemon.scheduler import Job

                dm.jobs[n] = Job(dm, n, env.log())
        runs = []
        locks = {}
        prog = jobs.new_programs()

        async def handler(proc):
            import backy.source

            t, path, func, rest = jobs.func_of(proc.argv)
            runs.append((env.clock.t, os.path.basename(path), func))
            if path.endswith("fails") and env.clock.t < NOW + DAY / 2:
                return 3
            try:
                cls = backy.source.factory_by_type(t)
            except Exception:
                return 127
            with env.Quiet():
                try:
                    return cls.main(*proc.argv)
                except SystemExit as e:
                    return e.code or 0

        prog.handler = handler
        for n, k in zip(names, kinds):
            if k == "locked":
                (base / n / ".purge").touch()
                locks[n] = open(base / n / ".purge")
                fcntl.flock(locks[n], fcntl.LOCK_EX)

        async def main():
            t = asyncio.ensure_future(dm.purge_pending_backups())
            await asyncio.sleep(DAY / 2)
            first = snapshot()
            for f in locks.values():
                f.close()
            for n, k in zip(names, kinds):
                if k == "dead-late":
                    (base / n / ".purge_pending").touch()
            await asyncio.sleep(DAY)
            result.extend([first, snapshot()])
            await t

        def snapshot():
            s = {}
            for n, k in zip(names, kinds):
                p = base / n
                if p.is_dir():
                    s[n] = ((p / ".purge_pending").exists(), (p / hist.uuid_of(9, "g")).exists(),
                            k == "link" or (p / hist.uuid_of(1)).exists())
            return s

        result = []
        try:
            passes(main, NOW + 1.75 * DAY)
        finally:
            for f in locks.values():
                f.close()
        what = f"repositories {kinds}"
        if len(result) != 2:
            raise Violation("pass-ended", what)
        for day, s in enumerate(result):
            for n, k in zip(names, kinds):
                if k == "file":
                    continue
                marker, garbage, data = s[n]
                if not data:
                    raise Violation("data-lost", f"{what}: {n} on day {day}")
                if k == "dead" or (k in ("locked", "fails", "dead-late") and day == 1):
                    if marker or garbage:
                        raise Violation("purge-missed", f"{what}: {n} on day {day}")
                else:
                    if not garbage:
                        raise Violation("purged-wrongly", f"{what}: {n} on day {day}")
                    if marker != (k not in ("dead-clean", "job-clean", "dead-late")):
                        raise Violation("request-lost", f"{what}: {n} on day {day}")
        for t, n, func in runs:
            k = kinds[names.index(n)] if n in names else None
            if func != "gc" or k in (None, "job", "job-clean", "dead-clean", "link", "file"):
                raise Violation("purged-wrongly", f"{what}: {func} in {n}")
        o = "pending/" + str(len(runs))
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def pending_jobs(tier):
    lists = [(k,) for k in KINDS] + list(itertools.product(KINDS, repeat=2)) + list(itertools.product(KINDS, repeat=3))
    if tier == "quick":
        lists = [x for x in lists if len(x) < 3 or ("dead" in x and "link" not in x[:2])]
    else:
        lists += [x for x in itertools.product(KINDS, repeat=4) if "dead" in x and len(set(x)) == 4]
    return [("pending", lists[i:i + 20]) for i in range(0, len(lists), 20)]


# ------------------------------------------------ a purge that is cut short

GC = {"rbd": "Rgarbage", "rbd-mix": "Rmix", "file": "Fgarbage", "file-mix": "Fmix", "rbd-leftover": "Rleftover"}
_ops = {}


def gc_prepared(name):
    p = scen.prepared(GC[name])
    (p.box.repo / ".purge_pending").touch()
    return p, lambda: p.box.cli("gc")[0]


def gc_ops(name):
    k = os.getpid(), name
    if k not in _ops:
        p, gc = gc_prepared(name)
        r = proc.child(gc, proc.KILL, p.box.base, 0, flags=proc.LIST)
        if r.value != 0:
            raise Violation("gc-failed", f"{name}: {r.value}")
        fin(p, f"undisturbed gc of {name}")
        p, gc = gc_prepared(name)
        r2 = proc.child(gc, proc.FAIL, p.box.base, 0, flags=proc.LIST)
        _ops[k] = r.log, r2.log
    return _ops[k]


def fin(p, what):
    have, need = scen.used_data(p.box)
    if have != need:
        raise Violation("purge-missed", f"{what}: superfluous {sorted(have - need)} missing {sorted(need - have)}")
    if (p.box.repo / ".purge_pending").exists():
        raise Violation("request-stays", what)


def gc_case(j):
    name, mode, k, err = j
    log = gc_ops(name)[mode == proc.FAIL]
    p, gc = gc_prepared(name)
    r = proc.child(gc, mode, p.box.base, k, err=err)
    op = log[k - 1]
    what = f"gc of {name} {'killed' if mode == proc.KILL else 'failing'} at operation {k} {op[0]} {os.path.basename(op[1])}"
    have, need = scen.used_data(p.box)
    if need - have:
        raise Violation("data-lost", what)
    if have - need and not (p.box.repo / ".purge_pending").exists():
        raise Violation("request-lost", f"{what}: {sorted(have - need)} stay but the request is gone")
    env.clock.t += DAY
    if p.box.cli("gc")[0]:
        raise Violation("gc-failed", f"{what}, the next one")
    fin(p, f"{what}, the next one")
    return 1, f"gc/{name}/{'killed' if r.killed else r.value}"


def gc_jobs():
    out = []
    for name in GC:
        kills, fails = gc_ops(name)
        out += [("gc", (name, proc.KILL, k, 0)) for k in range(1, len(kills) + 1)]
        n = 0
        for k, op in enumerate(fails, 1):
            # the 256 directories of a store are alike
            d = os.path.basename(op[1])
            if len(d) == 2 and "/chunks/" in op[1]:
                n += 1
                if n % 16 != 1:
                    continue
            out.append(("gc", (name, proc.FAIL, k, 5)))
    return out


def case(j):
    if j[0] == "gc":
        return gc_case(j[1])
    return {"old": old_case, "pending": pending_case, "peer": peer_case}[j[0]](j[1])


def run(rep, tier):
    scen.setup()
    try:
        js = gc_jobs()
    except Violation as v:
        rep.violation(v.key, v.detail, {"case": None})
        return
    core.cases(rep, "interrupted", case, js)
    setup()
    core.cases(rep, "passes", case, old_jobs(tier) + pending_jobs(tier) + peer_jobs())
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["deletions are recorded by a stand-in for rmtree"]


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def replay(r):
    try:
        if r["case"] is None or r["case"][0] == "gc":
            scen.setup()
            gc_jobs()
        else:
            setup()
        print(r["case"] and case(tup(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
