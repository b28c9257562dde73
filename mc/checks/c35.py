"""C35: whatever breaks for one job (its repository, its programs, the peers'
answers about it), at any time of the daemon's life and across restarts and
reloads: everything that happens to the other jobs is the same as without, and
the job goes on when it is repaired."""
import asyncio
import copy
import json
import os
import shutil
import signal

import yaml

from .. import core, env, hist, jobs, net
from ..core import Violation
from . import c31, c34

DAY, NOW = c31.DAY, c31.NOW
H = 3600.0
LENGTH = 1.35 * DAY
HEAL = 0.8 * DAY
JOBS = "abc"
SCHEDS = {"s": {"daily": {"interval": "1d", "keep": 3}}, "hd": {"h": {"interval": "6h", "keep": 3}, "daily": {"interval": "1d", "keep": 2}}}

# what is broken for job a
DISK = {
    "empty-rev": lambda d, good: (d / "zzz.rev").write_text(""),
    "garbage-rev": lambda d, good: (d / "zzz.rev").write_text("{: ["),
    "binary-rev": lambda d, good: (d / "zzz.rev").write_bytes(b"\xff\xfe\0"),
    "list-rev": lambda d, good: (d / "zzz.rev").write_text("[1, 2]"),
    "half-rev": lambda d, good: (d / "zzz.rev").write_text("uuid: zzz\n"),
    "no-zone-rev": lambda d, good: (d / "zzz.rev").write_text("uuid: zzz\ntimestamp: 2020-01-01 00:00:00\n"),
    "trust-rev": lambda d, good: (d / "zzz.rev").write_text("uuid: zzz\ntimestamp: '2020-01-01T00:00:00+00:00'\ntrust: maybe\n"),
    "dir-rev": lambda d, good: (d / "zzz.rev").mkdir(),
    "quarantine": lambda d, good: (shutil.rmtree(d / "quarantine", True), (d / "quarantine").write_text("x")),
    "config": lambda d, good: ((d / "config").unlink(missing_ok=True), (d / "config").mkdir(), (d / "config/x").write_text("x")),
    "gone": lambda d, good: shutil.rmtree(d),
    "file": lambda d, good: (shutil.rmtree(d), d.write_text("x")),
    "dangling": lambda d, good: (shutil.rmtree(d), d.symlink_to(d.parent.parent / "mnt/a")),
}
PROGRAMS = {
    "fails": {"backup": 1}, "killed": {"backup": -9}, "gc-fails": {"gc": 1}, "cb-fails": {"cb": 1},
    "no-program": {"raise-backup": 1}, "no-gc": {"raise-gc": 1}, "no-cb": {"raise-cb": 1},
    "hangs": {"hang-backup": 1}, "gc-hangs": {"hang-gc": 1}, "cb-hangs": {"hang-cb": 1}, "slow": {"slow": 1},
}
PEER = {
    "peer-500": (500, b""), "peer-garbage": (200, b"no json"), "peer-strange": (200, b'{"a": [1]}'), "peer-404": (404, b""),
    "peer-down": None, "peer-null": (200, b"[null, 3]"),
}
FAULTS = [*DISK, *PROGRAMS, *PEER, "locked"]
# moments: before the daemon is started; while nothing happens; just before
# and during own runs
TIMES = ["start", 0.05 * DAY, 0.2 * DAY, 0.2 * DAY + 0.35, 0.5 * DAY]
CHANGES = ["", "sched:b", "source:a", "sched:a", "add:d", "remove:c", "restart"]


class Proc(c31.Proc):
    pass


class World(c31.World):
    def __init__(self, fault, at, change):
        c31.SCENARIOS["independent"] = ([], LENGTH, True, {"limit": 9})
        super().__init__("independent")
        self.fault, self.at, self.change = fault, at, change
        self.broken = False
        self.conf["schedules"] = SCHEDS
        src = self.conf["jobs"]["a"]
        self.conf["jobs"] = {n: {"source": dict(src["source"], filename="/" + n), "schedule": "s"} for n in JOBS}
        self.conf["peers"] = {"p1": {"url": "http://p1", "token": "x"}}
        (self.base / "c").mkdir()
        for i, n in enumerate(JOBS):
            hist.write_rev(self.base / n, hist.uuid_of(i), NOW - (0.2 + 0.1 * i) * DAY, ("daily",))
            hist.write_rev(self.base / n, hist.uuid_of(10 + i), NOW - 2 * DAY, ("daily",), server="p1")
        for n in ("0old", "zold"):
            p = self.base / n
            p.mkdir()
            (p / "f").write_text("x")
            for q in (p / "f", p):
                os.utime(q, (NOW - 100 * DAY, NOW - 100 * DAY))
        for n in ("0pending", "zpending"):
            p = self.base / n
            p.mkdir()
            (p / "config").write_text(yaml.safe_dump({"path": str(p), "source": src["source"], "schedule": SCHEDS["s"]}))
            (p / ".purge_pending").write_text("")
        for d, _, fs in os.walk(self.base):
            if "old" not in os.path.basename(d):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.utime(x, (NOW, NOW))
        self.write()
        self.trace = []
        self.done_a = []  # times of complete backups of a
        self.names = {}

    def nick(self, job, u):
        """Ids depend on all jobs: number them per job."""
        mine = self.names.setdefault(job, {})
        return mine.setdefault(u, len(mine))

    def log(self, job, *what):
        if job != "a":
            self.trace.append((job, round(env.clock.t - NOW, 3), *what))

    async def create(self, *argv, **kw):
        a = [os.fspath(x) for x in argv]
        if a[0] == "/cb":
            kind, job, args = "cb", a[1], []
        else:
            _, path, kind, args = jobs.func_of(a)
            job = os.path.basename(path)
        self.log(job, "starts", kind, [self.nick(job, x) for x in args])
        mine = self.broken and job == "a"
        f = PROGRAMS.get(self.fault, {}) if mine else {}
        if f"raise-{kind}" in f:
            raise OSError(11, "Resource temporarily unavailable")
        self.faults = dict(self.faults, **{k: v for k, v in f.items() if k in ("backup", "gc", "cb")})
        try:
            p = await super().create(*argv, **kw)
        finally:
            self.faults.pop(kind, None)
        if f.get(kind):
            inner = p.finish

            def finish():
                self.faults = {kind: f[kind]}
                inner()
                self.faults = {}

            p.timer.cancel()
            p.timer = p.loop.call_later(0.2, finish)
        if f"hang-{kind}" in f or "slow" in f:
            p.timer.cancel()
            self.hanging.append(p)
        if kind == "backup" and job == "a":
            p.until_exit = self.record(p, p.until_exit)
        if kind == "cb":
            communicate = p.communicate

            async def told(input=None):
                self.log(job, "told", sorted((self.nick(job, d["uuid"]), str(d["timestamp"]), sorted(d["tags"]), "duration" in d["stats"])
                                             for d in yaml.safe_load(input)))
                return await communicate(input)

            p.communicate = told
        return p

    hanging = ()

    def record(self, p, f):
        async def until_exit():
            await f()
            if p.returncode == 0:
                self.done_a.append(env.clock.t)
        return until_exit

    async def hook(self, host, method, path, deliver):
        job = None
        for n in "abcd":
            if f"/backups/{n}/" in path or f"%5E{n}%24" in path or f"^{n}$" in path:
                job = n
        if job is None:
            raise Violation("harness", f"request {path}")
        self.log(job, "request", method, path.split("?")[0] if "/revs/" not in path else "revs")
        await asyncio.sleep(0.1)
        if self.broken and job == "a" and self.fault in PEER:
            r = PEER[self.fault]
            if r is None:
                raise net.refused(host)
            return r
        if "/status" in path:
            return 200, b"[]"
        if method == "GET":
            i = JOBS.find(job)
            if i < 0:
                return 404, b""
            return 200, json.dumps([{"uuid": hist.uuid_of(10 + i), "timestamp": hist.ts(NOW - 2 * DAY).isoformat(), "stats": {"duration": 3.0},
                                     "trust": "trusted", "tags": ["daily"], "orig_tags": [], "server": "", "parent": ""}]).encode()
        return 204, b""

    def breaks(self):
        self.broken = True
        d = self.base / "a"
        self.saved = self.d / "saved"
        if self.fault in DISK:
            shutil.copytree(d, self.saved, symlinks=True)
            DISK[self.fault](d, self.saved)
        elif self.fault == "locked":
            import fcntl
            self.lock = open(d / ".backup", "a")
            fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.hanging = []

    def heals(self):
        self.broken = False
        d = self.base / "a"
        if self.fault in DISK:
            if d.is_symlink():  # its file system is mounted again
                shutil.copytree(self.saved, d.readlink(), symlinks=True)
            elif d.is_file():
                d.unlink()
            if not d.exists():
                shutil.copytree(self.saved, d, symlinks=True)
            z = d / "zzz.rev"
            if z.is_dir():
                z.rmdir()
            z.unlink(missing_ok=True)
            if (d / "quarantine").is_file():
                (d / "quarantine").unlink()
            if (d / "config").is_dir():
                shutil.rmtree(d / "config")
        elif self.fault == "locked":
            self.lock.close()
        for p in self.hanging:
            if p.returncode is None:
                p.finish()

    def event(self, e):
        kind, _, arg = e.partition(":")
        if kind == "run":
            if arg in self.dm.jobs:
                self.dm.jobs[arg].run_immediately.set()
            return
        if kind == "breaks":
            return self.breaks()
        if kind == "heals":
            return self.heals()
        if kind == "ask":
            for n in "bc":
                for path in (f"/v1/status?filter=^{n}$", f"/v1/backups/{n}/revs?only_clean=1", f"/v1/backups/{n}/revs"):
                    self.loop.create_task(self.ask(n, path), name="request")
            return
        if kind == "sched":
            self.conf["jobs"][arg]["schedule"] = "hd"
        elif kind == "source":
            self.conf["jobs"][arg]["source"]["filename"] += "x"
        elif kind == "add":
            self.conf["jobs"][arg] = {"source": {"type": "file", "filename": "/" + arg}, "schedule": "s"}
        elif kind == "remove":
            del self.conf["jobs"][arg]
        self.write()
        self.loop.deliver(signal.SIGHUP)

    async def ask(self, n, path):
        api = self.dm.api_under_test
        code, text = await net.dispatch(api.app, "GET", path, {"Authorization": "Bearer tok"})
        if code == 200:
            x = json.loads(text)
            if "/revs" in path:
                x = sorted((self.nick(n, d["uuid"]), str(d["timestamp"]), sorted(d["tags"]), "duration" in d["stats"]) for d in x)
            text = x
        self.log(n, "answer", path, code, text)

    def result(self):
        disk = {}
        for n in sorted(os.listdir(self.base)):
            p = self.base / n
            if n == "a":
                continue
            if n in "bcd":
                disk[n] = sorted((self.nick(n, u), str(r["timestamp"]), sorted(r["tags"]), r["server"], "duration" in r["stats"])
                                 for u, r in hist.read_revs(p).items())
                disk[n + " config"] = (p / "config").read_text()
            else:
                disk[n] = sorted(os.listdir(p))
        state = {n: (j.status, j.errors, j.backoff, str(j.next_time), sorted(j.next_tags or ()))
                 for n, j in self.dm.jobs.items() if n != "a"}
        per = {}
        for job, *x in self.trace:
            per.setdefault(job, []).append(x)
        disk = {k: str(v).replace(str(self.d), "") for k, v in disk.items()}
        return {**{f"trace of {n}": x for n, x in per.items()}, "disk": disk, "jobs": state, "dead": sorted(self.dm.dead_repositories)}


def new_loop():
    loop = c34.Loop()
    asyncio.set_event_loop(loop)
    loop.errors = []
    loop.set_exception_handler(lambda l, c: l.errors.append(c))
    return loop


def execute(fault, at, change, run):
    """-> World, result"""
    env.clock.t = NOW
    env.uuids.n = 0
    w = World(fault, at, change)
    what = f"{fault or 'nothing'} breaks at {at}, {change or 'no change'}{', triggered' if run else ''}"
    loop = new_loop()
    try:
        if fault and at == "start":
            w.breaks()
        try:
            w.start_daemon(loop)
        except Exception as e:
            raise Violation("start", f"{what}: the daemon does not start: {e!r}")
        ev = [(0.02, "run:b"), (0.3, "run:c"), (0.4, "ask"), (0.6 * DAY, "run:c"), (0.25 * DAY, "ask"), (1.1 * DAY, "ask")]
        if change and change != "restart":
            ev.append((0.3 * DAY, change))
        if fault and at != "start":
            ev.append((at, "breaks"))
        if fault:
            ev.append((HEAL, "heals"))
        if run:
            t = 0.0 if at == "start" else at
            ev += [(max(0.05, t - 0.25), "run:a"), (t + 20, "run:a")]
        restarted = change == "restart"
        for t, e in sorted(ev):
            loop.call_at(NOW + t, w.event, e)
        loop.horizon = NOW + (0.3 * DAY if restarted else w.length)
        for _ in range(2 if restarted else 1):
            try:
                loop.run_forever()
            except net.Horizon:
                pass
            else:
                raise Violation("ended", f"{what}: the daemon ended")
            if restarted and loop.horizon < NOW + w.length:
                # a new daemon
                net.close_loop(loop)
                w.close()
                loop = new_loop()
                w.log("b", "restart")
                try:
                    w.start_daemon(loop)
                except Exception as e:
                    raise Violation("start", f"{what}: the daemon does not start: {e!r}")
                for t, e in sorted(ev):
                    if t > 0.3 * DAY:
                        loop.call_at(NOW + t, w.event, e)
                loop.horizon = NOW + w.length
        a = w.dm.jobs["a"]
        # A job that is not failing may wait for its next regular time.
        waits = w.done_a and not a.errors and a.next_time and hist.ts(env.clock.t) < a.next_time <= hist.ts(NOW + HEAL + DAY + 60)
        if fault and not waits and not any(t >= NOW + HEAL for t in w.done_a):
            raise Violation("not-resumed", f"{what}: no complete backup of the repaired job within "
                            f"{(LENGTH - HEAL) / H:.1f} h ({a.status}, {a.errors} errors)")
        return w.result()
    finally:
        net.close_loop(loop)
        w.close()
        env.rmtree(w.d)


_base = {}


def case(j):
    change, cs = j
    if change not in _base:
        _base[change] = execute(None, None, change, False)
    want = _base[change]
    out = {}
    for fault, at, run in cs:
        got = execute(fault, at, change, run)
        for part in sorted(set(want) | set(got)):
            a, b = want.get(part), got.get(part)
            if a != b:
                if isinstance(a, dict):
                    d = [(x, a.get(x), b.get(x)) for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][:2]
                elif isinstance(a, list) and isinstance(b, list):
                    d = next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), (len(a), len(b)))
                else:
                    d = (a, b)
                raise Violation(f"changed-{part.replace(' ', '-')}", f"{fault} breaks a at {at}, {change or 'no change'}"
                                f"{', triggered' if run else ''}: without and with: {d}")
        o = f"{'disk' if fault in DISK else 'program' if fault in PROGRAMS else 'peer' if fault in PEER else fault}, {change.split(':')[0] or 'none'}"
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def all_cases(tier):
    times = TIMES if tier == "quick" else ["start"] + [x * DAY for x in (0.01, 0.05, 0.1, 0.2, 0.29999, 0.30001, 0.5, 0.7)] + [
        0.2 * DAY + x * 0.05 for x in range(1, 40)]
    out = []
    for change in CHANGES:
        cs = [(f, t, r) for f in FAULTS for t in times for r in (True, False) if r or tier != "quick" or t in times[:2]]
        for i in range(0, len(cs), 8):
            out.append((change, cs[i:i + 8]))
    return out


def setup():
    c31.setup()


def run(rep, tier):
    setup()
    core.cases(rep, "independent", case, all_cases(tier))
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["programs and peers are stand-ins; requests enter at aiohttp's application (no sockets)"]


def replay(r):
    setup()
    try:
        print(case((r["case"][0], [tuple(x) for x in r["case"][1]])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
