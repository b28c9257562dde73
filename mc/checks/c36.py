"""C36: the daemon does not grow. Every word over an alphabet of things that
happen to a daemon (with its jobs, programs and peers) is repeated: whatever it
holds when all jobs are waiting again must stop growing. And: images need a
bounded number of blocks in memory, however large they are."""
import asyncio
import collections
import copy
import fcntl
import gc
import itertools
import json
import os
import signal
import tempfile
import tracemalloc

from .. import ceph, core, env, hist, jobs, net, world
from ..core import Violation
from . import c31

DAY, NOW = c31.DAY, c31.NOW
H, MIN = 3600.0, 60.0
CYCLE = 2 * H
GETS = ["/v1/status", "/v1/status?filter=^a$", "/v1/jobs", "/v1/backups", "/v1/backups/a/revs", "/v1/backups/x/revs?only_clean=1"]

# (time, event); what is switched on is switched off again in the same cycle
WORDS = {
    "nothing": [],
    "run": [(10 * MIN, "run:a")],
    "run-twice": [(10 * MIN, "run:a"), (10 * MIN + 0.3, "run:a"), (10 * MIN + 0.3, "run:b")],
    "fails": [(0, "fault:backup=1"), (80 * MIN, "fault:")],
    "fails-run": [(0, "fault:backup=1"), (70 * MIN, "run:a"), (80 * MIN, "fault:")],
    "gc-fails": [(0, "fault:gc=1"), (80 * MIN, "fault:")],
    "cb-fails": [(0, "fault:cb=1"), (80 * MIN, "fault:")],
    "cannot-start": [(0, "fault:raise=backup"), (80 * MIN, "fault:")],
    "no-callback": [(0, "fault:raise=cb"), (80 * MIN, "fault:")],
    "down": [(0, "peers:down"), (80 * MIN, "peers:ok")],
    "hang": [(0, "peers:hang"), (80 * MIN, "peers:ok")],
    "500": [(0, "peers:500"), (80 * MIN, "peers:ok")],
    "garbage": [(0, "peers:garbage"), (80 * MIN, "peers:ok")],
    "leader": [(0, "peers:leader"), (80 * MIN, "peers:ok")],
    "leader-run": [(0, "peers:leader")] + [(m * MIN, "run:a") for m in range(2, 62, 4)] + [(80 * MIN, "peers:ok")],
    "leader-lost": [(0, "peers:leader-lost"), (80 * MIN, "peers:ok")],
    "reload": [(10 * MIN, "reload")],
    "reload-busy": [(10 * MIN, "run:a"), (10 * MIN + 0.3, "source:a"), (10 * MIN + 0.5, "source:a")],
    "schedule": [(10 * MIN, "schedule"), (20 * MIN, "run:a"), (20 * MIN + 0.3, "schedule")],
    "job-replaced": [(10 * MIN, "remove"), (20 * MIN, "add")],
    "job-replaced-busy": [(10 * MIN, "run:c"), (10 * MIN + 0.3, "remove"), (20 * MIN, "add")],
    "limit": [(10 * MIN, "limit:1"), (10 * MIN, "run:a"), (10 * MIN, "run:b"), (11 * MIN, "limit:3")],
    "ports": [(10 * MIN, "port"), (10 * MIN + 1, "port"), (20 * MIN, "tokens")],
    "requests": [(10 * MIN, "ask"), (10 * MIN + 1, "run:a"), (10 * MIN + 1.3, "ask")],
    "purge": [(10 * MIN, "pending")],
}
# only alone in the quick run
SINGLE = {"nothing", "purge", "run-twice", "fails-run", "leader-run", "cb-fails", "500", "cannot-start"}
_count = collections.Counter()


class World(c31.World):
    def __init__(self):
        c31.SCENARIOS["growth"] = ([], 0, True, {"limit": 3})
        super().__init__("growth")
        self.conf["schedules"] = {"s": {"h": {"interval": "1h", "keep": 3}}, "s2": {"h": {"interval": "1h", "keep": 2}}}
        src = {"type": "file", "filename": "/a"}
        self.conf["jobs"] = {n: {"source": dict(src), "schedule": "s"} for n in "abc"}
        self.conf["peers"] = {n: {"url": f"http://{n}", "token": "x"} for n in ("p1", "p2")}
        for n in "xy":
            (self.base / n).mkdir()
            hist.write_rev(self.base / n, hist.uuid_of(9), NOW - DAY, ("h",))
        import yaml

        (self.base / "x/config").write_text(yaml.safe_dump({
            "path": str(self.base / "x"), "source": src, "schedule": self.conf["schedules"]["s"]}))
        self.write()
        self.peers = "ok"
        self.asked = {}
        self.made = 0

    async def create(self, *argv, **kw):
        a = [os.fspath(x) for x in argv]
        kind = "cb" if a[0] == "/cb" else jobs.func_of(a)[2]
        self.procs[:] = [p for p in self.procs if p.returncode is None]
        if self.faults.get("raise") == kind:
            raise OSError(11, "Resource temporarily unavailable")
        return await super().create(*argv, **kw)

    async def hook(self, host, method, path, deliver):
        await asyncio.sleep(0.1)
        mode = self.peers
        if mode == "down":
            raise net.refused(host)
        if mode == "hang":
            await asyncio.sleep(1000)
        if mode == "500":
            return 500, b""
        if mode == "garbage":
            return 200, b"<html>"
        if "/status" in path:
            if not mode.startswith("leader") or host == "p2":
                return 200, b"[]"
            first = self.asked.setdefault(path, env.clock.t)
            if env.clock.t - first > 20 * MIN:
                self.asked[path] = first = env.clock.t
            if mode == "leader-lost" and env.clock.t > first:
                raise net.refused(host)
            done = env.clock.t - first > 8 * MIN
            return 200, json.dumps([{
                "job": "a", "sla": "OK", "sla_overdue": 0, "status": "running", "local_revs": 99,
                "last_time": hist.ts(env.clock.t).isoformat() if done else None, "last_tags": None, "last_duration": None,
                "next_time": None, "next_tags": None, "manual_tags": "", "problem_reports": 0, "unsynced_revs": 0}]).encode()
        if method == "GET":
            t = NOW - 2 * DAY
            n = 20
            if mode == "leader" and host == "p1":
                # what it made while it was the leader
                t = env.clock.t - 1
                self.made += 1
                n = 100 + self.made
            return 200, json.dumps([{"uuid": hist.uuid_of(n), "timestamp": hist.ts(t).isoformat(), "stats": {"duration": 3.0},
                                     "trust": "trusted", "tags": ["h"], "orig_tags": [], "server": "", "parent": ""}]).encode()
        return 204, b""

    def event(self, e):
        kind, _, arg = e.partition(":")
        c = self.conf
        if kind == "run":
            if arg in self.dm.jobs:
                self.dm.jobs[arg].run_immediately.set()
            return
        if kind == "fault":
            k, _, v = arg.partition("=")
            self.faults = {k: v if k == "raise" else int(v)} if k else {}
            return
        if kind == "peers":
            self.peers = arg
            self.asked = {}
            return
        if kind == "pending":
            (self.base / "x/.purge_pending").write_text("")
            return
        if kind == "ask":
            for p in GETS:
                self.loop.create_task(self.ask("GET", p, "tok"), name="request")
            for m, p, t in (("GET", "/v1/jobs", "no"), ("POST", "/v1/backups/a/purge", "tok"), ("POST", "/v1/jobs/no/run", "tok"),
                            ("POST", "/v1/backups/y/touch", "tok")):
                self.loop.create_task(self.ask(m, p, t), name="request")
            return
        if kind == "source":
            f = c["jobs"][arg]["source"]
            f["filename"] = "/b" if f["filename"] == "/a" else "/a"
        elif kind == "schedule":
            c["jobs"]["a"]["schedule"] = "s" if c["jobs"]["a"]["schedule"] == "s2" else "s2"
        elif kind == "remove":
            self.removed = c["jobs"].pop("c", None) or self.removed
        elif kind == "add":
            c["jobs"]["c"] = copy.deepcopy(self.removed)
        elif kind == "limit":
            c["global"]["worker-limit"] = int(arg)
        elif kind == "port":
            c["api"]["port"] = 3 - c["api"]["port"]
        elif kind == "tokens":
            t = c["api"]["tokens"]
            t.pop("new", None) or t.update(new="new")
        self.write()
        self.loop.deliver(signal.SIGHUP)

    async def ask(self, method, path, token):
        await net.dispatch(self.dm.api_under_test.app, method, path, {"Authorization": "Bearer " + token})

    def idle(self):
        return all(j.status == "waiting for deadline" and not j.errors for j in self.dm.jobs.values())


def held(loop):
    """What the process holds, as a vector."""
    gc.collect()
    v = collections.Counter()
    for t in asyncio.all_tasks(loop):
        v["task " + t.get_coro().__qualname__] += 1
    v["timers"] = sum(1 for h in loop._scheduled if not h.cancelled())
    v["open files"] = len(os.listdir("/proc/self/fd"))
    for k in ("sessions", "connectors", "sites"):
        v["open " + k] = _count[k]
    for o in gc.get_objects():
        m = type(o).__module__
        if m and (m.startswith("backy.") or m.startswith("aiohttp.") or m in ("asyncio.locks", "_asyncio", "asyncio.events")):
            v["object " + m + "." + type(o).__qualname__] += 1
    return v


REPS = (3, 4, 5)


def execute(word):
    env.clock.t = NOW
    env.uuids.n = 0
    _count.clear()
    w = World()
    what = " ".join(word)
    loop = c31.new_loop()
    try:
        w.start_daemon(loop)
        seen = []
        t = NOW + 30.0
        loop.horizon = t

        def on():
            try:
                loop.run_forever()
            except net.Horizon:
                return
            raise Violation("ended", f"{what}: the daemon ended")

        on()
        for rep in range(1, REPS[-1] + 1):
            for x in word:
                t = loop.horizon
                for dt, e in WORDS[x]:
                    loop.call_at(t + dt, w.event, e)
                loop.horizon = t + (25 * H if x == "purge" else CYCLE)
                on()
                for _ in range(400):
                    if w.idle():
                        break
                    loop.horizon += MIN
                    on()
                else:
                    raise Violation("not-idle", f"{what}: the jobs are not waiting {400 * MIN / H:g} h later: "
                                    f"{[(j.name, j.status, j.errors) for j in w.dm.jobs.values()]}")
            if rep in REPS:
                seen.append(held(loop))
        lost = [c for c in loop.errors if "destroyed" in c.get("message", "")]
        if lost:
            raise Violation("task-lost", f"{what}: {len(lost)} unfinished tasks were thrown away: {lost[0]}")
        a, b, c = seen
        grown = [(k, a[k], b[k], c[k]) for k in sorted(c) if a[k] < b[k] < c[k]]
        if grown:
            raise Violation("grows", f"{what} repeated {REPS} times: " + ", ".join(f"{k}: {x} {y} {z}" for k, x, y, z in grown[:6]))
        return len(c)
    finally:
        net.close_loop(loop)
        w.close()
        env.rmtree(w.d)


def case(ws):
    out = {}
    for w in ws:
        n = execute(w)
        o = f"grown/{len(w)}"
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


# -- images

BLOCK = 64 * 1024
NBLOCKS = (192, 384)
CONTENTS = {
    "new": lambda n: b"".join(bytes([i % 255 + 1]) * (BLOCK - 2) + i.to_bytes(2, "big") for i in range(n)),
    "new2": lambda n: b"".join(bytes([i % 255 + 1]) * (BLOCK - 2) + (i + 4096).to_bytes(2, "big") for i in range(n)),
    "half": lambda n: b"".join(bytes([i % 255 + 1]) * (BLOCK - 2) + (i + 8192 * (i % 2)).to_bytes(2, "big") for i in range(n)),
    "same": lambda n: b"s" * (BLOCK * n),
    "zero": lambda n: bytes(BLOCK * n),
    "odd": lambda n: CONTENTS["new"](n) + b"odd",
}
OPS = {
    "rbd": ["backup", "backup-full", "backup-whole", "restore", "restore-out", "restore-over", "verify", "distrust-verify", "gc"],
    "file": ["backup", "restore", "verify", "distrust-verify", "gc"],
}


class Peak:
    """The most memory that was allocated at once, without that of the
    stand-ins for other programs (whose output is kept on disk)."""

    active = None

    def __enter__(self):
        gc.collect()
        self.peak = self.others = 0
        tracemalloc.start(1)
        Peak.active = self
        return self

    def note(self):
        self.peak = max(self.peak, tracemalloc.get_traced_memory()[1] - self.others)

    def __exit__(self, *a):
        Peak.active = None
        self.note()
        tracemalloc.stop()


class DiskPipe(ceph.PipeEnd):
    def __init__(self, data):
        self.file = tempfile.TemporaryFile()
        self.file.write(data)
        self.file.seek(0)

    def readinto(self, b):
        return self.file.readinto(memoryview(b)[:65536])


class Popen(ceph.FakePopen):
    def __init__(self, args, *a, **kw):
        # backy's own programs count (they run in this process)
        p = None if os.path.basename(args[0]).startswith("backy-") else Peak.active
        if p:
            p.note()
            before = tracemalloc.get_traced_memory()[0]
        super().__init__(args, *a, **kw)
        if p:
            p.others += tracemalloc.get_traced_memory()[0] - before
            tracemalloc.reset_peak()


def image(typ, first, second, op):
    """[peak] per image size"""
    out = []
    for n in NBLOCKS:
        b = world.Box(typ=typ, source_extra={"full-always": True} if op == "backup-full" else None, obj=BLOCK, diff_mode="whole" if op == "backup-whole" else "object")
        b.activate()
        fd1 = os.dup(1)
        null = os.open("/dev/null", os.O_WRONLY)
        try:
            env.clock.t = NOW
            b.set_source(CONTENTS[first](n))
            rc, u = b.backup()
            assert rc == 0 and u
            env.clock.t += DAY
            if second:
                b.set_source(CONTENTS[second](n))
            if op.startswith("distrust"):
                b.cli("distrust", "-r", u)
            args = {"backup": ["backup", "manual:t"], "gc": ["gc"], "verify": ["verify", "-r", u]}.get(op.split("-")[-1] if "distrust" in op else op.split("-")[0])
            if args is None:
                t = b.root / "restored"
                if op == "restore-over":
                    t.write_bytes(b"x" * BLOCK * n)
                args = ["restore", "-r", u, typ] + (["--backend", "python"] if typ == "rbd" else [])
                args += ["-" if op == "restore-out" else str(t)]
                os.dup2(null, 1)
            if op == "gc":
                b.cli("rm", "-r", u)
            with Peak() as p:
                rc, _ = b.cli(*args)
            os.dup2(fd1, 1)
            if rc:
                raise AssertionError(f"{typ} {first} {second} {op}: exit code {rc}")
            out.append(p.peak)
        finally:
            os.dup2(fd1, 1)
            os.close(fd1)
            os.close(null)
            b.close()
    small, large = out
    if large - small > (NBLOCKS[1] - NBLOCKS[0]) * BLOCK / 4:
        raise Violation("memory", f"{op} of a {typ} image ({first}, {second}): {small} bytes for {NBLOCKS[0]} blocks, "
                        f"{large} for {NBLOCKS[1]} (of {BLOCK})")
    return small


def image_case(c):
    env.set_chunk(BLOCK)
    n = image(*c)
    return 2, f"{c[0]} {c[3]}/{'blocks' if n > BLOCK else 'small'}"


def images(tier):
    return [(typ, a, b, op) for typ in OPS for op in OPS[typ] for a in CONTENTS for b in [None, *CONTENTS]
            if (op.startswith("backup") or b is None) and (tier != "quick" or a in ("new", "zero", "odd"))]


def words(tier):
    out = [(x,) for x in WORDS]
    pairs = list(itertools.permutations(WORDS, 2))
    if tier == "quick":
        pairs = [p for p in pairs if p[0] < p[1] and not set(p) & SINGLE]
    out += pairs
    return [out[i:i + 4] for i in range(0, len(out), 4)]


_flock = fcntl.flock


def setup_images():
    fcntl.flock = _flock
    world.quiet_sync()
    ceph.PipeEnd = DiskPipe
    ceph.FakePopen = Popen


def setup():
    c31.setup()
    import backy.daemon.api as api
    from aiohttp import TCPConnector

    class Connector(TCPConnector):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            _count["connectors"] += 1

        def close(self, *a, **kw):
            if not self.closed:
                _count["connectors"] -= 1
            return super().close(*a, **kw)

    class Session(net.FakeSession):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            _count["sessions"] += 1

        async def close(self):
            if not self.closed:
                _count["sessions"] -= 1
            await super().close()

    class Site(c31.Site):
        async def start(self):
            await super().start()
            _count["sites"] += 1

        async def stop(self):
            await super().start()
            _count["sites"] -= 1

    api.TCPConnector = Connector
    api.aiohttp.ClientSession = Session
    api.TCPSite = Site


def run(rep, tier):
    setup()
    core.cases(rep, "grown", case, words(tier))
    setup_images()
    core.cases(rep, "image", image_case, images(tier))
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["programs and peers are stand-ins; requests enter at aiohttp's application (no sockets)"]


def replay(r):
    setup()
    c = r["case"]
    if isinstance(c[0], str):
        setup_images()
    try:
        print(image_case(c) if isinstance(c[0], str) else case([tuple(w) for w in c]))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
