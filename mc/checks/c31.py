"""C31: the real daemon, told to stop at every callback boundary of its event
loop while jobs wait, back up, collect garbage, notify, talk to peers, retry or
are reconfigured; afterwards a new daemon continues in the same directory."""
import asyncio
import copy
import fcntl
import json
import os
import signal
import traceback

import yaml

from .. import core, env, hist, jobs, net
from ..core import Violation

DAY = 86400.0
NOW = 500 * DAY + 1000.0
BOUND = 15  # seconds until the daemon has ended (helpers may need some to end)

CONF = {
    "global": {"worker-limit": 2, "backup-completed-callback": "/cb"},
    "api": {"addrs": "127.0.0.1", "port": 1, "tokens": {"tok": "client"}},
    "peers": {},
    "schedules": {"s1": {"daily": {"interval": "1d", "keep": 9}}, "s2": {"daily": {"interval": "2d", "keep": 9}}},
    "jobs": {"a": {"source": {"type": "file", "filename": "/a"}, "schedule": "s1"},
             "b": {"source": {"type": "file", "filename": "/b"}, "schedule": "s1"}},
}
PEERS = {"p1": {"url": "http://p1", "token": "x"}}

# name -> (events: loop second -> what, duration of the scenario, peers, faults)
SCENARIOS = {
    "waiting": ([], 0.6, False, {}),
    "one": ([(0.1, "run:a")], 1.6, False, {}),
    "two": ([(0.1, "run:a"), (0.1, "run:b")], 1.6, False, {}),
    "staggered": ([(0.1, "run:a"), (0.45, "run:b")], 2.0, False, {}),
    "slots": ([(0.1, "run:a"), (0.2, "run:b"), (0.3, "limit")], 2.6, False, {"limit": 1}),
    "failing": ([(0.1, "run:a")], 1.2, False, {"backup": 1}),
    "gc-failing": ([(0.1, "run:a")], 1.2, False, {"gc": 1}),
    "peers": ([(0.1, "run:a")], 3.2, True, {}),
    "follower": ([(0.1, "due:a")], 2.0, True, {"leader": True}),
    "reload": ([(0.1, "run:a"), (0.3, "source")], 1.6, False, {}),
    "reload-schedule": ([(0.1, "run:a"), (0.3, "schedule")], 1.6, False, {}),
    "reload-api": ([(0.05, "run:a"), (0.15, "port"), (0.2, "tokens")], 1.2, False, {"steps": 3}),
    "reload-late": ([(0.1, "run:a"), (0.9, "source")], 1.6, False, {}),
    "remove-late": ([(0.1, "run:a"), (0.9, "remove")], 1.2, False, {}),
    "remove": ([(0.1, "run:a"), (0.3, "remove")], 1.2, False, {}),
    "purges": ([], 0.9, False, {"pending": True}),
}
DURATION = {"backup": 0.4, "gc": 0.3, "cb": 0.3}
LOCKS = {"backup": [(".backup", fcntl.LOCK_EX), (".purge", fcntl.LOCK_SH)], "gc": [(".purge", fcntl.LOCK_EX)]}
flock = fcntl.flock


def flock_of_daemon(f, op):
    """Nobody but the event loop could end the programs that hold the lock."""
    try:
        return flock(f, op if op & fcntl.LOCK_UN else op | fcntl.LOCK_NB)
    except BlockingIOError:
        if op & fcntl.LOCK_NB:
            raise
        raise RuntimeError("the daemon blocks")


class Loop(net.VLoop):
    """Calls `inject` in front of the callback number `at`."""

    at = None
    inject = None
    count = 0
    first = None  # signals arrive after the callbacks that were there before the loop was started

    def add_signal_handler(self, sig, f, *a):
        self.handlers = getattr(self, "handlers", {})
        self.handlers[sig] = (f, a)

    def deliver(self, sig):
        f, a = self.handlers[sig]
        f(*a)

    def _run_once(self):
        n = len(self._ready)
        if self.first is None:
            self.first = n
        while self.at and self.count <= self.at[0] <= self.count + n:
            # as the signal wakeup does, only at any place
            h = asyncio.Handle(self.inject, (self.at[1],), self)
            self._ready.insert(self.at[0] - self.count, h)
            self.at = self.at[2] if len(self.at) > 2 else None
            n += 1
        self.count += n
        super()._run_once()


class Proc:
    """A program, in terms of asyncio's subprocess interface: ends by itself
    after a while, or shortly after a signal (unless it ignores that)."""

    pid = 4000

    def __init__(self, world, argv):
        Proc.pid += 1
        self.pid, self.argv, self.world = Proc.pid, argv, world
        self.kind = "cb" if argv[0] == "/cb" else jobs.func_of(argv)[2]
        self.job = argv[1] if self.kind == "cb" else os.path.basename(jobs.func_of(argv)[1])
        self.loop = asyncio.get_running_loop()
        self.returncode = None
        self.signals = []
        self.waiters = []
        self.started = env.clock.t
        self.timer = self.loop.call_later(DURATION[self.kind], self.finish)
        self.locks = []
        for f, mode in LOCKS.get(self.kind, ()):
            # as the program does
            try:
                lock = open(os.path.join(jobs.func_of(self.argv)[1], f), "a")
            except OSError:
                continue
            try:
                flock(lock, mode | fcntl.LOCK_NB)
                self.locks.append(lock)
            except BlockingIOError:
                lock.close()

    def finish(self):
        rc = self.world.faults.get(self.kind, 0)
        if self.kind == "backup" and not rc:
            _, path, _, (uuid,) = jobs.func_of(self.argv)
            f = os.path.join(path, uuid + ".rev")
            if os.path.exists(f):
                r = yaml.safe_load(open(f).read())
                r["stats"]["duration"] = 5.0
                with open(f, "w") as g:
                    yaml.safe_dump(r, g)
        if self.kind == "gc":
            try:
                os.unlink(os.path.join(jobs.func_of(self.argv)[1], ".purge_pending"))
            except FileNotFoundError:
                pass
        self.exit(rc)

    def exit(self, rc):
        if self.returncode is None:
            self.returncode = rc
            self.unlock()
            self.timer.cancel()
            for w in self.waiters:
                if not w.done():
                    w.set_result(None)

    def unlock(self):
        while self.locks:
            self.locks.pop().close()

    async def until_exit(self):
        if self.returncode is None:
            w = self.loop.create_future()
            self.waiters.append(w)
            await w

    async def wait(self):
        await self.until_exit()
        return self.returncode

    async def communicate(self, input=None):
        await asyncio.gather(*[self.until_exit() for _ in range(3)])
        await self.wait()
        return b"", b""

    def send_signal(self, s):
        if self.returncode is not None:
            raise ProcessLookupError()
        self.signals.append(s)
        if s == signal.SIGKILL or not self.world.stubborn:
            self.timer.cancel()
            self.loop.call_later(0.01, self.exit, -s)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


class World:
    def __init__(self, name, stubborn=False):
        self.name = name
        self.events, self.length, peers, self.faults = SCENARIOS[name]
        self.stubborn = stubborn
        d = self.d = env.fresh_dir("c31")
        self.base = d / "base"
        self.base.mkdir()
        self.conf = copy.deepcopy(CONF)
        self.conf["global"]["base-dir"] = str(self.base)
        self.conf["global"]["worker-limit"] = self.faults.get("limit", 2)
        if peers:
            self.conf["peers"] = PEERS
        for i, n in enumerate("ab"):
            (self.base / n).mkdir()
            hist.write_rev(self.base / n, hist.uuid_of(i), NOW - 0.01 * DAY, ("daily",))
        for n in "xy":
            if self.faults.get("pending"):
                p = self.base / n
                p.mkdir()
                (p / "config").write_text(yaml.safe_dump({
                    "path": str(p), "source": self.conf["jobs"]["a"]["source"], "schedule": CONF["schedules"]["s1"]}))
                (p / ".purge_pending").write_text("")
        self.old = self.complete()
        self.write()
        self.procs = []
        self.obsolete = []
        self.ended = None  # when the daemon was told to stop
        self.stopped_at = None

    def write(self, text=None):
        (self.d / "backy.conf").write_text(yaml.safe_dump(self.conf) if text is None else text)

    def complete(self):
        out = {}
        for n in "ab":
            if (self.base / n).exists():
                for u, r in hist.read_revs(self.base / n).items():
                    if "duration" in r["stats"]:
                        out[n, u] = r
        return out

    def unfinished(self):
        return [(n, u) for n in "ab" for u, r in hist.read_revs(self.base / n).items() if "duration" not in r["stats"]]

    # -- the environment of the daemon
    async def create(self, *argv, **kw):
        p = Proc(self, [os.fspath(a) for a in argv])
        self.procs.append(p)
        if self.ended is not None:
            self.late = p
        try:
            for _ in range(2):
                await asyncio.sleep(0)
        except BaseException:
            if p.returncode is None:  # as asyncio does
                p.kill()
            raise
        return p

    late = None

    async def hook(self, host, method, path, deliver):
        await asyncio.sleep(0.2)
        if "/status" in path and self.faults.get("leader"):
            return 200, json.dumps([{
                "job": "a", "sla": "OK", "sla_overdue": 0, "status": "running", "local_revs": 9,
                "last_time": None, "last_tags": None, "last_duration": None, "next_time": None, "next_tags": None,
                "manual_tags": "", "problem_reports": 0, "unsynced_revs": 0}]).encode()
        raise net.refused(host)

    def event(self, e):
        if self.ended is not None:
            return
        if e.startswith("run:"):
            self.dm.jobs[e[4:]].run_immediately.set()
        elif e.startswith("due:"):
            j = self.dm.jobs[e[4:]]
            hist.write_rev(self.base / e[4:], hist.uuid_of(0), NOW - 10 * DAY, ("daily",))
            self.old = self.complete()
            j.stop()
            j.start()
        else:
            if e == "source":
                self.conf["jobs"]["a"]["source"]["filename"] = "/elsewhere"
            elif e == "schedule":
                self.conf["jobs"]["a"]["schedule"] = "s2"
            elif e == "remove":
                del self.conf["jobs"]["a"]
            elif e == "limit":
                self.conf["global"]["worker-limit"] = 3
            elif e == "port":
                self.conf["api"]["port"] += 1
            elif e == "tokens":
                self.conf["api"]["tokens"]["new"] = "new"
            self.write()
            mine = [p for p in self.procs if p.returncode is None and p.job == "a"]
            self.loop.deliver(signal.SIGHUP)
            if e in ("source", "remove"):
                self.obsolete += mine

    obsolete = ()

    def end(self, how):
        """The moment the daemon learns that it has to stop."""
        first = self.ended is None
        if first:
            self.ended = env.clock.t
            self.running = [p for p in self.procs if p.returncode is None]
        self.loop.horizon = max(self.loop.horizon, self.ended + BOUND)
        if how == "unusable":
            self.write("jobs: [")
            try:
                self.loop.deliver(signal.SIGHUP)
            except Exception:
                pass
        elif how == "api":
            self.write("jobs: [")
            req = net.dispatch(self.dm.api_under_test.app, "POST", "/v1/reload", {"Authorization": "Bearer tok"})
            self.loop.create_task(req, name="request")
        elif how == "hup-term":
            self.write()
            self.loop.deliver(signal.SIGHUP)
            self.loop.deliver(signal.SIGTERM)
        else:
            self.loop.deliver(getattr(signal, how))

    def start_daemon(self, loop):
        from backy.daemon import BackyDaemon

        Site.steps = self.faults.get("steps", 0)
        self.loop = loop
        for p in self.procs:
            p.unlock()
        self.procs = []
        asyncio.create_subprocess_exec = self.create
        net.network.hook = self.hook
        self.dm = BackyDaemon(self.d / "backy.conf", env.log())
        cwd = os.getcwd()
        try:
            self.dm.start(loop)
            self.dm.api_server()
        finally:
            os.chdir(cwd)

    def close(self):
        for p in self.procs:
            p.unlock()
        if getattr(self, "dm", None) and self.dm._lock:
            self.dm._lock.close()
            self.dm._lock = None


def setup():
    env.boot()
    env.own_time()
    net.install()
    fcntl.flock = flock_of_daemon
    import backy.daemon
    import backy.daemon.api as api

    class Recorded(api.BackyAPI):
        def __init__(self, daemon, log):
            super().__init__(daemon, log)
            daemon.api_under_test = self

    backy.daemon.BackyAPI = Recorded
    api.TCPSite = Site


class Site:
    steps = 0

    def __init__(self, runner, host=None, port=None, **kw):
        self.name = f"{host}:{port}"

    async def start(self):
        for _ in range(self.steps):
            await asyncio.sleep(0)

    stop = start


def new_loop():
    loop = Loop()
    asyncio.set_event_loop(loop)
    loop.errors = []
    loop.set_exception_handler(lambda l, c: l.errors.append(c))
    return loop


def execute(name, at, stubborn=False):
    """-> (World, boundaries passed). at None: without an end."""
    env.clock.t = NOW
    w = World(name, stubborn)
    loop = new_loop()
    what = f"{name}{' (programs ignoring SIGTERM)' if stubborn else ''}, end {at}"
    try:
        w.start_daemon(loop)
        loop.at, loop.inject = at, w.end
        for t, e in w.events:
            loop.call_at(NOW + t, w.event, e)
        loop.horizon = NOW + w.length
        try:
            loop.run_forever()
        except net.Horizon:
            if w.ended is not None:
                raise Violation("does-not-end", f"{what}: still running {BOUND} s after having been told to stop")
            if [p for p in w.obsolete if not p.signals]:
                raise Violation("obsolete-program", f"{what}: {w.obsolete[0].argv} of a stopped job is never ended")
            if at is not None:
                raise core.Violation("harness", f"{what}: the boundary was not reached")
            return loop.first, loop.count
        if w.ended is None:
            raise Violation("ends-by-itself", f"{what}: the event loop was stopped")
        left = [p for p in w.procs if p.returncode is None and not p.signals]
        if left:
            raise Violation(f"program-goes-on-{left[0].kind}", f"{what}: {left[0].argv} was started at "
                            f"{left[0].started - NOW:.2f}, neither ended nor terminated when the daemon stopped")
        if w.late and signal.SIGKILL not in w.late.signals:
            raise Violation("late-program", f"{what}: {w.late.argv} was started after the daemon was told to stop")
        now = w.complete()
        for k, r in w.old.items():
            if now.get(k) != r:
                raise Violation("revision-lost", f"{what}: {k} was {r}, is {now.get(k)}")
        out = f"{w.name}: " + (",".join(sorted({p.kind for p in w.running})) or "idle")
        return w, out
    finally:
        net.close_loop(loop)
        w.close()
        if w.ended is None:
            env.rmtree(w.d)


def go_on(w, what):
    """A new daemon in the same directory makes all backups."""
    env.clock.t += 3
    before = w.complete()
    w.faults, w.ended, w.late, w.stubborn = {}, None, None, False
    w.conf["peers"] = {}
    w.write()
    loop = new_loop()
    try:
        w.start_daemon(loop)
        t = env.clock.t
        for n in w.conf["jobs"]:
            loop.call_at(t + 0.2, w.event, "run:" + n)
        loop.horizon = t + 6
        try:
            loop.run_forever()
        except net.Horizon:
            pass
        else:
            raise Violation("new-daemon-ends", f"{what}: the next daemon does not stay")
        after = w.complete()
        for n in w.conf["jobs"]:
            new = [k for k in after if k[0] == n and k not in before]
            if not new:
                raise Violation("new-daemon-stuck", f"{what}: the next daemon makes no backup of {n} "
                                f"({w.dm.jobs[n].status})")
            left = [k for k in w.unfinished() if k[0] == n]
            if left:
                raise Violation("leftovers", f"{what}: unfinished {left} is still there after a complete backup")
            for k, r in before.items():
                if k[0] == n and after.get(k) != r:
                    raise Violation("revision-lost-later", f"{what}: {k} was {r}, is {after.get(k)}")
        pend = [n for n in "xy" if (w.base / n / ".purge_pending").exists()]
        if pend:
            raise Violation("purge-lost", f"{what}: purge of {pend} is never done")
    finally:
        net.close_loop(loop)
        w.close()


_seen = set()


def state(w):
    """What the next daemon gets to see, up to names of revisions."""
    out = [tuple(sorted(w.conf["jobs"])), w.conf["jobs"].get("a", {}).get("schedule")]
    for n in "abxy":
        d = w.base / n
        if not d.exists():
            continue
        for e in sorted(os.scandir(d), key=lambda e: e.name):
            if e.name.endswith(".rev") and not e.is_symlink():
                r = yaml.safe_load(open(e.path))
                out.append((n, "duration" in r["stats"], tuple(r["tags"])))
            elif not e.is_symlink() and e.name != "backy.log":
                out.append((n, e.name, open(e.path).read() if e.name == "config" else ""))
    return core.digest(json.dumps([str(x).replace(str(w.d), "") for x in out]))


def case(j):
    name, hows, stubborn, lo, hi, seconds = j
    out = {}
    for n in range(lo, hi):
        for how in hows:
            for s in seconds:
                at = (n, how) if s is None else (n, how, (n + s[0], s[1]))
                w, o = execute(name, at, stubborn)
                try:
                    st = state(w)
                    if st not in _seen:
                        _seen.add(st)
                        go_on(w, f"{name}, end {at}")
                        o += ", then continued"
                finally:
                    env.rmtree(w.d)
                out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


# ---------------------------------------------------------------- two daemons


def second(j):
    """A second daemon started while the first one is at work."""
    from backy.daemon import BackyDaemon

    name, ns = j
    done = 0
    for n in ns:
        env.clock.t = NOW
        w = World(name)
        loop = new_loop()
        what = f"{name}, second daemon at {n}"
        try:
            w.start_daemon(loop)
            res = []

            def tree():
                return {os.path.join(d, f): (st.st_ino, st.st_mtime_ns, st.st_size)
                        for d, _, fs in os.walk(w.base) for f in fs
                        for st in [os.lstat(os.path.join(d, f))]}

            def start(_):
                before = tree()
                tasks = set(asyncio.all_tasks(loop))
                dm = BackyDaemon(w.d / "backy.conf", env.log())
                cwd = os.getcwd()
                try:
                    dm.start(loop)
                    res.append("it runs")
                except SystemExit as e:
                    res.append("" if e.code == 69 else f"exit status {e.code}")
                except Exception as e:
                    res.append(repr(e))
                finally:
                    os.chdir(cwd)
                    if dm._lock:
                        dm._lock.close()
                if not res[-1] and (tree() != before or asyncio.all_tasks(loop) != tasks):
                    res.append("it modified something")

            loop.at, loop.inject = (n, None), start
            for t, e in w.events:
                loop.call_at(NOW + t, w.event, e)
            loop.horizon = NOW + w.length
            try:
                loop.run_forever()
            except net.Horizon:
                pass
            if res != [""]:
                raise Violation("second-daemon", f"{what}: {res}")
            done += 1
        finally:
            net.close_loop(loop)
            w.close()
            env.rmtree(w.d)
    return done, "second instance refused"


def all_cases(tier):
    out, two = [], []
    for name in SCENARIOS:
        first, total = execute(name, None)
        k = 25
        for lo in range(first, total, k):
            hi = min(lo + k, total)
            out.append((name, ["SIGTERM"], False, lo, hi, [None]))
            out.append((name, ["unusable", "api"], False, lo, hi, [None]))
            out.append((name, ["SIGTERM"], True, lo, hi, [None]))
            if tier == "thorough":
                out.append((name, ["SIGINT", "SIGQUIT", "hup-term"], False, lo, hi, [None]))
                for s in range(8):
                    for how in ("SIGTERM", "SIGHUP"):
                        out.append((name, ["SIGTERM"], False, lo, hi, [(s, how)]))
                        out.append((name, ["unusable"], True, lo, hi, [(s, how)]))
            else:
                for s in (0, 2, 5):
                    out.append((name, ["SIGTERM"], False, lo, hi, [(s, "SIGTERM")]))
                out.append((name, ["SIGINT", "hup-term"], False, lo, min(lo + 8, hi), [None]))
                out.append((name, ["SIGQUIT"], False, lo, min(lo + 8, hi), [(1, "SIGHUP")]))
        two.append((name, list(range(first, total, 7 if tier == "quick" else 2))))
    return out, two


def run(rep, tier):
    setup()
    out, two = all_cases(tier)
    core.cases(rep, "ends", case, out)
    core.cases(rep, "second", second, two)
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["programs are stand-ins with asyncio's process interface, ending 10 ms after a signal or ignoring SIGTERM",
                        f"ended means: at most {BOUND} s after the request"]


def replay(r):
    setup()
    try:
        f = second if r["space"] == "second" else case
        print(f(tuple(r["case"]) if f is second else tuple(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    except Exception:
        traceback.print_exc()
        return 2
    return 0
