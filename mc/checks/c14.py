"""C14: the real daemon with several jobs on a virtual-time event loop, for all
orders of deadlines, triggers, completions, failures and reloads, against a
reference of who may hold a worker slot."""
import asyncio
import json
import os

import yaml

from .. import core, env, hist, jobs, net
from ..core import Violation

DAY = 86400.0
NOW = 500 * DAY + 1000.0


def setup():
    env.boot()
    env.own_time()
    net.install()


# name -> (duration of the last complete backup or None)
SPACES = {
    "limit1": dict(limit=1, jobs={"a": 1000, "b": 1000, "c": 10}),
    "limit2": dict(limit=2, jobs={"a": None, "b": 1000, "c": 600}),
    "fast": dict(limit=1, jobs={"a": 10, "b": 599, "c": None}),
    "long": dict(limit=1, jobs={"a": 1000, "b": 1000}, hold=("backup", "gc", "cb")),
}


class World:
    """A daemon plus the reference: wants[j] = class it queues for, slots[j] =
    class whose slot it holds."""

    def __init__(self, space, history):
        self.cfg, self.history = SPACES[space], history
        self.hold = self.cfg.get("hold", ("backup",))
        self.names = sorted(self.cfg["jobs"])
        self.d = env.fresh_dir("c14")
        self.base = self.d / "base"
        self.base.mkdir()
        for i, (n, dur) in enumerate(sorted(self.cfg["jobs"].items())):
            (self.base / n).mkdir()
            if dur is not None:
                hist.write_rev(self.base / n, hist.uuid_of(i), NOW - 0.5 * DAY, ("daily",), duration=float(dur))
        self.version = dict.fromkeys(self.names, 0)
        self.present = set(self.names)
        self.held = {}  # job -> (proc, future)
        self.wants, self.slots = {}, {}
        self.trig = set()  # triggered while not waiting for a deadline
        self.prog = jobs.new_programs()
        self.prog.handler = self.handler
        self.serial = 10

    def write_conf(self):
        (self.d / "backy.conf").write_text(yaml.safe_dump({
            "global": {"base-dir": str(self.base), "worker-limit": self.cfg["limit"],
                       "backup-completed-callback": "/cb"},
            "schedules": {"s": {"daily": {"interval": "1d", "keep": 9}}},
            "jobs": {n: {"source": {"type": "file", "filename": f"/src/{self.version[n]}"}, "schedule": "s"}
                     for n in sorted(self.present)}}))

    async def handler(self, p):
        if p.argv[0] == "/cb":
            n, func = p.argv[1], "cb"
        else:
            _, path, func, rest = jobs.func_of(p.argv)
            n = os.path.basename(path)
        p.job, p.func = n, func
        if n in self.held:
            raise Violation("two-programs", f"{self.history}: {n} runs {self.held[n][0].func} and {func}")
        if func not in self.hold:
            return 0
        fut = asyncio.get_running_loop().create_future()
        self.held[n] = (p, fut)
        try:
            rc = await fut
        finally:
            del self.held[n]
        if func == "backup" and rc[0] is not None:
            f = self.base / n / (rest[0] + ".rev")
            r = yaml.safe_load(f.read_text())
            r["stats"]["duration"] = float(rc[0])
            f.write_text(yaml.safe_dump(r))
        return rc[1]

    # ------------------------------------------------------------ reference
    def cls(self, n):
        revs = [r for r in hist.read_revs(self.base / n).values() if "duration" in r["stats"]]
        revs.sort(key=lambda r: r["timestamp"])
        return "fast" if revs and revs[-1]["stats"]["duration"] < 600 else "slow"

    def overdue(self, n):
        """A starting job that has some history but no recent backup runs at
        once (checked in C12)."""
        revs = hist.read_revs(self.base / n).values()
        good = [r["timestamp"] for r in revs if "duration" in r["stats"]]
        return bool(revs) and not (good and (env.clock.now() - max(good)).total_seconds() < DAY)

    def wake(self, n):
        if n in self.wants or n in self.slots:
            self.trig.add(n)
        else:
            self.wants[n] = self.cls(n)

    def drop(self, n):
        self.wants.pop(n, None)
        self.slots.pop(n, None)

    def leave(self, n, failed):
        """The attempt of n is over."""
        self.slots.pop(n)
        if n in self.trig or (not failed and self.overdue(n)):
            self.trig.discard(n)
            self.wants[n] = self.cls(n)

    async def settle(self):
        for _ in range(60):
            await asyncio.sleep(0)

    def check(self, what):
        """Compare with what runs."""
        running = {}
        for p in self.prog.running():
            running.setdefault(p.job, []).append(p.func)
        for n in list(self.wants):
            if n in running:
                self.slots[n] = self.wants.pop(n)
        for n, fs in running.items():
            if len(fs) > 1:
                raise Violation("job-twice", f"{what}: {n} runs {fs}")
            if n not in self.slots:
                raise Violation("unexpected-run", f"{what}: {n} runs {fs} without being due or triggered")
        for n in self.slots:
            if n not in running:
                raise Violation("not-running", f"{what}: {n} holds a slot but runs nothing ({self.dm.jobs[n].status})")
        for c in ("fast", "slow"):
            used = [n for n in self.slots if self.slots[n] == c]
            queue = [n for n in self.wants if self.wants[n] == c]
            if len(used) > self.cfg["limit"]:
                raise Violation("too-many", f"{what}: {used} run in class {c}, limit {self.cfg['limit']}")
            if queue and len(used) < self.cfg["limit"]:
                raise Violation("starving", f"{what}: {queue} wait for class {c} while only {used} run "
                                f"({[self.dm.jobs[n].status for n in queue]})")

    # ------------------------------------------------------------ events
    def idle(self):
        return [n for n in sorted(self.present) if n not in self.wants and n not in self.slots]

    def enabled(self):
        ev = []
        for n in sorted(self.held):
            f = self.held[n][0].func
            ev += [f"{n}:fast", f"{n}:slow", f"{n}:fail"] if f == "backup" else [f"{n}:done"]
        ev += [f"{n}:trigger" for n in sorted(self.present)]
        ev += [f"{n}:change" for n in sorted(self.present)]
        ev += [f"{n}:remove" if n in self.present else f"{n}:add" for n in self.names[:2]]
        ev.append("reload")
        if self.idle():
            ev.append("tick")
        return ev

    async def event(self, e, what):
        dm = self.dm
        if e == "reload":
            self.write_conf()
            dm.reload()
        elif e == "tick":
            due = {n: dm.jobs[n].next_time for n in self.idle()}
            if None in due.values():
                raise Violation("not-waiting", f"{what}: {due} {[dm.jobs[n].status for n in due]}")
            t = min((d - env.EPOCH).total_seconds() for d in due.values())
            await asyncio.sleep(max(0, t - env.clock.t) + 0.25)
            for n, d in due.items():
                if (d - env.EPOCH).total_seconds() <= env.clock.t - 0.01:
                    self.wake(n)
        else:
            n, a = e.split(":")
            if a == "trigger":
                self.wake(n)
                st, _ = await self.api("POST", f"/v1/jobs/{n}/run")
                if st != 202:
                    raise Violation("trigger-refused", f"{what}: {st}")
            elif a in ("change", "remove", "add"):
                if a == "change":
                    self.version[n] += 1
                elif a == "remove":
                    self.present.discard(n)
                    self.trig.discard(n)
                else:
                    self.present.add(n)
                self.drop(n)
                self.write_conf()
                dm.reload()
                # a trigger survives the restart of the job
                if a != "remove" and (n in self.trig or self.overdue(n)):
                    self.trig.discard(n)
                    self.wants[n] = self.cls(n)
            else:
                p, fut = self.held[n]
                fut.set_result({"fast": (10, 0), "slow": (1000, 0), "fail": (None, 1), "done": (None, 0)}[a])
                last = p.func == self.hold[-1] or a == "fail"
                await self.settle()
                if last:
                    self.leave(n, a == "fail")
        # finishing and starting: make sure time stamps of revisions differ
        await asyncio.sleep(0.01)
        await self.settle()

    async def api(self, method, path):
        return await net.dispatch(self.app.app, method, path, {"Authorization": "Bearer tok"})

    async def main(self):
        from backy.daemon import BackyDaemon
        from backy.daemon.api import BackyAPI

        net.network.servers = {}
        self.write_conf()
        dm = self.dm = BackyDaemon(self.d / "backy.conf", env.log())
        dm.loop = asyncio.get_running_loop()
        dm._read_config()
        dm._apply_config()
        self.app = BackyAPI(dm, env.log())
        await self.app.start()
        await self.app.reconfigure({"tok": "client"}, [], 0)
        await self.settle()
        self.check("start")
        for i, e in enumerate(self.history):
            what = f"limit {self.cfg['limit']}, jobs {self.cfg['jobs']}, events {self.history[:i + 1]}"
            await self.event(e, what)
            self.check(what)
        return self.key(), self.enabled()

    def key(self):
        q = {}
        for s in ("fast", "slow"):
            sem = self.dm.backup_semaphores[s]
            q[s] = sem._value
        out = []
        now = env.clock.t
        # the order in which the idle jobs will wake up
        dl = sorted((round((self.dm.jobs[n].next_time - env.EPOCH).total_seconds() - now), n) for n in self.idle()
                    if self.dm.jobs[n].next_time)
        for n in self.names:
            j = self.dm.jobs.get(n)
            out.append((n, j and j.status, j and j.errors, j and j.run_immediately.is_set(), self.wants.get(n),
                        self.slots.get(n), self.held[n][0].func if n in self.held else None, n in self.trig,
                        self.cls(n), self.overdue(n)))
        waiting = self.queue_order()
        return core.digest((q, out, [n for _, n in dl], waiting))

    def queue_order(self):
        order = []
        # which job of a class is served first depends on who queued first
        for s in ("fast", "slow"):
            w = self.dm.backup_semaphores[s]._waiters
            order.append(len(w or ()))
        return order, list(self.wants.items())


def execute(space, history):
    env.clock.t = NOW
    w = World(space, list(history))
    loop = net.new_loop()
    try:
        with env.Quiet():
            return loop.run_until_complete(w.main())
    finally:
        net.close_loop(loop)
        env.rmtree(w.d)


class Space:
    def __init__(self, name):
        self.name = name

    def init(self):
        key, en = execute(self.name, ())
        return [(key, ((), en))]

    def ops(self, st, h):
        return st[1]

    def step(self, st, op, h):
        hist_ = st[0] + (op,)
        key, en = execute(self.name, hist_)
        return key, (hist_, en), op.split(":")[-1]


DEPTH = {"quick": {"limit1": 6, "limit2": 5, "fast": 4, "long": 6},
         "thorough": {"limit1": 8, "limit2": 8, "fast": 8, "long": 10}}


def run(rep, tier):
    setup()
    for name, depth in DEPTH[tier].items():
        s = Space(name)
        core.bfs(rep, name, s.init(), s.ops, s.step, depth, deadline=None if tier == "quick" else 700)
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["a program that was sent SIGTERM counts as ended", "programs are coroutines on the same loop"]


def replay(r):
    setup()
    try:
        print(execute(r["space"], tuple(r["history"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
