"""C13: the real job loop under virtual time, for all sequences of step
outcomes and triggers, against a reference of when which program must run."""
import asyncio
import datetime
import fcntl
import itertools
import json
import os

import yaml

from .. import core, env, hist, jobs, net
from ..core import Violation

DAY = 86400.0
D = 100.0  # how long a backup takes
JOB = "job"
NOW = 500 * DAY + 1000.0

OUTCOMES = [
    "ok", "rc1", "killed", "spawn", "locked", "locked-after", "gc-spawn", "gc-rc", "cb-spawn", "cb-rc", "broken",
    "broken-after", "led", "led-fail", "led-trig",
]
TRIGGERS = ["", "wait", "run"]
FAST = ["ok", "rc1", "spawn", "locked-after", "broken", "gc-spawn", "led-fail"]


def setup():
    env.boot()
    env.own_time()
    net.install()


class Peer:
    """The other server: by default nobody listens."""

    def __init__(self):
        self.mode = None
        self.polls = 0
        self.revs = []

    async def __call__(self, method, path, headers, body):
        if self.mode is None:
            raise net.refused("peer")
        if "/status" in path:
            self.polls += 1
            st = {"job": JOB, "local_revs": 99, "status": "running", "last_time": None, "next_time": None}
            if self.mode == "led":
                now = env.clock.now()
                st["last_time"] = now.isoformat()
                self.revs.append({"uuid": f"led{len(self.revs)}", "timestamp": now.isoformat(), "parent": "",
                                  "stats": {"bytes_written": 1, "duration": 1.5}, "trust": "trusted",
                                  "tags": sorted(self.tags), "orig_tags": [], "server": ""})
            elif self.polls > 1 and self.mode == "led-fail":
                raise net.disconnected()
            return 200, json.dumps([st]).encode()
        if self.mode != "led":
            raise net.refused("peer")
        return (200, json.dumps(self.revs).encode()) if method == "GET" else (204, b"")


def root():
    d = env.scratch_root() / f"c13.{os.getpid()}"
    if not d.exists():
        (d / "base").mkdir(parents=True)
        (d / "src").write_bytes(b"content")
    return d


def fresh(schedule, history):
    d = root()
    p = d / "base" / JOB
    if p.exists():
        for e in list(os.scandir(p)):
            if not e.is_dir(follow_symlinks=False):
                os.unlink(e.path)
    else:
        p.mkdir()
    for i, age in enumerate(history):
        hist.write_rev(p, hist.uuid_of(i), NOW - age, ("daily",))
    (d / "backy.conf").write_text(yaml.safe_dump({
        "global": {"base-dir": str(d / "base"), "backup-completed-callback": "/cb"},
        "peers": {"peer": {"url": "http://peer.host", "token": "t"}},
        "schedules": {"s": schedule},
        "jobs": {JOB: {"source": {"type": "file", "filename": str(d / "src")}, "schedule": "s"}}}))
    return d, p


SCHEDULES = {"d": {"daily": {"interval": "1d", "keep": 2}}, "dw": {"daily": {"interval": "1d", "keep": 2},
                                                                  "weekly": {"interval": "7d", "keep": 2}}}


class Run:
    """One execution: the sequence of attempts with their faults."""

    def __init__(self, sched, history, seq):
        self.seq = seq
        self.d, self.path = fresh(SCHEDULES[sched], history)
        self.schedule = SCHEDULES[sched]
        self.what = f"schedule {sched}, history {[round(h / DAY, 1) for h in history]}, attempts {seq}"
        self.peer = Peer()
        self.peer.tags = set(self.schedule)
        self.prog = jobs.new_programs()
        self.prog.handler = self.handler
        self.prog.on_start = self.started
        self.current = "ok"
        self.events = []  # (time, what)
        self.lockfile = None
        self.incomplete_at_start = []

    # -- the environment
    def started(self, p):
        func = "cb" if p.argv[0] == "/cb" else jobs.func_of(p.argv)[2]
        if func == "backup":
            self.starts += 1
            if self.starts > 1 and self.follow:
                # triggered during the attempt before: no time passes between
                self.current, self.triggers = self.follow
        if (self.current, func) in (("spawn", "backup"), ("gc-spawn", "gc"), ("cb-spawn", "cb")):
            self.prog.procs.remove(p)
            p._task.cancel()
            self.events.append((env.clock.t, func + "!"))
            raise FileNotFoundError(2, "No such file or directory", p.argv[0])
        self.events.append((env.clock.t, func))
        if func == "backup":
            inc = [u for u, r in hist.read_revs(self.path).items() if r and "duration" not in r["stats"]]
            self.incomplete_at_start.append((env.clock.t, len(inc)))
            if "run" in self.triggers and not self.current.endswith("-after"):
                self.loop.call_later(D / 2, self.trigger)

    async def handler(self, p):
        import backy.source

        if p.argv[0] == "/cb":
            self.callback_input.append(p)
            return 1 if self.current == "cb-rc" else 0
        t, path, func, rest = jobs.func_of(p.argv)
        if func == "backup":
            await asyncio.sleep(D)
            if self.current == "rc1":
                return 1
            if self.current == "killed":
                return -9
        elif self.current == "gc-rc":
            return 3
        cls = backy.source.factory_by_type(t)
        with env.Quiet():
            rc = cls.main(*p.argv)
        if func == "backup":
            if self.current == "locked-after":
                self.lock(True)
                self.loop.call_later(1, self.lock, False)
            if self.current == "broken-after":
                self.break_metadata(True)
                self.loop.call_later(1, self.break_metadata, False)
        return rc

    def lock(self, on):
        if on:
            self.lockfile = open(self.path / ".backup", "a+")
            fcntl.flock(self.lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
        elif self.lockfile:
            self.lockfile.close()
            self.lockfile = None

    def break_metadata(self, on):
        f = self.path / "broken.rev"
        if on:
            f.write_text("]")
        else:
            f.unlink(missing_ok=True)

    def trigger(self):
        self.job.run_immediately.set()

    # -- reference
    def planned(self):
        """When the schedule wants the next run (C12 checks the planner)."""
        from backy.schedule import Schedule

        s = Schedule()
        s.configure(self.schedule)
        repo = hist.repository(self.path, self.schedule)
        return s.next(env.clock.now(), self.job.spread, repo)

    def at(self, t):
        return (t - env.EPOCH).total_seconds()

    async def main(self):
        from backy.daemon import BackyDaemon

        self.loop = asyncio.get_running_loop()
        net.network.servers = {"peer.host": self.peer}
        net.network.log = []
        dm = BackyDaemon(self.d / "backy.conf", env.log())
        dm.loop = self.loop
        self.callback_input = []
        self.triggers, self.follow, self.starts = (), None, 0
        dm._read_config()
        dm._apply_config()
        self.job = dm.jobs[JOB]
        self.expected = []
        errors = 0
        pending = False  # triggered during the previous attempt
        seen = 0
        for i, (outcome, trig) in enumerate(self.seq):
            await self.settle()
            # the job is now idle: when must it run next?
            t0 = env.clock.t
            if errors:
                nxt = self.failed + min(2 ** errors, 360) * 60
                tags = None
            else:
                when, tags = self.planned()
                nxt = max(self.at(when), t0)
            triggered = False
            if pending:
                nxt, triggered = ended, True
            elif trig == "wait" and nxt - t0 > 10:
                nxt = t0 + (nxt - t0) / 2
                triggered = True
                self.loop.call_at(nxt, self.trigger)
            pending = False
            if triggered and nxt <= t0 and outcome in ("locked", "broken"):
                outcome = "ok"  # too late to prepare
            if self.follow:
                self.starts = 1
            else:
                self.current, self.triggers = outcome, (trig,)
                self.starts = 0
            self.follow = None
            led = outcome.startswith("led") and not triggered
            self.peer.mode, self.peer.polls = (outcome if led else None), 0
            if nxt - t0 > 2:
                await asyncio.sleep(nxt - t0 - 1)
            elif outcome in ("locked", "broken"):
                outcome = self.current = "ok"  # too late to prepare
            if self.job._task.done():
                raise Violation("loop-ended", f"{self.what}: attempt {i}")
            if outcome == "locked":
                self.lock(True)
            if outcome == "broken":
                self.break_metadata(True)
            before = self.complete() if outcome != "broken" else None
            await asyncio.sleep(max(0, nxt - env.clock.t) + 0.5)
            # what must have happened
            start = nxt
            fail = None
            want = []
            if outcome == "led" and led:
                want = [(start, "cb")]
            elif outcome in ("locked", "broken"):
                fail = start
                self.lock(False)
                self.break_metadata(False)
            else:
                if led and outcome == "led-fail":
                    start += 300
                    await asyncio.sleep(300)
                if led and outcome == "led-trig":
                    self.loop.call_later(100, self.trigger)
                    start = env.clock.t + 100
                    await asyncio.sleep(100.5)
                pending = trig == "run" and outcome not in ("spawn", "locked-after", "broken-after")
                if pending:
                    o, t = self.seq[i + 1] if i + 1 < len(self.seq) else ("ok", "")
                    self.follow = "ok" if o in ("locked", "broken") else o, (t,)
                want = [(start, "backup" if outcome != "spawn" else "backup!")]
                if outcome == "spawn":
                    fail = start
                else:
                    await asyncio.sleep(D)
                    end = ended = start + D
                    if outcome in ("rc1", "killed", "locked-after", "broken-after"):
                        fail = end
                    elif outcome == "gc-spawn":
                        want.append((end, "gc!"))
                        fail = end
                    elif outcome == "cb-spawn":
                        want += [(end, "gc"), (end, "cb!")]
                        fail = end
                    else:
                        want += [(end, "gc"), (end, "cb")]
            got = [(round(t, 1), e) for t, e in self.events[seen:]]
            if pending:
                got = got[:len(want)]
            want = [(round(t, 1), e) for t, e in want]
            what = f"{self.what}: attempt {i}, planned for +{nxt - t0:g}s after {errors} errors"
            if not same(got, want):
                raise Violation("programs", f"{what}: started {rel(got, t0)}, expected {rel(want, t0)}")
            seen += len(want)
            if self.job._task.done():
                raise Violation("loop-ended", what)
            for t, n in self.incomplete_at_start:
                if n != 1:
                    raise Violation("leftovers", f"{what}: {n} unfinished revisions when a backup starts")
            self.check_effects(what, outcome, led, fail, before, tags)
            if fail is None:
                errors = 0
            else:
                errors += 1
                self.failed = fail
        self.job.stop()

    async def settle(self):
        for _ in range(3):
            await asyncio.sleep(0)

    def check_effects(self, what, outcome, led, fail, before, tags):
        pushes = [x for x in net.network.log if x[1] == "PUT"]
        pulls = [x for x in net.network.log if x[1] == "POST" and x[2].endswith("/touch")]
        net.network.log.clear()
        if before is None:
            return
        if outcome == "broken-after":
            self.break_metadata(False)
        revs = hist.read_revs(self.path)
        done = self.complete()
        backed_up = not (outcome in ("rc1", "killed", "spawn", "locked", "broken") or (outcome == "led" and led))
        new = {u for u in done - before}
        if len(new) != backed_up:
            raise Violation("backup-result", f"{what}: {len(new)} new complete revisions")
        if backed_up and tags is not None:
            if set(revs[new.pop()]["tags"]) != tags:
                raise Violation("tags", f"{what}: not tagged as planned {tags}")
        if fail is not None and not backed_up:
            gone = before - set(revs)
            gone = {u for u in gone if u in self.known_complete}
            if gone:
                raise Violation("expired-after-failure", f"{what}: {gone}")
            if pushes or pulls:
                raise Violation("network-after-failure", f"{what}: {pushes} {pulls}")
        elif outcome == "led" and led:
            if len(pulls) != 1 or not set(revs) >= {x["uuid"] for x in self.peer.revs}:
                raise Violation("led-not-pulled", f"{what}: {pulls}")
            self.pending = False
        elif backed_up and outcome not in ("locked-after", "broken-after"):
            if len(pulls) != 1 or len(pushes) != self.pending:
                raise Violation("no-sync", f"{what}: pulls {pulls}, pushes {pushes}")
        self.known_complete = done

    def complete(self):
        return {u for u, r in hist.read_revs(self.path).items() if "duration" in r["stats"] and not r["server"]}

    known_complete = frozenset()
    pending = True  # a change for the peer's revision


def same(got, want):
    return len(got) == len(want) and all(a[1] == b[1] and abs(a[0] - b[0]) < 0.75 for a, b in zip(got, want))


def rel(ev, t0):
    return [(round(t - t0, 1), e) for t, e in ev]


def one(sched, history, seq):
    env.clock.t = NOW
    r = Run(sched, history, seq)
    r.known_complete = r.complete()
    # a revision of the peer with a pending change: pushes are visible
    hist.write_rev(r.path, hist.uuid_of(90), NOW - 40 * DAY, ("manual:new",), server="peer", orig=("manual:old",))
    loop = net.new_loop()
    try:
        loop.run_until_complete(r.main())
    finally:
        r.lock(False)
        net.close_loop(loop)
    return "/".join(o for o, _ in seq)


def case(j):
    sched, history, seqs = j
    out = {}
    for s in seqs:
        one(sched, history, s)
        o = f"{len(s)} attempts"
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def jobs_for(tier):
    steps = list(itertools.product(OUTCOMES, TRIGGERS))
    few = list(itertools.product(FAST, TRIGGERS))
    old = (20 * DAY, 5 * DAY, 4.5 * DAY, 0.5 * DAY)
    cases = []
    cases += [("d", old, s) for s in itertools.product(steps, repeat=2)]
    if tier == "quick":
        cases += [("d", old, s) for s in itertools.product([x for x in few if x[1] != "wait"], repeat=3)]
        cases += [("dw", (), s) for s in itertools.product(few, repeat=2)]
    else:
        cases += [("d", old, s) for s in itertools.product(steps, few, steps)]
        cases += [("d", old, s) for s in itertools.product(few, repeat=4)]
        cases += [("dw", (), s) for s in itertools.product(steps, repeat=2)]
        cases += [("dw", (3 * DAY,), s) for s in itertools.product(steps, repeat=2)]
    for bad in ("rc1", "killed", "spawn", "locked", "locked-after", "broken", "gc-spawn", "cb-spawn", "broken-after"):
        for n in (9, 12):
            cases.append(("d", old, ((bad, ""),) * n + (("ok", ""), ("ok", ""), (bad, ""), ("ok", ""))))
            cases.append(("d", old, ((bad, ""),) * n + (("ok", "wait"), ("ok", ""))))
    k = 30
    return [(s, h, [c[2] for c in g]) for (s, h), grp in itertools.groupby(cases, key=lambda c: (c[0], c[1]))
            for g in chunks(list(grp), k)]


def chunks(x, k):
    return [x[i:i + k] for i in range(0, len(x), k)]


def run(rep, tier):
    setup()
    core.cases(rep, "job loop", case, jobs_for(tier))
    rep.add(traces_validated_against_impl=rep.cov["transitions"])


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def replay(r):
    setup()
    try:
        print(case(tup(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
