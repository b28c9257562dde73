"""C15: the real daemon reloading every sequence of configurations, compared
with a fresh start of the last one; jobs that did not change go on."""
import asyncio
import copy
import itertools
import json
import os
import signal

import yaml

from .. import core, env, hist, jobs, net
from ..core import Violation

DAY = 86400.0
NOW = 500 * DAY + 1000.0

S1 = {"daily": {"interval": "1d", "keep": 2}}
BASE = {
    "global": {"worker-limit": 1},
    "api": {"addrs": "127.0.0.1", "port": 1, "tokens": {"tok": "client"}, "cli-default": {"token": "tok"}},
    "peers": {"p1": {"url": "http://p1", "token": "x"}},
    "schedules": {"s1": S1, "s2": {"weekly": {"interval": "7d", "keep": 2}}},
    "jobs": {"a": {"source": {"type": "file", "filename": "/a"}, "schedule": "s1"},
             "b": {"source": {"type": "file", "filename": "/b"}, "schedule": "s2"}},
}


def edit(**kw):
    """A copy of BASE; keys are paths joined with __, None deletes."""
    c = copy.deepcopy(BASE)
    for k, v in kw.items():
        d = c
        *path, last = k.replace("_H_", "-").split("__")
        for x in path:
            d = d.setdefault(x, {})
        if v is None:
            del d[last]
        else:
            d[last] = v
    return c


def file(x, schedule):
    return {"source": {"type": "file", "filename": x}, "schedule": schedule}


CONFIGS = {
    "base": BASE,
    "add": edit(jobs__c=file("/c", "s1")),
    "remove": edit(jobs__b=None),
    "source": edit(jobs__a=file("/other", "s1")),
    "rbd": edit(jobs__a={"source": {"type": "rbd", "pool": "p", "image": "i"}, "schedule": "s1"}),
    "keep": edit(schedules__s1={"daily": {"interval": "1d", "keep": 5}}),
    "interval": edit(schedules__s1={"daily": {"interval": "2h", "keep": 2}}),
    "tag": edit(schedules__s1={"monthly": {"interval": "30d", "keep": 2}}),
    "move": edit(jobs__a=file("/a", "s2")),
    "rename": edit(schedules__s1=None, schedules__s9=S1, jobs__a=file("/a", "s9")),
    "limit": edit(global__worker_H_limit=2),
    "tokens": edit(api__tokens={"tok2": "other"}),
    "peers": edit(peers={"p1": {"url": "http://elsewhere", "token": "y"}, "p2": {"url": "http://p2", "token": "z"}}),
    "addrs": edit(api__addrs="127.0.0.1, ::1"),
    "port": edit(api__port=2),
    "callback": edit(**{"global__backup_H_completed_H_callback": "/cb"}),
    "bare": edit(api=None, peers=None, global__worker_H_limit=None),
    "nojobs": edit(jobs={}),
}
SMALL = ["base", "add", "remove", "source", "interval", "move", "limit", "tokens", "bare"]
BROKEN = {
    "syntax": "jobs: [",
    "empty": "",
    "no-schedule": edit(jobs__a=file("/a", "gone")),
    "late": edit(jobs__c=file("/c", "gone"), jobs__a=file("/late", "s1"), api__tokens={"late": "x"}),
    "dangling": edit(schedules__s1=None),
    "no-jobs": edit(jobs=None),
    "no-global": edit(**{"global": None}),
    "duration": edit(schedules__s1={"daily": {"interval": "soon", "keep": 1}}),
    "missing": None,
    "directory": Ellipsis,
}


def setup():
    env.boot()
    env.own_time()
    net.install()
    import backy.daemon
    import backy.daemon.api as api

    class Recorded(api.BackyAPI):
        def __init__(self, daemon, log):
            super().__init__(daemon, log)
            daemon.api_under_test = self

    backy.daemon.BackyAPI = Recorded
    api.TCPSite = Site


class Site:
    """A listening socket; starting and stopping takes a few loop steps."""

    steps = 0

    def __init__(self, runner, host=None, port=None, **kw):
        self.name, self.on = f"{host}:{port}", False

    async def start(self):
        for _ in range(self.steps):
            await asyncio.sleep(0)
        self.on = True

    async def stop(self):
        for _ in range(self.steps):
            await asyncio.sleep(0)
        self.on = False


class Loop(net.VLoop):
    def add_signal_handler(self, sig, f, *a):
        self.handlers = getattr(self, "handlers", {})
        self.handlers[sig] = (f, a)


class World:
    def __init__(self, first):
        d = self.d = env.fresh_dir("c15")
        self.base = d / "base"
        self.base.mkdir()
        for i, n in enumerate("abcx"):
            (self.base / n).mkdir()
            hist.write_rev(self.base / n, hist.uuid_of(i), NOW - 0.02 * DAY, ("daily", "weekly", "monthly"))
        self.write(first)
        self.procs = jobs.new_programs()
        self.procs.handler = self.program
        self.done = asyncio.Event

    async def program(self, p):
        fut = asyncio.get_running_loop().create_future()
        p.fut = fut
        rc = await fut
        if p.argv[0] != "/cb" and jobs.func_of(p.argv)[2] == "backup" and not rc:
            _, path, _, (uuid,) = jobs.func_of(p.argv)
            f = os.path.join(path, uuid + ".rev")
            r = yaml.safe_load(open(f).read())
            r["stats"]["duration"] = 5.0
            with open(f, "w") as g:
                yaml.safe_dump(r, g)
        return rc

    def write(self, name):
        f = self.d / "backy.conf"
        if f.is_dir():
            f.rmdir()
        f.unlink(missing_ok=True)
        c = CONFIGS.get(name, BROKEN.get(name))
        if isinstance(c, str):
            f.write_text(c)
        elif c is Ellipsis:
            f.mkdir()
        elif c is not None:
            c = copy.deepcopy(c)
            if "global" in c:
                c["global"]["base-dir"] = str(self.base)
            f.write_text(yaml.safe_dump(c))

    async def start(self):
        from backy.daemon import BackyDaemon

        self.dm = BackyDaemon(self.d / "backy.conf", env.log())
        cwd = os.getcwd()
        try:
            self.dm.start(asyncio.get_running_loop())
        finally:
            os.chdir(cwd)
        self.dm.api_server()
        await self.settle()

    async def settle(self, n=80):
        for _ in range(n):
            await asyncio.sleep(0)

    def reload(self, how="signal"):
        f, a = self.dm.loop.handlers[signal.SIGHUP]
        f(*a)

    async def reload_api(self, token):
        return await net.dispatch(self.dm.api_under_test.app, "POST", "/v1/reload", {"Authorization": "Bearer " + token})

    def loops(self):
        return sorted(t.get_name() for t in asyncio.all_tasks() if t.get_coro().__name__ == "run_forever")

    def snapshot(self):
        dm = self.dm
        api = dm.api_under_test
        s = {
            "schedules": {n: (x.config, repr(x.schedule)) for n, x in dm.schedules.items()},
            "peers": dm.peers, "tokens": dm.api_tokens, "tokens in use": api.tokens,
            "limit": dm.worker_limit,
            "slots": {n: (getattr(x, "_bound_value", None), getattr(x, "_value", None)) for n, x in dm.backup_semaphores.items()},
            "callback": str(dm.backup_completed_callback), "cli": dm.api_cli_default,
            "addresses": (dm.api_addrs, dm.api_port), "sites": sorted((k, x.on) for k, x in api.sites.items()),
            "other repositories": sorted((n, str(r.path)) for n, r in dm.dead_repositories.items()),
            "loops": self.loops(), "base": str(dm.base_dir).replace(str(self.d), "D"),
            "config files": {},
        }
        s["other repositories"] = [(n, p.replace(str(self.d), "D")) for n, p in s["other repositories"]]
        for n, j in dm.jobs.items():
            s["job " + n] = {
                "api": json.loads(json.dumps(j.to_dict(), default=str).replace(str(self.d), "D")),
                "source": j.source.source_conf, "schedule": repr(j.schedule.schedule),
                "next": str(j.next_time), "tags": sorted(j.next_tags or ()), "status": j.status,
                "errors": (j.errors, j.backoff), "shared": j.schedule in dm.schedules.values(),
            }
            s["config files"][n] = (self.base / n / "config").read_text().replace(str(self.d), "D")
        return s


_fresh = {}


def fresh(name, extra=()):
    if name not in _fresh:
        _fresh[name] = run_loop(fresh_main, name)
    return _fresh[name]


async def fresh_main(name):
    w = World(name)
    try:
        await w.start()
        return w.snapshot()
    finally:
        env.rmtree(w.d)


def run_loop(f, *a):
    env.clock.t = NOW
    Site.steps = 0
    loop = Loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(f(*a))
    finally:
        net.close_loop(loop)


def unchanged(x, y, n):
    """The job's configuration and schedule are the same in both."""
    a, b = CONFIGS[x], CONFIGS[y]
    if n not in a["jobs"] or n not in b["jobs"] or a["jobs"][n] != b["jobs"][n]:
        return False
    s = a["jobs"][n]["schedule"]
    return a["schedules"][s] == b["schedules"][s]


def differences(a, b):
    return [f"{k}: {a.get(k)!r} instead of {b.get(k)!r}" for k in sorted(a.keys() | b.keys()) if a.get(k) != b.get(k)]


async def sequence(names, gaps, steps):
    """Reload names[1:] in turn; gaps[i] loop steps after each (None: until
    everything settled)."""
    want = _fresh[names[-1]] if names[-1] in CONFIGS else None
    w = World(names[0])
    Site.steps = steps
    what = f"configurations {names}, loop steps in between {gaps}"
    try:
        await w.start()
        token = list(CONFIGS[names[0]].get("api", {}).get("tokens", {"": ""}))[0]
        for i, n in enumerate(names[1:]):
            settled = i == 0 or gaps[i - 1] is None
            tasks = {x: j._task for x, j in w.dm.jobs.items()}
            w.write(n)
            if n in BROKEN:
                return await broken(w, n, what)
            if i % 2 and token and settled:
                st, _ = await w.reload_api(token)
                if st != 204:
                    raise Violation("reload-refused", f"{what}: {st}")
            else:
                w.reload()
            token = list(CONFIGS[n].get("api", {}).get("tokens", {"": ""}))[0]
            for x, t in tasks.items():
                if unchanged(names[i], n, x) and (w.dm.jobs[x]._task is not t or t.done() or t.cancelling()):
                    raise Violation("disturbed", f"{what}: job {x} was restarted by {names[i]} -> {n}")
            if gaps[i] is None:
                await w.settle()
            else:
                await w.settle(gaps[i])
        await w.settle()
        diff = differences(w.snapshot(), want)
        if diff:
            raise Violation("differs-" + diff[0].split(":")[0].split()[0], f"{what}: {diff[0][:600]}")
        return "same"
    finally:
        env.rmtree(w.d)


async def broken(w, n, what):
    loop = asyncio.get_running_loop()
    stopped = []
    loop.stop = lambda: stopped.append(env.clock.t)
    me = asyncio.current_task()
    try:
        w.reload()
    except Exception:
        pass  # the loop logs it and goes on
    # terminate() cancels everything, including this observer, and then the
    # daemon may wait for those it has cancelled.
    end = asyncio.get_running_loop().time() + 60
    while asyncio.get_running_loop().time() < end:
        try:
            await asyncio.sleep(1)
            await w.settle()
        except asyncio.CancelledError:
            me.uncancel()
    del loop.stop
    if not stopped:
        raise Violation("broken-goes-on", f"{what}: the daemon goes on after an unreadable configuration")
    alive = [t.get_name() for t in asyncio.all_tasks() if t is not me and not t.done()]
    left = [x for x in alive if x.startswith("backup-loop")]
    if left:
        raise Violation("broken-job-alive", f"{what}: {left}")
    return "terminated"


# ---------------------------------------------------------------- running jobs


async def running(events, limit):
    """Reloads while jobs run: the ones that did not change are undisturbed."""
    w = World("base")
    what = f"events {events}"
    try:
        await w.start()
        cur = "base"
        ran = {}  # job -> program that must be running
        for i, e in enumerate(events):
            what = f"events {events[:i + 1]}"
            if e.startswith("run:"):
                w.dm.jobs[e[4:]].run_immediately.set()
                await w.settle()
                mine = [p for p in w.procs.running() if p.argv[0] == "/cb" or p.argv[-1] != "gc"]
            elif e.startswith("end:"):
                p = ran.pop(e[4:])
                p.fut.set_result(0)
                await w.settle()
                for p in w.procs.running():
                    if p.argv[0] == "/cb" or jobs.func_of(p.argv)[2] == "gc":
                        p.fut.set_result(0)
                        await w.settle()
                for p in w.procs.running():
                    if p.argv[0] == "/cb":
                        p.fut.set_result(0)
                        await w.settle()
            else:
                w.write(e)
                w.reload()
                await w.settle()
                for n, p in list(ran.items()):
                    if unchanged(cur, e, n):
                        if p.terminated or p.returncode is not None:
                            raise Violation("backup-disturbed", f"{what}: the running backup of {n} was ended")
                    elif n not in CONFIGS[e]["jobs"] or CONFIGS[e]["jobs"][n] != CONFIGS[cur]["jobs"][n]:
                        if not p.terminated:
                            raise Violation("old-backup-goes-on", f"{what}: backup of {n} with the old configuration")
                cur = e
            ran = {os.path.basename(jobs.func_of(p.argv)[1]): p for p in w.procs.running() if p.argv[0] != "/cb"}
            names = [jobs.func_of(p.argv)[1] for p in w.procs.running() if p.argv[0] != "/cb"]
            if len(set(names)) != len(names):
                raise Violation("runs-twice", f"{what}: {names}")
            want = sorted("backup-loop-" + n for n in CONFIGS[cur]["jobs"])
            if w.loops() != want:
                raise Violation("loops", f"{what}: {w.loops()} instead of {want}")
            for n, j in w.dm.jobs.items():
                conf = yaml.safe_load((w.base / n / "config").read_text())
                c = CONFIGS[cur]
                if conf["source"] != c["jobs"][n]["source"] or conf["schedule"] != c["schedules"][c["jobs"][n]["schedule"]]:
                    raise Violation("job-file", f"{what}: configuration file of {n} is {conf}")
        return "ok", sorted(ran), cur
    finally:
        env.rmtree(w.d)


class Running:
    CONFS = ["base", "add", "source", "interval", "keep", "limit", "remove", "tokens", "move"]

    def ops(self, st, h):
        _, ran, cur = st
        ev = [c for c in self.CONFS if c != cur]
        ev += [f"end:{n}" for n in ran]
        ev += [f"run:{n}" for n in CONFIGS[cur]["jobs"] if n not in ran]
        return ev

    def step(self, st, op, h):
        hist_ = st[0] + (op,)
        o, ran, cur = run_loop(running, hist_, None)
        return core.digest((ran, hist_)), (hist_, ran, cur), op.split(":")[0]


# ---------------------------------------------------------------- driver


def case(j):
    n = 0
    out = {}
    for names, gaps, steps in j:
        for x in names:
            if x in CONFIGS:
                fresh(x)
        o = run_loop(sequence, names, gaps, steps)
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def all_cases(tier):
    out = []
    good = list(CONFIGS)
    for a, b in itertools.product(good, repeat=2):
        out.append(([a, b], [None], 0))
    for a in good if tier == "thorough" else SMALL:
        for b, c in itertools.product(good, repeat=2):
            if a != b != c:
                out.append(([a, b, c], [None, None], 0))
    if tier == "thorough":
        for s in itertools.product(good, repeat=4):
            if s[0] in SMALL and all(x != y for x, y in zip(s, s[1:])):
                out.append((list(s), [None] * 3, 0))
    for x in BROKEN:
        for a in good:
            out.append(([a, x], [None], 0))
            for b in SMALL if tier == "quick" else good:
                out.append(([a, b, x], [None, None], 0))
    # reloads in quick succession
    net_ = ["base", "tokens", "addrs", "port", "bare", "source", "remove"]
    gaps = [0, 1, 2, 3, 4, 6, None]
    for a, b, c in itertools.product(net_, repeat=3):
        if a != b != c:
            for g in gaps:
                for steps in (1, 3):
                    out.append(([a, b, c], [g, None], steps))
                    if tier == "thorough":
                        for d, g2 in itertools.product(net_, gaps):
                            if d != c:
                                out.append(([a, b, c, d], [g, g2, None], steps))
    k = 40
    return [out[i:i + k] for i in range(0, len(out), k)]


def run(rep, tier):
    setup()
    core.cases(rep, "sequences", case, all_cases(tier))
    r = Running()
    core.bfs(rep, "running", [("start", ((), [], "base"))], r.ops, r.step, 3 if tier == "quick" else 4)
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["the base directory stays the same", "listening sockets are stand-ins that take some loop steps"]


def replay(r):
    setup()
    try:
        if r["space"] == "running":
            print(run_loop(running, tuple(r["history"]), None))
        else:
            print(case([tuple(x) for x in r["case"]]))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
