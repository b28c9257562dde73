"""C33: requests that only look, at every callback boundary of the daemon's
work: answered, and everything the daemon does is the same as without."""
import asyncio
import copy
import json
import os

import yaml

from .. import core, env, hist, jobs, net
from ..core import Violation
from . import c31

DAY, NOW = c31.DAY, c31.NOW
GETS = ["/v1/status", "/v1/status?filter=^a$", "/v1/jobs", "/v1/backups", "/v1/backups/a/revs", "/v1/backups/a/revs?only_clean=1",
        "/v1/backups/x/revs?only_clean=1"]
# requests that are refused: (method, path, token, body, statuses)
REFUSED = [
    ("POST", "/v1/backups/a/purge", "tok", None, (403, 404)),
    ("POST", "/v1/backups/nope/purge", "tok", None, (404,)),
    ("POST", "/v1/jobs/nope/run", "tok", None, (404,)),
    ("POST", "/v1/jobs/b/run", "wrong", None, (401,)),
    ("POST", "/v1/reload", "wrong", None, (401,)),
    ("POST", "/v1/backups/x/purge", "wrong", None, (401,)),
    ("POST", "/v1/backups/a/touch", "wrong", None, (401,)),
    ("PUT", "/v1/backups/a/revs/latest/tags", "tok", {"old_tags": ["daily"], "new_tags": ["manual:x"]}, (403, 404)),
    ("PUT", "/v1/backups/x/revs/nope/tags", "tok", {"old_tags": ["daily"], "new_tags": ["manual:x"]}, (404,)),
    ("PUT", "/v1/backups/x/revs/latest/tags", "tok", {"old_tags": ["other"], "new_tags": []}, (412, 404)),
    ("PUT", "/v1/backups/x/revs/latest/tags", "wrong", {"old_tags": ["daily"], "new_tags": []}, (401,)),
]

# name -> (events, duration, peers, faults)
SCENARIOS = {
    "two": ([(0.1, "run:a"), (0.2, "run:b")], 2.0, False, {}),
    "slots": ([(0.1, "run:a"), (0.2, "run:b"), (0.3, "limit")], 2.6, False, {"limit": 1}),
    "failing": ([(0.1, "run:a")], 1.2, False, {"backup": 1}),
    "gc-failing": ([(0.1, "run:a")], 1.2, False, {"gc": 1}),
    "exchange": ([(0.1, "run:a")], 5.2, True, {"revs": True}),
    "exchange-failing": ([(0.1, "run:a")], 5.2, True, {"revs": True, "put": 412}),
    "refusing": ([(0.1, "run:a")], 3.2, True, {}),
    "follower": ([(0.1, "due:a")], 2.6, True, {"revs": True, "leader": True}),
    "reload": ([(0.1, "run:a"), (0.3, "source")], 1.6, False, {}),
    "reload-schedule": ([(0.1, "run:a"), (0.3, "schedule")], 1.6, False, {}),
    "reload-tokens": ([(0.1, "run:a"), (0.2, "port"), (0.3, "tokens")], 1.4, False, {"steps": 3}),
    "added": ([(0.1, "add"), (0.4, "run:c")], 1.6, False, {}),
    "removed": ([(0.1, "run:a"), (0.3, "remove"), (0.4, "back")], 1.6, False, {}),
    "purges": ([], 0.9, False, {"pending": True}),
}
PEERS = {"p1": {"url": "http://p1", "token": "x"}, "p2": {"url": "http://p2", "token": "x"}}


class World(c31.World):
    def __init__(self, name):
        super().__init__(name)
        self.trace = []
        self.stdin = []
        if self.conf["peers"]:
            self.conf["peers"] = PEERS
            self.write()
        self.remote = {}
        if self.faults.get("revs"):
            a = self.base / "a"
            t = NOW - 20 * DAY
            self.conf["schedules"]["s1"]["daily"]["keep"] = 2
            self.write()

            def rev(n, tags, orig=None, server="p1", here=True, there=None):
                u = hist.uuid_of(n)
                if here:
                    hist.write_rev(a, u, t - n * 3600, tags, server=server, orig=orig or tags)
                if there is not None:
                    self.remote.setdefault(server, {})[u] = {
                        "uuid": u, "timestamp": hist.ts(t - n * 3600).isoformat(), "stats": {"duration": 3.0}, "trust": "trusted",
                        "tags": list(there), "orig_tags": [], "server": "", "parent": ""}

            rev(10, ["daily"], there=["daily"])
            rev(11, ["daily", "manual:n"], ["daily"], there=["daily"])  # edited here
            rev(12, [], ["daily"], there=["daily"])  # removed here
            rev(13, ["daily"])  # removed there
            rev(14, ["daily"], there=["daily", "manual:m"])  # edited there
            rev(15, [], there=["daily"], here=False)  # new
            rev(20, ["daily"], server="p2", there=["daily"])
            rev(21, [], ["daily"], server="p2", there=["daily"])
            rev(22, ["daily"], server="p2", there=["manual:q"])
            rev(30, ["daily"], server="gone")

    def log(self, *what):
        self.trace.append((round(env.clock.t - NOW, 3), *what))

    async def create(self, *argv, **kw):
        a = [os.fspath(x).replace(str(self.d), "") for x in argv]
        if "-t" in a:
            a[a.index("-t") + 1] = "task"
        self.log("program", a)
        p = await super().create(*argv, **kw)
        if p.kind == "cb":
            communicate = p.communicate

            async def record(input=None):
                told = {d["uuid"]: hist.norm(d) for d in yaml.safe_load(input)}
                have = {u: hist.norm(d) for u, d in hist.read_revs(self.base / p.job).items()}
                self.log("told", sorted(told.items()))
                if told != have:
                    self.wrong = (p.job, told, have)
                return await communicate(input)

            p.communicate = record
        return p

    wrong = None

    async def hook(self, host, method, path, deliver):
        self.log("request", host, method, path)
        if not self.faults.get("revs"):
            return await super().hook(host, method, path, deliver)
        await asyncio.sleep(0.1)
        revs = self.remote[host]
        try:
            if "/status" in path and self.faults.get("leader"):
                code, body = await super().hook(host, method, path, deliver)
                done = [dict(x, last_time=hist.ts(env.clock.t).isoformat()) for x in json.loads(body)]
                return code, json.dumps(done).encode()
            if "/status" in path:
                return 200, b"[]"
            if method == "GET":
                return 200, json.dumps(list(revs.values())).encode()
            if method == "PUT":
                if self.faults.get("put"):
                    return self.faults["put"], b""
                u = path.split("/revs/")[1].split("/")[0]
                if u not in revs:
                    return 404, b""
                body = self.body
                if not body["new_tags"]:
                    del revs[u]
                else:
                    revs[u]["tags"] = body["new_tags"]
            return 204, b""
        finally:
            await asyncio.sleep(0.1)

    def event(self, e):
        if e == "add":
            self.conf["jobs"]["c"] = {"source": {"type": "file", "filename": "/c"}, "schedule": "s1"}
            self.write()
            self.loop.deliver(c31.signal.SIGHUP)
        elif e == "back":
            self.conf["jobs"]["a"] = copy.deepcopy(c31.CONF["jobs"]["a"])
            self.write()
            self.loop.deliver(c31.signal.SIGHUP)
        else:
            super().event(e)

    def result(self):
        """All that matters, after the scenario."""
        disk = {}
        for d, _, fs in os.walk(self.base):
            for f in fs:
                p = os.path.join(d, f)
                k = p.replace(str(self.d), "")
                if f in ("backy.log", ".backup", ".purge"):
                    continue
                if os.path.islink(p):
                    disk[k] = os.readlink(p)
                elif f.endswith(".rev"):
                    disk[k] = hist.norm(yaml.safe_load(open(p)))
                else:
                    disk[k] = open(p).read().replace(str(self.d), "")
        state = {n: (j.status, j.errors, j.backoff, str(j.next_time), sorted(j.next_tags or ()), j.run_immediately.is_set(),
                     j.source.job_path if hasattr(j.source, "job_path") else "")
                 for n, j in self.dm.jobs.items()}
        return {"trace": self.trace, "disk": disk, "jobs": state, "dead": sorted(self.dm.dead_repositories),
                "peers": self.remote, "errors": len(self.loop.errors)}


def setup():
    c31.setup()
    c31.SCENARIOS = SCENARIOS
    inner = net.network.request

    async def request(base, method, path, headers, body, *a, **kw):
        if World.current is not None:
            World.current.body = body
        return await inner(base, method, path, headers, body, *a, **kw)

    net.network.request = request


World.current = None


def execute(name, at=(), reqs=()):
    """Run the scenario, with requests `reqs` in front of the callbacks `at`.
    -> (result, number of boundaries, number of answers)"""
    env.clock.t = NOW
    env.uuids.n = 0
    w = World.current = World(name)
    loop = c31.new_loop()
    what = f"{name}, {[r[1] for r in reqs]} at {list(at)}"
    answers = []

    async def ask(r):
        method, path, token, body, ok = r
        if "/backups/a/" in path and method == "GET" and "a" not in w.dm.jobs:
            ok = (404, 200)
        code, text = await net.dispatch(w.dm.api_under_test.app, method, path, {"Authorization": "Bearer " + token}, body)
        try:
            if code == 200:
                json.loads(text)
        except ValueError:
            code = "no JSON"
        if code not in ok:
            answers.append((r, code, text))
        answers.append(None)

    def inject(how):
        api = getattr(w.dm, "api_under_test", None)
        if not api or not api.sites:
            return  # not listening
        for r in reqs:
            if "/backups/a/" in r[1] and r[0] != "GET" and "a" not in w.dm.jobs:
                continue  # these would not be refused
            loop.create_task(ask(r), name="request")

    try:
        w.start_daemon(loop)
        chain = None
        for n in sorted(at, reverse=True):
            chain = (n, None, chain)
        if chain:
            loop.at, loop.inject = chain, inject
        for t, e in w.events:
            loop.call_at(NOW + t, w.event, e)
        loop.horizon = NOW + w.length
        try:
            loop.run_forever()
        except net.Horizon:
            pass
        else:
            raise Violation("ended", f"{what}: the daemon ended")
        for a in answers:
            if a:
                raise Violation(f"answer-{a[0][1].split('?')[0]}", f"{what}: {a[0][:2]} is answered with {a[1]} {a[2][:300]}")
        if w.wrong:
            raise Violation("callback-data", f"{what}: the callback for {w.wrong[0]} is told "
                            f"{sorted(set(w.wrong[1].items()) ^ set(w.wrong[2].items()))} differently from what is stored")
        return w.result(), loop.count, len(answers)
    finally:
        World.current = None
        net.close_loop(loop)
        w.close()
        env.rmtree(w.d)


_base = {}


def get(p):
    ok = (200, 404) if "/backups/x/" in p else (200,)
    return ("GET", p, "tok", None, ok)


def case(j):
    name, lo, hi, kinds, second = j
    if name not in _base:
        _base[name] = execute(name)
    want, total, _ = _base[name]
    out = {}
    for n in range(lo, min(hi, total)):
        for k in kinds:
            if k == "all":
                reqs = [get(p) for p in GETS]
            elif k == "refused":
                reqs = REFUSED
            else:
                reqs = [get(GETS[k])]
            at = [n] if second is None else [n, n + second]
            got, _, answers = execute(name, at, reqs)
            for part in want:
                if got[part] != want[part]:
                    a, b = want[part], got[part]
                    if isinstance(a, dict):
                        d = [(x, a.get(x), b.get(x)) for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][:2]
                    elif isinstance(a, list):
                        d = next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), (len(a), len(b)))
                    else:
                        d = (a, b)
                    raise Violation(f"changed-{part}", f"{name}, {k} at {at}: without and with: {d}")
            o = f"{name}: {k if isinstance(k, str) else GETS[k]}, {'answered' if answers else 'not listening'}"
            out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def all_cases(tier):
    out = []
    for name in SCENARIOS:
        total = execute(name)[1]
        for lo in range(0, total, 20):
            if tier == "quick":
                out.append((name, lo, lo + 20, ["all", "refused"], None))
            else:
                out.append((name, lo, lo + 20, list(range(len(GETS))), None))
                for s in (None, 1, 3, 7, 20, 50):
                    out.append((name, lo, lo + 20, ["all", "refused"], s))
    return out


def run(rep, tier):
    setup()
    core.cases(rep, "observed", case, all_cases(tier))
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["programs and peers are stand-ins; requests enter at aiohttp's application (no sockets)"]


def replay(r):
    setup()
    try:
        print(case(tuple(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
