"""C19: the real leader election and watching under virtual time, for all
answers of up to two peers, all sequences of later answers and trigger times."""
import asyncio
import datetime
import itertools
import json
import os

from .. import core, env, hist, net
from ..core import Violation

DAY = 86400.0
NOW = 500 * DAY
OWN = 2  # own complete backups
MIN = 60.0

LAST = {"never": None, "old": -DAY, "5m01": -301, "5m": -300, "4m59": -299, "now": 0, "later": 10}
NEXT = {"none": None, "+1m": 60, "+5m": 300, "+5m01": 301, "+1d": DAY, "-1h": -3600}
ERR = ["refused", "timeout", "cut", 500, 401, 404, "[]"]
_env = {}


def setup():
    env.boot()
    env.own_time()
    net.install()


def A():
    if os.getpid() not in _env:
        a = net.Server("c19a", jobs=["r"], peers={x: {"url": f"http://{x}", "token": "t"} for x in ("p1", "p2")})
        loop = a.loop
        loop.run_until_complete(a.setup())
        p = a.base / "r"
        for i in range(OWN):
            hist.write_rev(p, hist.uuid_of(i), NOW - (i + 2) * DAY, ("daily",))
        # not its own or not usable: must not count
        hist.write_rev(p, hist.uuid_of(50), NOW - DAY, ("daily",), clean=False)
        for i in range(4):
            hist.write_rev(p, hist.uuid_of(60 + i), NOW - (i + 2) * DAY, ("daily",), server="p2")
        a.daemon.jobs["r"].repository.scan()
        loop.close()
        _env[os.getpid()] = a
    return _env[os.getpid()]


def at(x):
    return None if x is None else (env.EPOCH + datetime.timedelta(seconds=NOW + x)).isoformat()


def answer(ans):
    """-> (status, body) or raises"""
    if ans == "[]":
        return 200, b"[]"
    if isinstance(ans, int):
        return ans, b"error"
    count, status, last, nxt = ans
    return 200, json.dumps([{
        "job": "r", "local_revs": count, "status": status, "last_time": at(LAST[last]), "next_time": at(NEXT[nxt]),
        "sla": "OK", "last_tags": "daily", "unsynced_revs": 0}]).encode()


class Peer:
    def __init__(self, script):
        self.script, self.i, self.times = list(script), 0, []

    async def __call__(self, method, path, headers, body):
        if not path.startswith("/v1/status"):
            raise Violation("unexpected-request", path)
        ans = self.script[self.i] if self.i < len(self.script) else "refused"
        self.i += 1
        self.times.append(env.clock.t)
        if ans == "refused":
            raise net.refused()
        if ans == "cut":
            raise net.disconnected()
        if ans == "timeout":
            await asyncio.sleep(1000)
        return answer(ans)


def reference(scripts, trigger):
    """-> set of allowed (skips, seconds until decided); timeouts take 30 s"""
    first = {p: s[0] for p, s in scripts.items() if isinstance(s[0], tuple)}
    top = max([OWN] + [a[0] for a in first.values()])
    if top <= OWN:
        return {False}
    return {watch(scripts[p], trigger) for p, a in first.items() if a[0] == top}


def watch(script, trigger):
    """Does this leader make the backup for the planned time (NOW)?"""
    waits = 0
    for ans in list(script) + ["refused"]:
        if not isinstance(ans, tuple):
            return False
        _, status, last, nxt = ans
        if LAST[last] is not None and LAST[last] > -300:
            return True
        if not status:
            return False
        if NEXT[nxt] is not None and NEXT[nxt] > 300:
            return False
        if trigger is not None and trigger < 300 * (waits + 1):
            return False
        waits += 1


def one(scripts, trigger):
    a = A()
    env.clock.t = NOW
    job = a.daemon.jobs["r"]
    loop = net.new_loop()
    a.daemon.loop = loop
    peers = {p: Peer(s) for p, s in scripts.items()}
    net.network.servers = dict(peers)
    net.network.hook = None
    a.daemon.peers = {p: {"url": f"http://{p}", "token": "t"} for p in scripts}
    what = f"own backups {OWN}, peers answer {scripts}, trigger after {trigger}"
    try:
        job.run_immediately = asyncio.Event()
        loop.horizon = NOW + 100 * 300

        async def go():
            if trigger is not None:
                loop.call_later(trigger, job.run_immediately.set)
            return await job._wait_for_leader(env.clock.now())

        try:
            got = loop.run_until_complete(go())
        except net.Deadlock:
            raise Violation("waits-forever", what)
        except net.Horizon:
            raise Violation("waits-forever", what)
        except Exception as e:
            raise Violation("raised", f"{what}: {e!r}")
        took = env.clock.t - NOW
    finally:
        net.close_loop(loop)
    allowed = reference(scripts, trigger)
    if bool(got) not in allowed:
        raise Violation("lost-backup" if got else "double-backup", f"{what}: {'skipped' if got else 'ran'} its own backup")
    if trigger is not None and took > max(trigger, 31) + 31:
        raise Violation("trigger-ignored", f"{what}: decided after {took}s")
    return "skips" if got else "runs"


def case(j):
    out = {}
    for scripts, trigger in j:
        o = one({p: [tuple(x) if isinstance(x, list) else x for x in s] for p, s in scripts.items()}, trigger)
        out[o] = out.get(o, 0) + 1
    return [(n, o) for o, n in out.items()]


def all_cases(tier):
    full = [(c, s, l, n) for c in (OWN, OWN + 1, OWN + 3) for s in ("", "running (slow)") for l in LAST for n in NEXT]
    few = [(c, s, l, n) for c in (1, OWN, OWN + 1, OWN + 3) for s in ("", "waiting for deadline")
           for l in ("never", "5m", "4m59") for n in ("none", "+5m", "+5m01")]
    tiny = [(c, "x", l, "+1m") for c in (OWN, OWN + 1, OWN + 3) for l in ("old", "now")]
    out = []
    for a in full + ERR:
        out.append(({"p1": [a]}, None))
        for b in (few if tier == "thorough" else tiny) + ERR:
            out.append(({"p1": [a], "p2": [b]}, None))
            out.append(({"p1": [b], "p2": [a]}, None))
    for a in few + ERR:
        for b in few + ERR:
            out.append(({"p1": [a], "p2": [b]}, None))
    wait = [a for a in few if watch([a], None) is False and a[1] and a[0] > OWN and NEXT[a[3]] != 301]
    later = [(OWN + 1, s, l, n) for s in ("", "running") for l in ("never", "5m", "4m59", "now")
             for n in ("none", "-1h", "+5m", "+5m01")] + ERR
    trig = [None, 0, 100, 299, 301, 700]
    for a in wait:
        for b in later:
            for t in trig:
                out.append(({"p1": [a, b]}, t))
                out.append(({"p1": ["refused"], "p2": [a, b]}, t))
    for a in wait[:3] if tier == "quick" else wait:
        for s in itertools.product(later, repeat=2 if tier == "quick" else 3):
            for t in (None, 100, 700):
                out.append(({"p1": [a, *s], "p2": [(OWN, "running", "now", "none")]}, t))
    k = 300
    return [out[i:i + k] for i in range(0, len(out), k)]


# ---------------------------------------------------------------- real peers

NAMES = ["r", "a.b", "a-b", "aXb", "a+b", "a(b", "[ab]", "r$", "x|r"]


def real(j):
    """A real server answers: own complete revisions count, other jobs (with
    similar names) are something else."""
    name, others, mine, theirs, fresh = j
    what = f"job {name!r}, the peer has {others}, complete revisions here {mine}, there {theirs}, recent one: {fresh}"
    env.clock.t = NOW
    b = net.Server("c19b", jobs=others)
    a = net.Server("c19c", jobs=[name], peers={"b": {"url": "http://b", "token": "tok"}})
    try:
        for n, t in [(x, theirs) for x in others]:
            p = b.base / n
            p.mkdir()
            count = t if n == name else 9
            for i in range(count):
                hist.write_rev(p, hist.uuid_of(i), NOW - (i + 1) * DAY, ("daily",))
            hist.write_rev(p, hist.uuid_of(30), NOW - 6 * DAY, ("daily",), clean=False)
            for i in range(5):
                hist.write_rev(p, hist.uuid_of(40 + i), NOW - (20 + i) * DAY, ("daily",), server="z")
            if (fresh and n == name or n != name) and count:
                hist.write_rev(p, hist.uuid_of(0), NOW - 60, ("daily",))
        p = a.base / name
        p.mkdir()
        for i in range(mine):
            hist.write_rev(p, hist.uuid_of(100 + i), NOW - (i + 1) * DAY, ("daily",))
        for i in range(6):
            hist.write_rev(p, hist.uuid_of(140 + i), NOW - (20 + i) * DAY, ("daily",), server="z")
        b.loop.close()
        a.loop.close()
        loop = net.new_loop()
        loop.horizon = NOW + 10000
        try:
            loop.run_until_complete(b.setup())
            loop.run_until_complete(a.setup())
            net.network.servers = {"b": b}
            net.network.hook = None
            job = a.daemon.jobs[name]
            job.repository.connect()

            async def go():
                return await job._wait_for_leader(env.clock.now())

            got = bool(loop.run_until_complete(go()))
        finally:
            net.close_loop(loop)
    finally:
        env.rmtree(a.root)
        env.rmtree(b.root)
    want = name in others and theirs > mine and fresh
    if got != want:
        raise Violation("lost-backup" if got else "double-backup", f"{what}: {'skipped' if got else 'ran'} its own backup")
    return 1, "skips" if got else "runs"


def real_cases():
    out = []
    for n in NAMES:
        for others in [[n], [x for x in NAMES if x != n], NAMES, NAMES[::-1]]:
            for mine, theirs in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 1)):
                for fresh in (True, False):
                    out.append((n, others, mine, theirs, fresh))
    return out


def run(rep, tier):
    setup()
    core.cases(rep, "scripted", case, all_cases(tier))
    core.cases(rep, "real peers", real, real_cases())
    rep.add(traces_validated_against_impl=rep.cov["transitions"])


def replay(r):
    setup()
    try:
        print(case(r["case"]) if r["space"] == "scripted" else real(tuple(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
