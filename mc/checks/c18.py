"""C18: real servers exchanging revision metadata through a fault-injecting
network: all histories of edits, removals, push and pull."""
import asyncio
import itertools
import os

from .. import core, env, hist, net
from ..core import Violation

NOW = 500 * 86400.0
SCHED = {"daily": {"interval": "1d", "keep": 2}}
KINDS = ["refused", "timeout", "lost", "slow", 500, 503, 401, 403, 404, 412, "garbage", "cut"]
TRUST = ["trusted", "distrusted", "verified"]  # times 10 in a revision's last field
FEW = ["refused", "lost", 500, 403]
_env = {}


def setup():
    env.boot()
    env.own_time()
    net.install()


class Net:
    """Fault number `at` of the requests (counted per peer) of one exchange."""

    def __init__(self, peer=None, at=None, kind=None):
        self.peer, self.at, self.kind = peer, at, kind
        self.n = {}
        self.hit = False
        self.delivered = []  # (host, method, path, status)

    async def __call__(self, host, method, path, deliver):
        import aiohttp

        i = self.n[host] = self.n.get(host, -1) + 1
        kind = self.kind if (host, i) == (self.peer, self.at) or (self.at == "all" and host == self.peer) else None
        if kind:
            self.hit = True
        if kind == "refused":
            raise net.refused(host)
        if kind == "timeout":
            await asyncio.sleep(1000)
        if isinstance(kind, int):
            return kind, b"error"
        status, body = await deliver()
        self.delivered.append((host, method, path, status))
        if kind == "lost":
            raise net.disconnected()
        if kind == "slow":
            await asyncio.sleep(1000)
        if kind == "garbage" and method == "GET":
            return 200, b"<html>"
        if kind == "cut":
            raise aiohttp.ClientPayloadError("cut")
        return status, body


class Pair:
    """Server A with an active job r; B and C hold older backups of it."""

    def __init__(self):
        self.servers = {"B": net.Server("c18b", dead=["r"]), "C": net.Server("c18c", dead=["r"])}
        self.a = net.Server("c18a", jobs=["r"], peers={
            "B": {"url": "http://b", "token": "tok"}, "C": {"url": "http://c", "token": "tok"}})
        self.loop = net.new_loop()
        for s in (self.a, *self.servers.values()):
            s.loop.close()
            s.loop = self.loop
            self.loop.run_until_complete(s.setup())
        self.peers = dict(self.a.daemon.peers)
        self.path = {"A": self.a.base / "r", "B": self.servers["B"].base / "r", "C": self.servers["C"].base / "r"}
        self.job = self.a.daemon.jobs["r"]

    def write(self, st):
        for s, revs in zip("ABC", st):
            hist.clear_revs(self.path[s])
            for r in revs:
                hist.write_rev(self.path[s], r[0], r[1], r[2], clean=r[3], server=r[5], orig=r[4], trust=TRUST[r[6] // 10],
                               extra_stats={"n": r[6] % 10})
            (self.path[s] / ".purge_pending").unlink(missing_ok=True)

    def read(self):
        out = []
        for s in "ABC":
            revs = []
            for u, d in hist.read_revs(self.path[s]).items():
                revs.append((u, (d["timestamp"] - env.EPOCH).total_seconds(), tuple(sorted(d["tags"])),
                             "duration" in d["stats"], tuple(sorted(d["orig_tags"])), d["server"],
                             d["stats"]["n"] + 10 * TRUST.index(d["trust"])))
            out.append(tuple(sorted(revs)))
        return tuple(out)


def pair():
    if os.getpid() not in _env:
        _env[os.getpid()] = Pair()
    return _env[os.getpid()]


U = {x: hist.uuid_of(i) for i, x in enumerate(["L1", "L2", "B1", "B2", "BI", "C1", "X", "G1"])}


def rev(name, age, tags=("daily",), clean=True, server="", orig=(), n=0):
    return (U[name], NOW - age * 86400.0, tuple(sorted(tags)), clean, tuple(sorted(orig)), server, n)


def view(r, server):
    """What a server shows for a peer's revision."""
    return (r[0], r[1], r[2], r[3], r[2], server, r[6])


INIT = {
    "fresh": ([rev("L1", 3), rev("L2", 1, clean=True)],
              [rev("B1", 10), rev("B2", 9, ("daily", "manual:k")), rev("BI", 8, clean=False)], []),
    "two": ([rev("L1", 3)], [rev("B1", 10)], [rev("C1", 5)]),
    # the repository was copied from B to A: the same revisions on both sides
    "copied": ([rev("L1", 3), rev("X", 12, ("daily", "manual:mine"))], [rev("B1", 10), rev("X", 12, n=1)], []),
    # leftovers of a server that is not configured any longer
    "gone": ([rev("L1", 3), rev("G1", 20, server="gone", orig=("daily",))], [rev("B1", 10)], []),
}


def start(name):
    a, b, c = INIT[name]
    return tuple(tuple(sorted(x)) for x in (list(a) + [view(r, "B") for r in b if r[3] and r[0] not in {y[0] for y in a}] +
                                            [view(r, "C") for r in c if r[3]], b, c))


def ops(space, tier):
    kinds = KINDS if tier == "thorough" or space == "fresh" else FEW
    peers = ["B", "C"] if space == "two" else ["B"]
    out = ["push", "pull", "editB:B1:manual:b", "rmB:B1", "trustB:B1", "edit:B1:manual:a", "edit:B1:manual:b", "rm:B1", "expire"]
    if space == "fresh":
        out += ["finish:BI", "edit:B2:", "editB:B2:daily", "rm:B2", "newB"]
    if space == "two":
        out += ["edit:C1:manual:a", "rm:C1", "rmB:C1"]
    if space == "copied":
        out += ["rmB:X", "rmA:X", "editB:X:manual:b"]
    if space == "gone":
        out += ["rm:G1", "edit:G1:manual:g"]
    for p in peers:
        for k in kinds:
            out += [f"pull/{p}/{i}/{k}" for i in (0, 1)] + [f"push/{p}/{i}/{k}" for i in (0, 1, 2)]
        out += [f"pull/{p}/all/{k}" for k in ("refused", 500)] + [f"push/{p}/all/{k}" for k in ("refused", 500)]
    return out


class Space:
    def __init__(self, name, tier):
        self.name, self._ops = name, ops(name, tier)

    def init(self):
        s = start(self.name)
        return [(core.digest(s), s)]

    def ops(self, st, h):
        return self._ops

    def step(self, st, op, h):
        new, outcome = apply(st, op, f"{self.name} {h} {op}")
        return core.digest(new), new, outcome


def by(revs):
    return {r[0]: r for r in revs}


def apply(st, op, what):
    p = pair()
    env.clock.t = NOW
    p.write(st)
    asyncio.set_event_loop(p.loop)
    what = f"{what}, before: {pretty(st)}"
    kind, *args = op.replace("/", ":").split(":")
    if kind in ("push", "pull"):
        return exchange(p, st, kind, args, what)
    a, b, c = map(by, st)
    if kind in ("edit", "rm", "rmA"):
        u = U[args[0]]
        if u not in a or bool(a[u][5]) == (kind == "rmA"):
            return st, "nothing"
        repo = hist.repository(p.path["A"], SCHED)
        if kind == "edit":
            repo.tags("set", u, set(filter(None, [":".join(args[1:])])), force=True)
        else:
            repo.rm([repo.find_by_uuid(u)])
        new = p.read()
        na = by(new[0])
        if kind == "rmA":
            a.pop(u)
            ok = na == a
        else:
            want = tuple(filter(None, [":".join(args[1:])])) if kind == "edit" else ()
            ok = na[u] == a[u][:2] + (want,) + a[u][3:] and {**na, u: 0} == {**a, u: 0}
        if not ok or new[1:] != st[1:]:
            raise Violation("local-edit", f"{what}: {pretty(new)}")
    elif kind == "expire":
        hist.repository(p.path["A"], SCHED).expire()
        new = p.read()
        if new[1:] != st[1:]:
            raise Violation("expire-remote", f"{what}: {pretty(new)}")
        for u, r in by(st[0]).items():
            if r[5] and (u not in by(new[0]) or by(new[0])[u][4] != r[4]):
                raise Violation("expire-view", f"{what}: {pretty(new)}")
    else:
        s = "C" if args and args[0] == "C1" else "B"
        have = c if s == "C" else b
        repo = hist.repository(p.path[s], SCHED)
        if kind == "newB":
            hist.write_rev(p.path[s], U["BI"], NOW - 8 * 86400.0, ("daily",), extra_stats={"n": 0})
        elif U[args[0]] not in have:
            return st, "nothing"
        elif kind == "finish":
            r = repo.find_by_uuid(U[args[0]])
            r.stats["duration"] = 1.5
            r.write_info()
        elif kind == "editB":
            repo.tags("set", U[args[0]], {":".join(args[1:])}, force=True)
        elif kind == "trustB":  # trusted -> verified -> distrusted
            r = repo.find_by_uuid(U[args[0]])
            r.distrust() if have[r.uuid][6] >= 20 else r.verify()
            r.write_info()
        elif kind == "rmB":
            repo.rm([repo.find_by_uuid(U[args[0]])])
        new = p.read()
    return new, kind


def exchange(p, st, kind, args, what):
    f = Net()
    if args:
        f = Net(args[0].lower(), args[1] if args[1] == "all" else int(args[1]),
                int(args[2]) if args[2].isdigit() else args[2])
    net.network.servers = {"b": p.servers["B"], "c": p.servers["C"]}
    net.network.hook = f
    failed = None

    async def go():
        p.job.repository.connect()
        return await (p.job.push_metadata() if kind == "push" else p.job.pull_metadata())

    try:
        errors = p.loop.run_until_complete(go())
    except (net.Deadlock, Violation):
        raise
    except Exception as e:
        failed = e
        for t in asyncio.all_tasks(p.loop):
            t.cancel()
        p.loop.run_until_complete(asyncio.sleep(1))
    new = p.read()
    a0, b0, c0 = map(by, st)
    a1, b1, c1 = map(by, new)
    res = f"{what}, after: {pretty(new)}, {f'raised {failed!r}' if failed else ''}"
    # nothing local is touched here
    for u, r in a0.items():
        if not r[5] and a1.get(u) != r:
            raise Violation("local-changed", f"{res}: {name(u)}")
    for u, r in a1.items():
        if not r[5] and u not in a0:
            raise Violation("local-appeared", f"{res}: {name(u)}")
    if failed and not f.hit:
        raise Violation("raised", res)
    if not f.hit and kind == "pull" and errors or args and f.hit and args[2] != "slow" and kind == "pull" and \
            args[2] not in ("404", "403", "cut", "garbage") and not failed and not errors and f.at == "all":
        raise Violation("error-count", f"{res}: {errors} errors reported")
    for peer, before, after in (("B", b0, b1), ("C", c0, c1)):
        mine = {u: r for u, r in a0.items() if r[5] == peer}
        mine1 = {u: r for u, r in a1.items() if r[5] == peer}
        faulty = f.hit and f.peer == peer.lower()
        local = {u for u, r in a0.items() if r[5] != peer}
        if kind == "pull":
            if after != before:
                raise Violation("pull-changes-peer", res)
            full = {u: view(r, peer) for u, r in before.items() if r[3] and u not in local}
            allowed = [full]
            if faulty or failed:
                allowed.append(mine)
                if f.hit and isinstance(f.kind, int) or f.kind in ("cut", "garbage"):
                    allowed.append({})
            if mine1 not in allowed:
                raise Violation("pull-view", f"{res}: view of {peer}")
            continue
        # push
        done = set()
        for u, r in before.items():
            e = mine.get(u)
            n = after.get(u)
            pend = e and e[2] != e[4]
            if n == r:
                if pend and e[4] == r[2] and not faulty:
                    raise Violation("edit-not-applied", f"{res}: {name(u)}")
                continue
            if not pend or e[4] != r[2]:
                raise Violation("peer-changed", f"{res}: {name(u)} changed without a matching edit")
            if n is None and e[2] or n is not None and n != r[:2] + (e[2],) + r[3:]:
                raise Violation("partial-edit", f"{res}: {name(u)}")
            done.add(u)
        if set(after) - set(before):
            raise Violation("peer-revisions", res)
        for u, e in mine.items():
            n = mine1.get(u)
            if n == e:
                if u in done and not faulty:
                    raise Violation("edit-still-pending", f"{res}: {name(u)}")
                continue
            if u not in done:
                raise Violation("edit-dropped", f"{res}: {name(u)} is not marked as pending but was not applied")
            if n is None and e[2] or n is not None and (n != e[:4] + (e[2],) + e[5:] or not e[2]):
                raise Violation("edit-state", f"{res}: {name(u)}")
        if set(mine1) - set(mine):
            raise Violation("view-grew", res)
        if any(u not in after for u in done) and not faulty and not (p.path[peer] / ".purge_pending").exists():
            raise Violation("purge-not-requested", res)
        puts = [(m, q) for h, m, q, s in f.delivered if h == peer.lower() and m == "PUT"]
        if len(set(puts)) != len(puts):
            raise Violation("sent-twice", f"{res}: {puts}")
    gone = {u for u, r in a0.items() if r[5] == "gone"}
    if kind == "pull" and not failed and gone & set(a1):
        raise Violation("unknown-server-kept", res)
    return new, f"{kind}{' with fault' if f.hit else ''}{' raised' if failed else ''}"


def name(u):
    return next((k for k, v in U.items() if v == u), u)


def pretty(st):
    return {s: {name(r[0]): (",".join(r[2]), f"was {','.join(r[4])}" if r[5] and r[4] != r[2] else "", r[5], r[3]) for r in x}
            for s, x in zip("ABC", st)}


DEPTH = {"quick": {"fresh": 4, "two": 4, "copied": 4, "gone": 4}, "thorough": {"fresh": 6, "two": 5, "copied": 5, "gone": 5}}


def run(rep, tier):
    setup()
    for n, depth in DEPTH[tier].items():
        s = Space(n, tier)
        core.bfs(rep, n, s.init(), s.ops, s.step, depth, deadline=None if tier == "quick" else 700)
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["the peers' repositories have no active job there"]


def replay(r):
    setup()
    s = Space(r["space"], "thorough")
    st = s.init()[0][1]
    try:
        for i, op in enumerate(r["history"]):
            _, st, o = s.step(st, op, tuple(r["history"][:i]))
            print(op, o, pretty(st))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
