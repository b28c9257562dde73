"""C29: metadata written by the real code and read again from disk, through
`backy log --json` and through the HTTP interface."""
import datetime
import itertools
import json
import os

import yaml

from .. import core, env, hist, net, world
from ..core import Violation

UTC = datetime.timezone.utc
TIMES = [
    datetime.datetime(2024, 2, 29, 23, 59, 59, 999999, UTC), datetime.datetime(2024, 1, 1, 0, 0, 0, 0, UTC),
    datetime.datetime(2015, 8, 29, 1, 2, 3, 1, UTC), datetime.datetime(1970, 1, 1, 0, 0, 0, 500000, UTC),
    datetime.datetime(2099, 12, 31, 12, 0, 0, 120000, UTC),
]
TAGS = [
    (), ("daily",), ("daily", "weekly", "manual:x"), ("manual:ü€😀",), ("manual:a: b # c",), ("true", "null", "1", "1.5", "~"),
    ("manual:'\"\\",), ("manual:", "- x", "*y", "&z", "!t", "%d", "@e", "`f"), ("2024-01-01", "0x10", "1e3", "=", "<<"),
    (" lead", "trail ", "two  spaces"), ("manual:line\nbreak", "manual:tab\t", "manual:\x85\u2028"),
]
STATS = [
    {}, {"bytes_written": 0}, {"bytes_written": 123456789012, "duration": 0.1}, {"duration": 3},
    {"duration": 1e-07, "bytes_written": 5, "ceph-verification": "partial"}, {"duration": 12345.678901234567},
    {"duration": 0.0},
]
SERVERS = ["", "backy02", "host.example:1"]
TRUSTS = ["trusted", "distrusted", "verified"]
UUIDS = ["mcmcmcmcmcmcmc2222foX2", "2222222222222222222222", "1e5" + "2" * 19]
_n = [0]


def setup():
    env.boot(fast=False)
    net.install()


def server():
    s = net.server_env("c29", dead=["job"])
    asyncio_loop(s)
    net.network.servers["local"] = s
    return s


def asyncio_loop(s):
    import asyncio

    asyncio.set_event_loop(s.loop)


def make(repo, uuid, ts, tags, orig, stats, server_, trust):
    from backy.revision import Revision, Trust

    r = Revision(repo, env.log(), uuid, ts)
    r.tags, r.orig_tags, r.stats = set(tags), set(orig), dict(stats)
    r.server, r.trust = server_, Trust(trust)
    return r


def values(r):
    return (r.uuid, r.timestamp, frozenset(r.tags), frozenset(r.orig_tags), json.dumps(r.stats, sort_keys=True),
            r.server, r.trust.value)


def same(what, got, want, how):
    if got != want:
        bad = [(a, b) for a, b in zip(got, want) if a != b]
        raise Violation(f"{how}-differs", f"{what}: got {bad}")
    if got[1].utcoffset() != datetime.timedelta(0):
        raise Violation(f"{how}-differs", f"{what}: time zone {got[1].tzinfo}")


def fetch(s, only_clean):
    from backy.daemon.api import Client

    async def go():
        async with Client("peer", "http://local", "tok", "task", env.log()) as c:
            return await c.get_revs(s.daemon.dead_repositories["job"], only_clean=only_clean)

    return s.loop.run_until_complete(go())


def via_network(s, what, r, want):
    """want: values of the revision on the server."""
    clean = "duration" in r.stats
    for only in (True, False):
        got = fetch(s, only)
        if r.server or (only and not clean):
            if got:
                raise Violation("http-extra", f"{what}: only_clean={only} got {[x.uuid for x in got]}")
            continue
        if len(got) != 1:
            raise Violation("http-missing", f"{what}: only_clean={only} got {len(got)} revisions")
        w = want[:3] + (want[2], want[4], "peer", want[6])
        same(what, values(got[0]), w, "http")


def trip(j):
    """All revisions with these tags and these pending tags."""
    tags, orig = j
    s = server()
    path = s.base / "job"
    repo = s.daemon.dead_repositories["job"]
    out = {}
    for i, (uuid, ts, stats, srv, trust) in enumerate(itertools.product(UUIDS, TIMES, STATS, SERVERS, TRUSTS)):
        if (uuid != UUIDS[0]) + (ts != TIMES[0]) + (stats != STATS[2]) + (trust != TRUSTS[0]) > 2:
            continue
        hist.clear_revs(path)
        repo.scan()
        r = make(repo, uuid, ts, tags, orig, stats, srv, trust)
        want = values(r)
        what = f"uuid={uuid} {ts} tags={tags} orig={orig} stats={stats} server={srv!r} {trust}"
        r.write_info()
        names = [f for f in os.listdir(path) if f.endswith(".rev")]
        if names != [uuid + ".rev"]:
            raise Violation("file-name", f"{what}: {names}")
        raw = yaml.safe_load((path / names[0]).read_text(encoding="utf-8"))
        rt = raw["timestamp"]
        if (raw["uuid"], rt, set(raw["tags"]), set(raw["orig_tags"]), raw["stats"], raw["server"], raw["trust"]) != (
                uuid, ts, set(tags), set(orig), stats, srv, trust):
            raise Violation("file-differs", f"{what}: {raw}")
        for again in range(2):
            repo.scan()
            if len(repo.history) != 1:
                raise Violation("not-found", f"{what}: {repo.history}")
            r2 = repo.history[0]
            same(what, values(r2), want, "disk")
            if again == 0:
                r2.write_info()
        if i % 7 == 0 or srv == "":
            via_network(s, what, r2, want)
        if i % 20 == 0:
            rc, txt = world.run_cli(["-C", str(path), "log", "--json"])
            d = json.loads(txt)
            if rc or len(d) != 1 or (d[0]["uuid"], datetime.datetime.fromisoformat(d[0]["timestamp"]), set(d[0]["tags"]),
                                     set(d[0]["orig_tags"]), d[0]["stats"], d[0]["server"], d[0]["trust"]) != (
                    uuid, ts, set(tags), set(orig), stats, srv, trust):
                raise Violation("log-differs", f"{what}: {txt}")
        o = f"trip/{'remote' if srv else 'local'}/{'clean' if 'duration' in stats else 'unfinished'}"
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def put(j):
    """Tag updates through the HTTP interface with arbitrary tags."""
    from backy.daemon.api import Client

    old, new = j
    s = server()
    path = s.base / "job"
    repo = s.daemon.dead_repositories["job"]
    n = 0
    for auto in (False, True):
        hist.clear_revs(path)
        repo.scan()
        r = make(repo, UUIDS[0], TIMES[0], old, (), STATS[2], "", "trusted")
        r.write_info()
        (x,) = fetch(s, True)
        x.tags = set(new)
        x.orig_tags = set(old)

        async def go():
            async with Client("peer", "http://local", "tok", "task", env.log()) as c:
                await c.put_tags(x, autoremove=auto)

        what = f"{old} -> {new} autoremove={auto}"
        try:
            s.loop.run_until_complete(go())
        except Exception as e:
            raise Violation("put-failed", f"{what}: {e!r}")
        repo.scan()
        if auto and not new:
            if repo.history:
                raise Violation("put-differs", f"{what}: not removed")
        else:
            want = (r.uuid, r.timestamp, frozenset(new), frozenset(), json.dumps(r.stats, sort_keys=True), "", "trusted")
            if len(repo.history) != 1:
                raise Violation("put-differs", f"{what}: {repo.history}")
            same(what, values(repo.history[0]), want, "put")
        n += 1
    return [(n, "put")]


def order(j):
    """Histories are ordered by time, whatever the file names."""
    (k,) = j
    s = server()
    path = s.base / "job"
    repo = s.daemon.dead_repositories["job"]
    times = sorted(TIMES)[:k - 1] + [sorted(TIMES)[0] + datetime.timedelta(microseconds=1)]
    n = 0
    for perm in itertools.permutations(times):
        for text in (False, True):
            hist.clear_revs(path)
            for i, t in enumerate(perm):
                hist.write_rev(path, hist.uuid_of(i), t.isoformat() if text and i % 2 else t, ("daily",)) if not text else \
                    write_old(path, hist.uuid_of(i), t, i % 2)
            repo.scan()
            got = [r.timestamp for r in repo.history]
            if got != sorted(perm):
                raise Violation("order", f"{perm}: {got}")
            if [r.timestamp for r in fetch(s, False)] != sorted(perm):
                raise Violation("http-order", f"{perm}")
            n += 1
    return [(n, "order")]


OPTIONAL = ["stats", "tags", "orig_tags", "server", "trust", "parent"]
DEFAULTS = {"stats": {}, "tags": [], "orig_tags": [], "server": "", "trust": "trusted"}


def write_old(path, uuid, t, text, missing=(), **over):
    d = {"uuid": uuid, "timestamp": t.isoformat() if text else t, "parent": "", "stats": {"duration": 1.5},
         "trust": "verified", "tags": ["daily", "manual:x"], "orig_tags": ["daily"], "server": ""}
    d.update(over)
    for m in missing:
        del d[m]
    p = path / f"{uuid}.rev"
    p.unlink(missing_ok=True)
    p.write_text("# comment\n" + yaml.safe_dump(d))
    return d


def old(j):
    """Metadata of older versions."""
    text, ti = j
    s = server()
    path = s.base / "job"
    repo = s.daemon.dead_repositories["job"]
    n = 0
    for r in range(len(OPTIONAL) + 1):
        for missing in itertools.combinations(OPTIONAL, r):
            for extra in ({}, {"unknown": 1}, {"server": "other"}, {"trust": "distrusted"}):
                if set(extra) & set(missing):
                    continue
                hist.clear_revs(path)
                d = write_old(path, UUIDS[0], TIMES[ti], text, missing, **extra)
                d = DEFAULTS | d
                what = f"without {missing}, {'text' if text else 'native'} timestamp {TIMES[ti]}, {extra}"
                want = (UUIDS[0], TIMES[ti], frozenset(d["tags"]), frozenset(d["orig_tags"]),
                        json.dumps(d["stats"], sort_keys=True), d["server"], d["trust"])
                try:
                    repo.scan()
                except Exception as e:
                    raise Violation("old-unreadable", f"{what}: {e!r}")
                same(what, values(repo.history[0]), want, "old")
                repo.history[0].write_info()
                repo.scan()
                same(what, values(repo.history[0]), want, "rewritten")
                via_network(s, what, repo.history[0], want)
                n += 1
    return [(n, "old")]


KINDS = {"trip": trip, "put": put, "order": order, "old": old}


def case(j):
    return KINDS[j[0]](j[1])


def jobs_for(tier):
    jobs = [("trip", (t, o)) for t in TAGS for o in (TAGS if tier == "thorough" else TAGS[:2] + TAGS[-2:] + [t])]
    jobs = list(dict.fromkeys(jobs))
    jobs += [("put", x) for x in itertools.product(TAGS, repeat=2)]
    jobs += [("order", (k,)) for k in range(2, 5 if tier == "quick" else 6)]
    jobs += [("old", (x, i)) for x in (False, True) for i in range(len(TIMES))]
    return jobs


def run(rep, tier):
    setup()
    core.cases(rep, "metadata", case, jobs_for(tier))
    rep.add(traces_validated_against_impl=rep.cov["transitions"])


def replay(r):
    setup()
    k, a = r["case"]
    try:
        print(case((k, tuple(tuple(x) if isinstance(x, list) else x for x in a))))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
