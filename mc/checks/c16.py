"""C16: every request shape against every server state reachable by a bounded
sequence of reconfigurations of the real daemon and API."""
import asyncio
import itertools
import os

import yaml

from .. import core, env, hist, net
from ..core import Violation

SCHED = {"daily": {"interval": "1d", "keep": 2}}
TOKENS = [{"tokA": "alice"}, {"tokB": "bob"}, {"tokA": "alice", "tokB": "bob"}, {}]
# which of the repositories r1, r2 have a job
JOBS = [("r1",), ("r2",), ("r1", "r2"), ()]
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"]
NAMES = ["r1", "r2", "nosuch", "..", "%2e%2e%2fescape"]
U = hist.uuid_of(0)


def paths():
    out = ["/v1/status", "/v1/reload", "/v1/jobs", "/v1/backups", "/", "/v1", "/nosuch", "/v1/status?filter=r"]
    for n in NAMES:
        out += [f"/v1/jobs/{n}/run", f"/v1/backups/{n}/purge", f"/v1/backups/{n}/touch", f"/v1/backups/{n}/revs",
                f"/v1/backups/{n}/revs/{U}/tags", f"/v1/backups/{n}/revs/all/tags?autoremove=1"]
    return out


def headers(tokens):
    """All shapes that must not authorise anybody."""
    vals = [None, "", "Bearer", "Bearer ", "Bearer wrong", "Bearer None", "Bearer tok", "Bearer tokAA", "Bearer TOKA",
            "Basic tokA", "Basic dG9rQTo=", "Token tokA", "tokA", "tokB", "Bearer alice", "Bearer bob", "Bearer *",
            "BearertokA", "Digest tokA", "Bearer xtokA", "Bearer tokA,tokB"]
    vals += [f"Bearer {t}" for t in ("tokA", "tokB") if t not in tokens]
    return vals


class World:
    def __init__(self):
        env.boot()
        import backy.daemon
        from aiohttp.web_runner import TCPSite
        from backy.daemon.api import BackyAPI

        async def nothing(self):
            pass

        TCPSite.start = TCPSite.stop = nothing
        made = self.made = []
        init = BackyAPI.__init__

        def capture(api, *a, **kw):
            made.append(api)
            init(api, *a, **kw)

        BackyAPI.__init__ = capture
        self.root = env.fresh_dir("c16")
        self.base = self.root / "base"
        self.base.mkdir()
        self.conf = self.root / "conf"
        for r in ("r1", "r2"):
            p = self.base / r
            p.mkdir()
            (p / "quarantine").mkdir()
        (self.root / "escape").mkdir()
        from backy.daemon.scheduler import Job

        Job.start = lambda self: None
        Job.stop = lambda self: None
        self.Daemon = backy.daemon.BackyDaemon

    def write_conf(self, c):
        t, j = c
        self.conf.write_text(yaml.safe_dump({
            "global": {"base-dir": str(self.base)}, "api": {"tokens": TOKENS[t]}, "schedules": {"s": SCHED},
            "jobs": {n: {"source": {"type": "file", "filename": "/nonexistent"}, "schedule": "s"} for n in JOBS[j]}}))

    async def begin(self, confs):
        """A daemon that saw this sequence of configurations."""
        del self.made[:]
        self.write_conf(confs[0])
        d = self.daemon = self.Daemon(self.conf, env.log())
        d.loop = asyncio.get_running_loop()
        d._read_config()
        d._apply_config()
        d.api_server()
        for _ in range(8):
            await asyncio.sleep(0)
        self.api = self.made[0]
        for c in confs[1:]:
            self.write_conf(c)
            d.reload()
            for _ in range(8):
                await asyncio.sleep(0)

    def reset(self):
        for r in ("r1", "r2"):
            p = self.base / r
            for e in list(os.scandir(p)):
                if e.is_file() and e.name not in ("config", ".backup", ".purge"):
                    os.unlink(e.path)
            hist.write_rev(p, U, 5.0, ("daily",))
        for j in self.daemon.jobs.values():
            j.run_immediately.clear()
        self.daemon.reload_api.clear()
        self.daemon.purged = None

    def snapshot(self, times=True):
        out = {}
        for dp, dn, fn in os.walk(self.root):
            for n in fn:
                p = os.path.join(dp, n)
                if n in (".backup", ".purge"):
                    continue
                with open(p, "rb") as f:
                    out[p] = f.read()
            if times:
                out[dp] = os.stat(dp).st_mtime_ns
            out[dp, "d"] = tuple(sorted(dn))
        out["run"] = tuple(sorted((n, j.run_immediately.is_set()) for n, j in self.daemon.jobs.items()))
        out["reload"] = self.daemon.reload_api.is_set()
        out["tokens"] = dict(self.daemon.api_tokens)
        return out

    def freeze_times(self):
        for dp, _, _ in os.walk(self.root):
            os.utime(dp, (1000000, 1000000))


_w = {}


def diff(a, b):
    return [k for k in set(a) | set(b) if a.get(k) != b.get(k)]


def job(j):
    confs, full = j
    if os.getpid() not in _w:
        _w[os.getpid()] = World()
    w = _w[os.getpid()]
    loop = net.new_loop()
    out = {}

    def count(o):
        out[o] = out.get(o, 0) + 1

    async def main():
        await w.begin(confs)
        t, jb = confs[-1]
        tokens, active = TOKENS[t], JOBS[jb]
        body = {"old_tags": ["daily"], "new_tags": ["manual:x"]}
        w.reset()
        w.freeze_times()
        before = w.snapshot()
        # nobody without a token
        for path in paths():
            for method in METHODS:
                for h in headers(tokens) if full else (None, "Bearer wrong"):
                    st, b = await net.dispatch(w.api.app, method, path, {} if h is None else {"Authorization": h},
                                               json=body if method in ("PUT", "POST") else None)
                    what = f"{method} {path} Authorization={h!r} after configurations {confs}"
                    if st != 401:
                        raise Violation("unauthorised", f"{what}: status {st}")
                    if b"r1" in b or U.encode() in b:
                        raise Violation("leak", f"{what}: {b[:200]}")
                    count("401")
                after = w.snapshot()
                if after != before:
                    raise Violation("unauthorised-effect", f"{method} {path} after {confs}: changed {diff(before, after)}")
        # everybody with a token, on every repository
        for tok in tokens:
            h = {"Authorization": "Bearer " + tok}
            for name in NAMES[:3]:
                for method, path, what in [
                    ("PUT", f"/v1/backups/{name}/revs/{U}/tags", "tags"),
                    ("PUT", f"/v1/backups/{name}/revs/all/tags", "tags"),
                    ("PUT", f"/v1/backups/{name}/revs/all/tags?autoremove=1", "tags"),
                    ("PUT", f"/v1/backups/{name}/revs/0/tags?autoremove=1", "remove"),
                    ("POST", f"/v1/backups/{name}/purge", "purge"),
                ]:
                    w.reset()
                    before = w.snapshot(False)
                    bd = {"old_tags": ["daily"], "new_tags": []} if what == "remove" else body
                    st, _ = await net.dispatch(w.api.app, method, path, h, json=bd if method == "PUT" else None)
                    after = w.snapshot(False)
                    ch = diff(before, after)
                    desc = f"{method} {path} (jobs {active}, after {confs})"
                    if name == "nosuch":
                        if st != 404 or ch:
                            raise Violation("unknown", f"{desc}: status {st}, changed {ch}")
                    elif name in active:
                        if st != 403 or ch:
                            raise Violation("active", f"{desc}: status {st}, changed {ch}")
                    else:
                        if not 200 <= st < 300:
                            raise Violation("refused", f"{desc}: status {st}")
                        p = w.base / name
                        want = {str(p / ".purge_pending")} if what == "purge" else {str(p / f"{U}.rev")}
                        if set(ch) != want:
                            raise Violation("wrong-effect", f"{desc}: changed {ch}")
                        if what == "remove" and (p / f"{U}.rev").exists():
                            raise Violation("not-removed", desc)
                        if what == "tags" and hist.read_revs(p)[U]["tags"] != ["manual:x"]:
                            raise Violation("not-applied", desc)
                    count(f"{what}/{st}")
                w.reset()
                before = w.snapshot(False)
                st, _ = await net.dispatch(w.api.app, "POST", f"/v1/jobs/{name}/run", h)
                ch = diff(before, w.snapshot(False))
                if name in active:
                    if st != 202 or ch != ["run"] or not w.daemon.jobs[name].run_immediately.is_set() or sum(
                            jj.run_immediately.is_set() for jj in w.daemon.jobs.values()) != 1:
                        raise Violation("run", f"{name} {confs}: {st} {ch}")
                elif st != 404 or ch:
                    raise Violation("run", f"{name} {confs}: {st} {ch}")
                count(f"run/{st}")
        # read only requests stay read only
            for path in ("/v1/status", "/v1/jobs", "/v1/backups", "/v1/backups/r1/revs", "/v1/backups/r2/revs"):
                w.reset()
                before = w.snapshot(False)
                st, b = await net.dispatch(w.api.app, "GET", path, h)
                ch = diff(before, w.snapshot(False))
                if st != 200 or ch:
                    raise Violation("read", f"GET {path} {confs}: {st} {ch}")
                if path == "/v1/backups" and set(__import__("json").loads(b)) != {"r1", "r2"} - set(active):
                    raise Violation("backups", f"{confs}: {b}")
                count(f"read/{st}")

    try:
        loop.run_until_complete(main())
    finally:
        net.close_loop(loop)
    return [(n, o) for o, n in out.items()]


# ---------------------------------------------------------------- listening addresses

ADDRS = [("a",), ("a", "b"), ("b",), ("a", "bad"), ("bad", "b")]


class Sites:
    """Binding an address takes a second; the address "bad" can not be bound."""

    def __init__(self):
        self.bound = []

    def __enter__(self):
        from aiohttp.web_runner import BaseSite, TCPSite

        sites = self
        self.saved = TCPSite.__dict__.get("start"), TCPSite.__dict__.get("stop")

        async def start(site):
            await BaseSite.start(site)
            await asyncio.sleep(1)
            if "bad" in site.name or site.name in sites.bound:
                raise OSError(98, "Address already in use")
            sites.bound.append(site.name)
            site._server = Bound(sites, site.name)

        async def stop(site):
            await BaseSite.stop(site)

        TCPSite.start, TCPSite.stop = start, stop
        return self

    def __exit__(self, *a):
        from aiohttp.web_runner import TCPSite

        for n, f in zip(("start", "stop"), self.saved):
            if f is None:
                delattr(TCPSite, n)
            else:
                setattr(TCPSite, n, f)


class Bound:
    def __init__(self, sites, name):
        self.sites, self.name = sites, name

    def close(self):
        self.sites.bound.remove(self.name)


def listen(seq, each):
    """A daemon going through these (tokens, addresses); each(i, daemon, api,
    bound, settled) is called half a second and 100 seconds after each."""
    if os.getpid() not in _w:
        _w[os.getpid()] = World()
    w = _w[os.getpid()]
    del w.made[:]
    env.clock.t = 0
    loop = net.new_loop()

    async def main():
        for i, (t, addrs) in enumerate(seq):
            w.conf.write_text(yaml.safe_dump({
                "global": {"base-dir": str(w.base)},
                "api": {"tokens": TOKENS[t], "addrs": ", ".join(ADDRS[addrs]), "port": 5},
                "schedules": {"s": SCHED}, "jobs": {}}))
            if i == 0:
                d = w.Daemon(w.conf, env.log())
                d.loop = asyncio.get_running_loop()
                d._read_config()
                d._apply_config()
                d.api_server()
            else:
                d.reload()
            await asyncio.sleep(0.5)
            await each(i, d, w.made[0], s.bound, False)
            await asyncio.sleep(100)
            await each(i, d, w.made[0], s.bound, True)

    with Sites() as s:
        try:
            loop.run_until_complete(main())
        finally:
            net.close_loop(loop)


def listen_job(seq):
    n = [0]

    async def each(i, d, api, bound, settled):
        for t in ("tokA", "tokB", "other"):
            st, _ = await net.dispatch(api.app, "GET", "/v1/backups", {"Authorization": f"Bearer {t}"})
            n[0] += 1
            if (st == 200) != (t in TOKENS[seq[i][0]]):
                raise Violation("stale-tokens", f"{'100' if settled else '0.5'} s after configuration {i} of "
                                f"{[(TOKENS[a], ADDRS[b]) for a, b in seq]}: {t} gets {st}")

    listen(seq, each)
    return n[0], "listen/" + ("bad" if "bad" in ADDRS[seq[-1][1]] else "ok")


def listen_seqs(tier):
    one = list(itertools.product((0, 1), range(len(ADDRS))))
    return [s for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)) for s in itertools.product(one, repeat=n)]


def run(rep, tier):
    env.boot()
    confs = list(itertools.product(range(len(TOKENS)), range(len(JOBS))))
    depth = 2 if tier == "quick" else 3
    seqs = [(c,) for c in confs]
    if tier == "quick":
        seqs += [(a, b) for a in confs for b in confs if a != b and (a[0] == b[0] or a[1] == b[1])]
    else:
        seqs += [s for n in (2,) for s in itertools.product(confs, repeat=n)]
        seqs += [s for s in itertools.product(confs, repeat=3) if s[0] != s[1] and s[1] != s[2]
                 and (s[0][0] == s[1][0] or s[0][1] == s[1][1]) and (s[1][0] == s[2][0] or s[1][1] == s[2][1])]
    core.cases(rep, "requests", job, [(s, tier == "thorough" or len(s) == 1 or s[-1][0] != s[-2][0]) for s in seqs])
    core.cases(rep, "listen", listen_job, listen_seqs(tier))
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.cov["bounds"] = f"{len(paths())} paths x {len(METHODS)} methods x header shapes after every sequence of <= {depth} configurations"


def replay(r):
    env.boot()
    try:
        if r["space"] == "listen":
            listen_job(tuple(map(tuple, r["case"])))
            return 0
        job((tuple(tuple(c) for c in r["case"][0]), r["case"][1]))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
