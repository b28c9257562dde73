"""C09: pairs of commands that change revision metadata as real processes,
under all schedules with a bounded number of preemptions; the outcome must be
that of some sequential order."""
import asyncio
import itertools
import json
import os
import re
from types import SimpleNamespace

from .. import conc, core, env, hist, net, proc, scen
from ..conc import Cmd
from ..core import Violation
from . import c05, c08


def _cli(name, *args, advance=0, many=False):
    def prep(p, i):
        a = [re.sub(r"@(\w+)", lambda m: getattr(p, m[1]), x) for x in args]

        def run():
            env.clock.t += advance
            return p.box.cli(*a)[0]

        return run

    c = Cmd(name, prep, name.split("-")[0])
    c.many = many  # several locked steps: may fail between them
    return c


def peer(p, log):
    """The peer as an HTTP server: it has one of our copies with other tags
    and a new revision; one we know is gone."""
    revs = [
        dict(uuid=p.remote0, timestamp=hist.ts(1e6), parent="", stats={"duration": 1.0}, trust="trusted",
             tags=["weekly"], orig_tags=[], server="", location=""),
        dict(uuid=hist.uuid_of(95), timestamp=hist.ts(1e6 + 5), parent="", stats={"duration": 1.0}, trust="trusted",
             tags=["daily"], orig_tags=[], server="", location=""),
    ]

    async def serve(method, path, headers, body):
        log.append((method, path.split("?")[0], json.dumps(body, sort_keys=True)))
        proc.lib().mc_point(f"http {method} {path.rsplit('/', 1)[-1]}".encode())
        if path.split("?")[0].endswith("/revs") and method == "GET":
            from backy.daemon.api import BackyJSONEncoder

            return 200, json.dumps([{k: v for k, v in r.items() if k != "location"} for r in revs],
                                   cls=BackyJSONEncoder).encode()
        return 200, b"null"

    return serve


def _sync(which):
    def prep(p, i):
        def run():
            from backy.daemon.scheduler import Job

            log = []
            net.install()
            net.network.servers = {"peer.host": peer(p, log)}
            loop = net.new_loop()
            try:
                repo = p.box.repository()
                daemon = SimpleNamespace(
                    peers={"peer": {"url": "http://peer.host", "token": "t"}}, base_dir=p.box.base, schedules={},
                    api_cli_default={})
                job = Job(daemon, repo.name, env.log())
                job.source = SimpleNamespace(repository=repo, log=env.log())
                with env.Quiet():
                    try:
                        rc = loop.run_until_complete(getattr(job, which)())
                    except BlockingIOError:
                        return 1, ()
                    except Exception as e:
                        return f"{type(e).__name__}", ()
                return rc, tuple(x for x in log if x[0] == "PUT")
            finally:
                net.close_loop(loop)

        return run

    c = Cmd(which, prep, which)
    c.many = False
    return c


CMDS = {c.name: c for c in [
    _cli("tags-set", "tags", "set", "-f", "-r", "clean", "manual:x"),
    _cli("tags-add", "tags", "add", "-r", "@first", "weekly"),
    _cli("tags-remove", "tags", "remove", "--autoremove", "-r", "all", "daily"),
    _cli("tags-expect", "tags", "set", "--expect", "daily", "-r", "@last", "weekly"),
    _cli("tags-remote", "tags", "set", "-r", "@remote0", "daily,weekly"),
    _cli("rm-first", "rm", "-r", "@first"),
    _cli("rm-remote", "rm", "-r", "@remote0"),
    _cli("distrust", "distrust", "-r", "@first,@last"),
    _cli("verify", "verify", "-r", "@last"),
    _cli("expire", "gc", "--expire", "--local", advance=86400 * 30, many=True),
    _cli("backup", "backup", "daily", many=True),
    _sync("push_metadata"),
    _sync("pull_metadata"),
]}


def state(p):
    out = []
    for u, d in sorted(scen.revs_lenient(p.box).items()):
        if d is None:
            out.append((u, "unreadable"))
        elif "duration" in (d.get("stats") or {}):
            out.append((u, tuple(sorted(d["tags"])), tuple(sorted(d.get("orig_tags") or ())), d["trust"], d.get("server") or ""))
    return tuple(out)


def rc_of(v):
    return v[0] if isinstance(v, tuple) else v


def prepared():
    p = scen.prepared("Rmeta")
    c05.hooked(p)
    return p


_seq = {}


def sequential(cs, order):
    k = (os.getpid(), cs, order)
    if k not in _seq:
        p = prepared()
        vals = conc.run_sequential(p, [CMDS[c] for c in cs], order)
        _seq[k] = (state(p), {i: v for i, v in vals.items()})
    return _seq[k]


def execute(cs, ch):
    p = prepared()
    try:
        vals, trace = conc.run_concurrent(p, [CMDS[c] for c in cs], ch)
    except proc.Stuck as e:
        raise Violation("deadlock", f"{'|'.join(cs)}: {e}")
    judge(p, cs, vals, trace)
    return vals


def judge(p, cs, vals, trace):
    what = f"{conc.describe([CMDS[c] for c in cs], trace)} -> {[rc_of(v) for v in vals]}"
    got = state(p)
    for v in vals:
        if isinstance(rc_of(v), str):
            raise Violation("sync-failed", f"{what}: {v}")
    ok = [i for i, v in enumerate(vals) if rc_of(v) == 0]
    maybe = [i for i, v in enumerate(vals) if rc_of(v) and CMDS[cs[i]].many]
    tried = []
    for extra in itertools.chain.from_iterable(itertools.combinations(maybe, r) for r in range(len(maybe) + 1)):
        for order in itertools.permutations(ok + list(extra)):
            want, sv = sequential(cs, order)
            # what the commands observed (requests sent) must agree as well
            if want == got and all(sv[i] == vals[i] for i in order if isinstance(vals[i], tuple)):
                return
            tried.append((order, want))
    raise Violation("not-serialisable", f"{what}: {got} is the outcome of no order, they lead to {tried}")


def case(job):
    cs, first, bound, part = job
    out = []

    def run(ch, skip):
        if skip:
            conc.run_concurrent(prepared(), [CMDS[c] for c in cs], ch)
            return
        try:
            vals = execute(cs, ch)
        except Violation as v:
            raise Violation(v.key, f"{v.detail} schedule={[a for _, _, a in ch.trace]}")
        out.append("/".join(f"{CMDS[c].kind}={rc_of(v)}" for c, v in zip(cs, vals)))

    conc.explore(run, abs(bound), first, part=part, coarse=bound < 0)
    return [(1, o) for o in out]


TRIPLES = [("tags-set", "rm-first", "expire"), ("pull_metadata", "tags-remote", "push_metadata"),
           ("backup", "expire", "tags-remove"), ("distrust", "verify", "tags-add"), ("backup", "distrust", "rm-first")]


def jobs_for(tier):
    jobs = []
    for cs in itertools.combinations_with_replacement(CMDS, 2):
        for first in range(2):
            jobs.append((cs, first, 1, (0, 1)))
            if tier != "quick":
                jobs += [(cs, first, -2, (i, 8)) for i in range(8)]
    if tier == "quick":
        for cs in (("tags-remove", "expire"), ("rm-first", "tags-set"), ("push_metadata", "tags-remote"),
                   ("pull_metadata", "rm-remote"), ("distrust", "verify")):
            jobs += [(cs, 0, -2, (i, 4)) for i in range(4)]
    else:
        for cs in TRIPLES:
            jobs += [(cs, first, -1, (i, 4)) for first in range(3) for i in range(4)]
    return jobs


def setup():
    scen.setup()
    env.own_time()


def run(rep, tier):
    setup()
    core.cases(rep, "schedules", case, jobs_for(tier))
    rep.add(traces_validated_against_impl=rep.cov["transitions"])


def replay(r):
    setup()
    j = r["case"]
    try:
        print(case((tuple(j[0]), j[1], j[2], tuple(j[3]))))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
