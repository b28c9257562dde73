"""C11: expiry of every bounded history against an independent reference."""
import datetime
import itertools
import os

from .. import core, env, hist
from ..core import Violation

DAY = 86400.0
SCHEDULES = {
    "dw": {"daily": {"interval": "1d", "keep": 2}, "weekly": {"interval": "7d", "keep": 1}},
    "k1": {"daily": {"interval": "1d", "keep": 1}},
    "k3": {"frequent": {"interval": "6h", "keep": 3}, "daily": {"interval": "1d", "keep": 1}},
    "k0": {"daily": {"interval": "2d", "keep": 2}, "monthly": {"interval": "30d", "keep": 2}},
}
NOW = 100 * DAY


def intervals(s):
    unit = {"h": 3600.0, "d": DAY}
    return {t: (float(x["interval"][:-1]) * unit[x["interval"][-1]], x["keep"]) for t, x in s.items()}


def setup():
    env.boot()


def reference(revs, sched):
    """revs: list of dicts, oldest first. Yields per revision
    (tags that must stay, tags that must go)."""
    out = [(set(), set()) for _ in revs]
    iv = intervals(sched)
    for i, r in enumerate(revs):
        must, gone = out[i]
        for t in r["tags"]:
            if t.startswith("manual:"):
                must.add(t)
            elif t not in iv:
                gone.add(t)
            else:
                interval, keep = iv[t]
                same = [j for j, x in enumerate(revs) if t in x["tags"]]
                clean = [j for j in same if revs[j]["clean"]]
                young = r["t"] > NOW - keep * interval
                if i in clean[-keep:] or young:
                    must.add(t)
                elif i not in same[-keep:] and r["t"] < NOW - keep * interval:
                    gone.add(t)
    return out


_dirs = {}


def repo_dir():
    d = env.scratch_root() / f"c11.{os.getpid()}"
    d.mkdir(exist_ok=True)
    return d


def one(sched, revs):
    d = repo_dir()
    hist.clear_revs(d)
    env.clock.t = NOW
    for i, r in enumerate(revs):
        r["uuid"] = hist.uuid_of(i)
        hist.write_rev(d, r["uuid"], r["t"], r["tags"], clean=r["clean"], server=r["server"],
                       orig=r["tags"] if r["server"] else ())
    repo = hist.repository(d, SCHEDULES[sched])
    repo.expire()
    after = hist.read_revs(d)
    what = f"schedule {sched}: " + "; ".join(
        f"{(NOW - r['t']) / DAY:g}d {','.join(sorted(r['tags']))}{'' if r['clean'] else ' incomplete'}{' remote' if r['server'] else ''}" for r in revs)
    for r, (must, gone) in zip(revs, reference(revs, SCHEDULES[sched])):
        a = after.get(r["uuid"])
        tags = set(a["tags"]) if a else set()
        if must - tags:
            raise Violation("tag-lost", f"{what}: the {(NOW - r['t']) / DAY:g}d old one lost {must - tags}")
        if tags & gone:
            raise Violation("tag-kept", f"{what}: the {(NOW - r['t']) / DAY:g}d old one kept {tags & gone}")
        if tags - r["tags"]:
            raise Violation("tag-added", f"{what}: {tags - r['tags']}")
        if r["server"]:
            if not a:
                raise Violation("remote-deleted", f"{what}")
            if set(a["orig_tags"]) != r["tags"] or a["server"] != r["server"]:
                raise Violation("remote-change-not-pending", f"{what}: {a}")
        elif a and not tags:
            raise Violation("untagged-kept", f"{what}")
        if a and (a["trust"] != "trusted" or ("duration" in a["stats"]) != r["clean"]):
            raise Violation("metadata-changed", f"{what}: {a}")
    if set(after) - {r["uuid"] for r in revs}:
        raise Violation("revision-appeared", what)
    # running it again changes nothing
    hist.repository(d, SCHEDULES[sched]).expire()
    again = hist.read_revs(d)
    if {u: hist.norm(x) for u, x in again.items()} != {u: hist.norm(x) for u, x in after.items()}:
        raise Violation("not-idempotent", what)
    return f"{len(revs)}->{len(after)}"


KIND = {"c": (True, ""), "i": (False, ""), "r": (True, "other")}


def job(j):
    sched, ages, kinds, tagsets = j
    out = {}
    for combo in itertools.product(*[tagsets] * len(ages)):
        revs = [{"t": NOW - a * DAY, "tags": set(t), "clean": KIND[k][0], "server": KIND[k][1]}
                for a, k, t in zip(ages, kinds, combo)]
        o = one(sched, revs)
        out[o] = out.get(o, 0) + 1
    return [(n, o) for o, n in out.items()]


def jobs(tier):
    full = [(), ("daily",), ("weekly",), ("daily", "weekly"), ("manual:a",), ("daily", "manual:a"), ("old",)]
    out = []
    eps = 0.001
    # border ages around keep * interval and the newest `keep`
    ages = (10, 7 + eps, 7 - eps, 2 + eps, 2, 2 - eps, 0.5)
    for a in itertools.combinations(ages, 2):
        for k in itertools.product("cir", repeat=2):
            out.append(("dw", a, k, full))
    small = [("daily",), ("daily", "weekly"), ("manual:a", "weekly"), ()]
    ages = (20, 7 + eps, 3, 2 + eps, 1.5, 0.2)
    for a in itertools.combinations(ages, 3):
        for k in itertools.product("cir", repeat=3):
            out.append(("dw", a, k, small if tier == "thorough" or "r" not in k else small[:2]))
    for a in itertools.combinations((3, 1 + eps, 1 - eps, 0.1), 3):
        for k in itertools.product("ci", repeat=3):
            out.append(("k1", a, k, [("daily",), ("daily", "manual:x"), ("gone", "daily"), ()]))
    tiny = [("frequent",), ("frequent", "daily")]
    for n in (4, 5):
        for a in itertools.combinations((2, 1, 0.75 + eps, 0.75 - eps, 0.5, 0.3, 0.1), n):
            for k in (set(itertools.permutations("c" * (n - 1) + "i")) | {tuple("c" * n), tuple("c" * (n - 1) + "r"), tuple("r" + "c" * (n - 1))}):
                if n == 5 and tier == "quick" and "i" in k:
                    continue
                out.append(("k3", a, tuple(k), tiny))
    for a in itertools.combinations((70, 60 + eps, 31, 4 + eps, 4 - eps, 1), 3):
        out.append(("k0", a, tuple("ccc"), [("daily",), ("monthly",), ("daily", "monthly"), ("weekly", "daily")]))
    if tier == "thorough":
        for a in itertools.combinations((20, 7 + eps, 3, 2 + eps, 1.5, 0.2), 4):
            for k in itertools.product("cir", repeat=4):
                out.append(("dw", a, k, small[:3]))
        for a in itertools.combinations(ages, 3):
            for k in itertools.product("cir", repeat=3):
                out.append(("dw", a, k, full))
    return out


def run(rep, tier):
    setup()
    core.cases(rep, "histories", job, jobs(tier))
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += [
        "copies exactly as old as the limit, and incomplete ones among the newest copies, may go either way",
    ]


def replay(r):
    setup()
    try:
        s, a, k, t = r["case"]
        print(job((s, tuple(a), tuple(k), [tuple(x) for x in t])))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
