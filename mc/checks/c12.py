"""C12: planning, for every combination of clock, spread, schedule and last
backups on a fine grid, against an independent reference in whole seconds."""
import datetime
import itertools
import os

from .. import core, env, hist
from ..core import Violation

H, DAY = 3600, 86400
SCHEDULES = {
    "h": {"hourly": {"interval": "1h", "keep": 3}},
    "dw": {"daily": {"interval": "1d", "keep": 3}, "weekly": {"interval": "1w", "keep": 3}},
    "odd": {"a": {"interval": "5h", "keep": 3}, "b": {"interval": "7h", "keep": 1}, "c": {"interval": "25m", "keep": 1}},
    "same": {"x": {"interval": "1d", "keep": 1}, "y": {"interval": "24h", "keep": 1}, "z": {"interval": "3d", "keep": 1}},
}
UNIT = {"h": H, "d": DAY, "w": 7 * DAY, "m": 60, "s": 1}
MIN = datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc)


def iv(s):
    return {t: int(x["interval"][:-1]) * UNIT[x["interval"][-1]] for t, x in s.items()}


class Repo:
    """The real repository object with a synthetic in-memory history."""


def setup():
    env.boot()


_r = {}


def repo(sched):
    d = env.scratch_root() / f"c12.{os.getpid()}"
    d.mkdir(exist_ok=True)
    return hist.repository(d, SCHEDULES[sched]), d


def since_min(sec):
    """whole seconds between datetime.min and the virtual second `sec`"""
    dt = env.EPOCH - MIN
    return dt.days * DAY + dt.seconds + sec


def reference(sched, now, spread, revs):
    ivs = iv(SCHEDULES[sched])
    base = since_min(now)
    best, tags = None, set()
    for t, i in ivs.items():
        n = ((base - spread % i) // i + 1) * i + spread % i
        if best is None or n < best:
            best, tags = n, {t}
        elif n == best:
            tags.add(t)
    missed = set()
    for t, i in ivs.items():
        last = [r[0] for r in revs if r[2] and t in r[1]]
        if not last or max(last) <= now - i:
            missed.add(t)
    best = best - since_min(0)
    if missed and revs and best > now + 300:
        return now, missed
    return best, tags | missed


def job(j):
    sched, spread, revs, nows = j
    r, d = repo(sched)
    hist.clear_revs(d)
    for i, (t, tags, clean, server) in enumerate(revs):
        hist.write_rev(d, hist.uuid_of(i), t, tags, clean=clean, server=server)
    r.scan()
    out = {}
    for now in nows:
        env.clock.t = float(now)
        t, tags = r.schedule.next(env.clock.now(), spread, r)
        got = (t - env.EPOCH).total_seconds()
        want, wtags = reference(sched, now, spread, revs)
        if abs(got - want) > 0.01 or set(tags) != wtags:
            raise Violation("plan-differs", f"{sched} now={now} spread={spread} history={revs}: got {got} {sorted(tags)}, want {want} {sorted(wtags)}")
        o = ("now" if want == now else "later", len(wtags))
        out[o] = out.get(o, 0) + 1
    return [(n, f"{o[0]}/{o[1]}") for o, n in out.items()]


def walk(j):
    """Plan, wake up (exactly then, or late), make the backup, plan again: no
    grid point of the shortest interval passes without being planned."""
    sched, spread, start, late, n = j
    r, d = repo(sched)
    hist.clear_revs(d)
    ivs = iv(SCHEDULES[sched])
    last = {}
    now = start
    for i in range(n):
        env.clock.t = float(now)
        hist.clear_revs(d)
        revs = [(t, (tag,), True, "") for tag, t in last.items()]
        for k, (t, tags, _, _) in enumerate(revs):
            hist.write_rev(d, hist.uuid_of(k), t, tags)
        r.scan()
        t, tags = r.schedule.next(env.clock.now(), spread, r)
        got = round((t - env.EPOCH).total_seconds(), 3)
        want, wtags = reference(sched, now, spread, revs)
        if abs(got - want) > 0.01 or set(tags) != wtags:
            raise Violation("plan-differs", f"{sched} spread={spread} step {i} at {now}: got {got} {sorted(tags)}, want {want} {sorted(wtags)}")
        for tag, step in ivs.items():
            # every grid point in (now, got) would have been skipped
            nxt = ((since_min(int(now)) - spread % step) // step + 1) * step + spread % step - since_min(0)
            if nxt < got - 0.01:
                raise Violation("skipped", f"{sched} spread={spread} at {now}: planned {got}, but {tag} is due at {nxt}")
        now = max(now, int(got)) + late[i % len(late)]
        for tag in tags:
            last[tag] = now
    return n, "walk"


def jobs(tier):
    out = []
    anchors = [0, 100 * DAY, 365 * DAY - 1]
    for sched, s in SCHEDULES.items():
        ivs = iv(s)
        short, long = min(ivs.values()), max(ivs.values())
        spreads = sorted({0, 1, short // 2, short - 1, short, short + 7, long - 1, long, 3 * long // 4})
        offs = sorted({0, 1, 2, 59, 60, 299, 300, 301, short // 2, short - 301, short - 300, short - 299, short - 1, short, short + 1,
                       long - 1, long, long // 2 + 1})
        if tier == "thorough":
            offs = sorted(set(offs) | set(range(0, long, max(1, short // 24))))
            spreads = sorted(set(spreads) | set(range(0, long, max(1, short // 3))))
        for spread in spreads:
            for a in anchors:
                nows = sorted({a + o + d for o in offs for d in (0, spread % short)})
                nows = [n for n in nows if n >= 0]
                for h in histories(ivs, a):
                    out.append((sched, spread, h, nows))
    return out


def histories(ivs, a):
    tags = sorted(ivs)
    short, long = min(ivs.values()), max(ivs.values())
    yield []
    yield [(a - short // 2, tuple(tags), True, "")]
    yield [(a - short // 2, tuple(tags[:1]), True, "")]
    yield [(a - 2 * long, tuple(tags), True, ""), (a - 1, tuple(tags[-1:]), True, "")]
    yield [(a - 10, tuple(tags), False, "")]
    yield [(a - 20, tuple(tags), True, "other")]
    yield [(a - short // 3, ("manual:x", "unknown"), True, "")]
    yield [(a - long + 3, tuple(tags), True, ""), (a - 5, tuple(tags), False, "")]
    yield [(a + 3 * long, tuple(tags), True, "")]  # the clock was set back
    yield [(a - 2 * long, tuple(tags[:1]), True, ""), (a + short + 1, tuple(tags[1:]), True, "")]
    yield [(a - short - 7, tuple(tags), True, ""), (a - 2 * long - 3, tuple(tags), True, "")]


def run(rep, tier):
    setup()
    core.cases(rep, "plan", job, jobs(tier))
    walks = []
    for sched, s in SCHEDULES.items():
        short, long = min(iv(s).values()), max(iv(s).values())
        for spread in (0, 1, short // 2, short - 1, short + 7, long - 1, 3 * long // 4):
            for start in (0, 1, 100 * DAY + 17, 365 * DAY - 1):
                for late in ((0,), (1,), (0, 30, 2), (short // 3,), (0, short - 2)):
                    walks.append((sched, spread, start, late, 12 if tier == "quick" else 60))
    core.cases(rep, "walk", walk, walks)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += ["clocks in whole seconds"]


def replay(r):
    setup()
    c = r["case"]
    try:
        if r["space"] == "plan":
            job((c[0], c[1], [tuple(x) for x in c[2]], c[3]))
        else:
            walk((c[0], c[1], c[2], tuple(c[3]), c[4]))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
