"""C34: what the status list, `show-jobs`, `show-daemon` and `log` say, for all
bounded histories, and whether announced backups come true, for all bounded
sequences of events in the life of a daemon."""
import asyncio
import datetime
import itertools
import json
import os
import re

import humanize
import yaml

from .. import core, env, hist, jobs, net, world
from ..core import Violation
from . import c31

H, DAY = 3600.0, 86400.0
NOW = 50 * DAY + 777.0
SCHED = {"weekly": {"interval": "7d", "keep": 2}, "daily": {"interval": "1d", "keep": 2}, "hourly": {"interval": "1h", "keep": 2}}
INTERVAL = {"weekly": 7, "daily": 1, "hourly": 1 / 24}
SHORT = H

# -- all fields, for all histories

# complete?, server, tags, orig_tags, duration
KINDS = {
    "c": (True, "", ["daily"], [], 1.5),
    "m": (True, "", ["weekly", "manual:x", "hourly", "daily"], [], 3725.0),
    "0": (True, "", ["gone", "hourly"], [], 0.0),
    "i": (False, "", ["manual:unfinished"], [], None),
    "r": (True, "other", ["daily"], ["daily"], 2.0),
    "p": (True, "other", ["daily", "manual:y"], ["daily"], 2.5),
    "q": (True, "other", [], ["daily"], 90000.0),
    "x": (False, "other", ["hourly"], ["daily"], None),
}
STATES = ["", "waiting for deadline", "running (fast)", "finished"]
SINGULAR = {"daily", "weekly", "hourly"}


def setup():
    env.boot()
    net.install()
    os.environ["COLUMNS"] = "400"


def server():
    s = net.server_env("c34", jobs=["job", "job-2", "other"], dead=["dead1", "jobs-old"], schedule=SCHED,
                       extra={}, tokens={"tok": "client"})
    s.conf["api"]["cli-default"] = {"url": "http://local:1", "token": "tok"}
    s.write_conf()
    asyncio.set_event_loop(s.loop)
    net.network.servers = {"local": s}
    net.network.hook = None
    return s


def table(out):
    rows = []
    for line in out.splitlines():
        if line.startswith("│"):
            rows.append([c.strip() for c in line.strip("│").split("│")])
    return rows


def local_time(t):
    return "-" if t is None else t.astimezone(datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S")


def text_of_tags(tags):
    """The tags of the schedule from the smallest interval on; others in front."""
    return sorted(tags, key=lambda t: INTERVAL.get(t, 0))


def same_tags(text, tags):
    got = text.split(",") if text else []
    return sorted(got) == sorted(tags) and [INTERVAL.get(t, 0) for t in got] == sorted(INTERVAL.get(t, 0) for t in tags)


def one(revs, reports, state, nxt):
    """revs: (age, kind)"""
    s = server()
    path = s.base / "job"
    hist.clear_revs(path)
    q = path / "quarantine"
    for e in list(os.scandir(q)):
        os.unlink(e.path)
    env.clock.t = NOW
    for i, (age, kind) in enumerate(revs):
        clean, srv, tags, orig, dur = KINDS[kind]
        hist.write_rev(path, hist.uuid_of(i), NOW - age, tags, clean=clean, server=srv, orig=orig, duration=dur)
    for i in range(reports):
        (q / f"{hist.uuid_of(i, 'p')}.report").write_text("uuid: x\n")
    (q / "noreport").write_text("")
    j = s.daemon.jobs["job"]
    j.status = state
    j.next_time = None if nxt is None else hist.ts(NOW + nxt[0])
    j.next_tags = None if nxt is None else set(nxt[1])
    what = f"{revs} reports={reports} {state!r} {nxt}"

    clean = [(age, KINDS[k]) for age, k in revs if KINDS[k][0]]
    last = min(clean, default=None, key=lambda x: x[0])
    over = bool(last) and last[0] > 1.5 * SHORT
    want = {
        "job": "job", "sla": "TOO OLD" if over else "OK", "status": state,
        "last_time": hist.ts(NOW - last[0]) if last else None,
        "last_duration": last[1][4] if last else None,
        "next_time": hist.ts(NOW + nxt[0]) if nxt else None,
        "problem_reports": reports,
        "unsynced_revs": sum(1 for _, (_, srv, tags, orig, _) in clean if srv and set(tags) != set(orig)),
        "local_revs": sum(1 for _, (_, srv, *_) in clean if not srv),
    }
    manual = {t for _, (_, _, tags, _, _) in clean for t in tags if t.startswith("manual:")}

    def compare(st, where):
        for k, v in want.items():
            if st[k] != v:
                raise Violation(f"{where}-{k}", f"{what}: {st[k]!r}, want {v!r}")
        if set(filter(None, st["manual_tags"].split(", "))) != manual:
            raise Violation(f"{where}-manual_tags", f"{what}: {st['manual_tags']!r}, want {manual}")
        if abs(st["sla_overdue"] - (last[0] if over else 0)) > 1:
            raise Violation(f"{where}-overdue", f"{what}: {st['sla_overdue']}")
        for k, t in (("last_tags", last[1][2] if last else None), ("next_tags", nxt[1] if nxt else None)):
            if not t:
                ok = not st[k]
            else:
                ok = same_tags(st[k], t)
            if not ok:
                raise Violation(f"{where}-{k}", f"{what}: {st[k]!r}, want {t}")

    code, body = s.request("GET", "/v1/status?filter=^job$")
    if code != 200:
        raise Violation("status-fails", f"{what}: {code}")
    raw = json.loads(body)
    if len(raw) != 1:
        raise Violation("status-jobs", f"{what}: {[x['job'] for x in raw]}")

    async def fetch():
        from backy.daemon.api import Client

        async with Client("srv", "http://local:1", "tok", "task", env.log()) as c:
            return await c.fetch_status(), await c.fetch_status("^job$")

    full, st = s.loop.run_until_complete(fetch())
    if sorted(x["job"] for x in full) != ["job", "job-2", "other"] or len(st) != 1:
        raise Violation("status-jobs", f"{what}: {[x['job'] for x in full]} {[x['job'] for x in st]}")
    compare(st[0], "status")
    compare(next(x for x in full if x["job"] == "job"), "status")

    def parse(x):
        return dict(x, last_time=x["last_time"] and datetime.datetime.fromisoformat(x["last_time"]),
                    next_time=x["next_time"] and datetime.datetime.fromisoformat(x["next_time"]))

    compare(parse(raw[0]), "http")
    return want, last, nxt, over, what, s


def shown(want, last, nxt, over, what, s):
    """show-jobs and show-daemon"""
    conf = str(s.root / "backy.conf")
    args = ["-c", conf]
    for sel, names, dead in ((["-a"], ["job", "job-2", "other"], ["dead1", "jobs-old"]), (["--jobs", "job"], ["job", "job-2"], ["jobs-old"]),
                             (["--jobs", "^job$"], ["job"], []), (["-C", str(s.base / "job")], ["job"], [])):
        rc, out = world.run_cli([*args, *sel, "show-jobs"])
        if rc:
            raise Violation("show-jobs-fails", f"{what}: {sel}: {rc}")
        rows = table(out)
        if [r[0] for r in rows] != names + sorted(dead) and sorted(r[0] for r in rows) != sorted(names + dead):
            raise Violation("show-jobs-rows", f"{what}: {sel}: {[r[0] for r in rows]}, want {names + dead}")
        if f"{len(names + dead)} jobs shown" not in out:
            raise Violation("show-jobs-count", f"{what}: {sel}: {out.splitlines()[-1]}")
        for r in rows:
            if r[0] in dead and r[3] != "Dead":
                raise Violation("show-jobs-dead", f"{what}: {r}")
        r = next(r for r in rows if r[0] == "job")
        exp = ["job", want["sla"], humanize.naturaldelta(last[0]) if over else "-", want["status"], local_time(want["last_time"]), None,
               humanize.naturaldelta(want["last_duration"]) if want["last_duration"] else "-", local_time(want["next_time"]), None]
        for a, b in zip(r, exp):
            if b is not None and a != b:
                raise Violation("show-jobs-row", f"{what}: {sel}: {r}, want {exp}")
        if not same_tags(r[5], last[1][2] if last else []) or not same_tags(r[8], nxt[1] if nxt else []):
            raise Violation("show-jobs-tags", f"{what}: {r}")
    rc, out = world.run_cli([*args, "show-daemon"])
    got = {r[0]: int(r[1]) for r in table(out)}
    count = {}
    for j in s.daemon.jobs.values():
        count[j.status] = count.get(j.status, 0) + 1
    count["Dead"] = 2
    if rc or got != count:
        raise Violation("show-daemon", f"{what}: {rc} {got}, want {count}")


def logged(revs, what, s):
    """log"""
    rc, out = world.run_cli(["-c", str(s.root / "backy.conf"), "-C", str(s.base / "job"), "log"])
    if rc:
        raise Violation("log-fails", f"{what}: {rc}")
    rows = table(out)
    order = sorted(range(len(revs)), key=lambda i: -revs[i][0])
    if [r[1] for r in rows] != [hist.uuid_of(i) for i in order]:
        raise Violation("log-rows", f"{what}: {[r[1] for r in rows]}")
    for r, i in zip(rows, order):
        age, k = revs[i]
        clean, srv, tags, orig, dur = KINDS[k]
        exp = [local_time(hist.ts(NOW - age)), hist.uuid_of(i), humanize.naturalsize(10, binary=True),
               humanize.naturaldelta(dur) if dur else "-", None, "trusted", srv]
        for a, b in zip(r, exp):
            if b is not None and a != b:
                raise Violation("log-row", f"{what}: {r}, want {exp}")
        t = r[4].split(",") if r[4] else []
        if srv and set(tags) != set(orig):
            wt = [f"+{x}" for x in set(tags) - set(orig)] + [f"-{x}" for x in set(orig) - set(tags)] + list(set(tags) & set(orig))
        else:
            wt = tags
        if sorted(t) != sorted(wt):
            raise Violation("log-tags", f"{what}: {r}, want {wt}")
    if f"{len(revs)} revisions containing {humanize.naturalsize(10 * len(revs), binary=True)} data" not in out:
        raise Violation("log-sum", f"{what}: {out.splitlines()[-1]}")


def histories(j):
    ages, kinds0, tier = j
    out = {}
    n = 0
    rest = itertools.product(KINDS, repeat=max(0, len(ages) - 1)) if ages else [()]
    for kinds in rest:
        revs = list(zip(ages, ([kinds0] if ages else []) + list(kinds)))
        for k, (reports, state, nxt) in enumerate([
                (0, "", None), (1, "waiting for deadline", (100.0, ["weekly", "daily"])), (3, "running (fast)", None),
                (0, "monitoring (srv)", (-5.0, ["hourly"]))]):
            if len(ages) > 1 and k != n % 4:
                continue
            r = one(revs, reports, state, nxt)
            if len(ages) < 2 or n % (7 if tier == "quick" else 2) == 0:
                shown(*r)
            logged(revs, r[4], r[5])
            o = f"{len(revs)} revisions, {'overdue' if r[3] else 'in time'}"
            out[o] = out.get(o, 0) + 1
        n += 1
    return [(c, o) for o, c in out.items()]


# -- tags are shown literally

TEXTS = ["x", "[x]", "[/]", "[bold]", "a b", "ü€", "[link=x]y[/link]", "\\[x]", ":smile:", "x" * 60, "1", "'q'"]


def texts(j):
    tag, = j
    s = server()
    path = s.base / "job"
    hist.clear_revs(path)
    env.clock.t = NOW
    tag = "manual:" + tag
    hist.write_rev(path, hist.uuid_of(0), NOW - 100, [tag])
    hist.write_rev(path, hist.uuid_of(1), NOW - 90, [tag], server="srv", orig=[tag])
    hist.write_rev(path, hist.uuid_of(2), NOW - 80, [], server="srv", orig=[tag])
    hist.write_rev(path, hist.uuid_of(3), NOW - 70, [tag])
    conf = str(s.root / "backy.conf")
    rc, out = world.run_cli(["-c", conf, "-C", str(path), "log"])
    rows = table(out)
    if rc or [r[4] for r in rows] != [tag, tag, "-" + tag, tag] or [r[6] for r in rows] != ["", "srv", "srv", ""]:
        raise Violation("log-text", f"{tag}: {rc} {rows}")
    rc, out = world.run_cli(["-c", conf, "-a", "show-jobs"])
    row = [r for r in table(out) if r[0] == "job"]
    if rc or not row or row[0][5] != tag:
        raise Violation("show-jobs-text", f"{tag}: {rc} {row}")
    return 1, "text shown"


# -- announcements

SCHEDS = {
    "d": {"daily": {"interval": "1d", "keep": 3}},
    "hd": {"h": {"interval": "6h", "keep": 3}, "d": {"interval": "1d", "keep": 2}},
    "fast": {"h": {"interval": "4h", "keep": 3}},
}
EVENTS = ["run:a", "fail", "works", "sched:hd", "sched:d", "sched:fast", "restart", "forget", "distrust", "source"]
TIMES = [0.1 * DAY, 0.26 * DAY, 0.6 * DAY, 1.01 * DAY]


class Loop(c31.Loop):
    watch = None
    polls = None

    def call_at(self, when, callback, *args, **kw):
        # Tasks that do nothing but sleep for moments again and again sleep longer.
        d = round(when - self.time(), 6)
        task = asyncio.current_task(self) if self.is_running() else None
        if task and d < 5 and getattr(callback, "__name__", "") == "_set_result_unless_cancelled":
            if self.polls is None:
                self.polls = {}
            last = self.polls.get(task)
            n = last[1] + 1 if last and last[0] == d else 0
            self.polls[task] = d, n
            if n > 4:
                when = self.time() + 1800
        elif task and self.polls:
            self.polls.pop(task, None)
        return super().call_at(when, callback, *args, **kw)

    def _run_once(self):
        super()._run_once()
        if self.watch:
            self.watch()


class World(c31.World):
    def __init__(self, sched, limit):
        c31.SCENARIOS["announced"] = ([], 2.2 * DAY, False, {"limit": limit})
        super().__init__("announced")
        self.conf["schedules"] = {n: SCHEDS[n] for n in SCHEDS}
        for j in self.conf["jobs"].values():
            j["schedule"] = sched
        self.conf["global"].pop("backup-completed-callback")
        self.write()
        self.said = {}  # job -> (time of the announcement, next_time, next_tags, status)
        self.excuse = {}  # job -> time of an event that justifies a change
        self.count = {}

    def ask(self, path):
        coro = net.dispatch(self.dm.api_under_test.app, "GET", path, {"Authorization": "Bearer tok"})
        try:
            coro.send(None)
        except StopIteration as e:
            code, body = e.value
            if code != 200:
                raise Violation("status-fails", f"{self.what}: {path}: {code} {body}")
            return json.loads(body)
        raise core.Violation("harness", "the status waits")

    def watch(self):
        api = getattr(self.dm, "api_under_test", None)
        if not api or not getattr(api, "tokens", None):
            return
        now = env.clock.t
        for st in self.ask("/v1/status"):
            n = st["job"]
            mine = [p for p in self.procs if p.job == n and p.returncode is None]
            old = self.said.get(n)
            nt = st["next_time"] and (datetime.datetime.fromisoformat(st["next_time"]) - env.EPOCH).total_seconds()
            tags = frozenset(filter(None, (st["next_tags"] or "").split(",")))
            self.count[re.sub(r"\(.*", "", st["status"]).strip()] = 1
            if mine and (not st["status"].startswith("running") or nt is not None):
                # programs of stopped jobs end with them
                if not any(p.signals for p in mine) and self.excuse.get(n) != now:
                    raise Violation("running-not-shown", f"{self.what}: {mine[0].argv[-2:]} runs, status {st}")
            if nt is None and tags:
                raise Violation("tags-without-time", f"{self.what}: at {now - NOW}: {st}")
            if nt is not None and nt < now - 1 and st["status"] == "waiting for deadline":
                raise Violation("overdue-announcement", f"{self.what}: at {now - NOW} {st} is waiting for the past")
            if st["status"] == "waiting for deadline" and (nt is None or not tags):
                raise Violation("waiting-for-nothing", f"{self.what}: at {now - NOW}: {st}")
            if old and old[1] is not None and nt != old[1] and now < old[1] - 1 and self.excuse.get(n, -1) < old[0] and nt is not None:
                raise Violation("changed-mind", f"{self.what}: {n} announced {old[1] - NOW} at {old[0] - NOW} but {nt - NOW} at {now - NOW}")
            if old is None or (nt, tags, st["status"]) != old[1:]:
                self.said[n] = (now, nt, tags, st["status"])
            if nt is not None:
                self.promise[n] = (now, nt, tags)

    async def create(self, *argv, **kw):
        p = await super().create(*argv, **kw)
        if p.kind == "backup":
            now = env.clock.t
            r = hist.read_revs(self.base / p.job)[jobs.func_of(p.argv)[3][0]]
            said = self.promise.get(p.job)
            if self.excuse.get(p.job, -1) < (said[0] if said else -2):
                at, nt, tags = said
                if abs(nt - now) > 5:
                    raise_later(self, Violation("other-time", f"{self.what}: {p.job} announced {nt - NOW:.0f} (at {at - NOW:.0f}), "
                                                f"the backup starts at {now - NOW:.0f}"))
            if said and set(r["tags"]) != set(said[2]):
                raise_later(self, Violation("other-tags", f"{self.what}: {p.job} announced {sorted(said[2])}, the backup gets {r['tags']}"))
            self.backups += 1
            self.promise.pop(p.job, None)
        return p

    def event(self, e):
        now = env.clock.t
        for n in "ab":
            self.excuse[n] = now
        kind, _, arg = e.partition(":")
        if kind == "run":
            self.dm.jobs[arg].run_immediately.set()
        elif kind == "fail":
            self.faults["backup"] = 1
        elif kind == "works":
            self.faults.pop("backup", None)
        elif kind == "sched":
            self.conf["jobs"]["a"]["schedule"] = arg
            self.write()
            self.loop.deliver(c31.signal.SIGHUP)
        elif kind == "source":
            self.conf["jobs"]["a"]["source"]["filename"] += "x"
            self.write()
            self.loop.deliver(c31.signal.SIGHUP)
        elif kind == "forget":
            for u, r in hist.read_revs(self.base / "a").items():
                if "duration" in r["stats"]:
                    os.unlink(self.base / "a" / (u + ".rev"))
        elif kind == "distrust":
            for u, r in hist.read_revs(self.base / "a").items():
                r["trust"] = "distrusted"
                (self.base / "a" / (u + ".rev")).write_text(yaml.safe_dump(r))
        elif kind == "restart":
            for j in self.dm.jobs.values():
                j.stop()
                j.start()


def raise_later(w, v):
    w.found = w.found or v


def announced(j):
    sched, limit, seqs = j
    out = {}
    for seq in seqs:
        env.clock.t = NOW
        env.uuids.n = 0
        w = World(sched, limit)
        w.what = f"{sched}, limit {limit}, {seq}"
        w.promise, w.found, w.backups = {}, None, 0
        loop = Loop()
        asyncio.set_event_loop(loop)
        loop.errors = []
        loop.set_exception_handler(lambda l, c: l.errors.append(c))
        try:
            w.start_daemon(loop)
            loop.watch = w.watch
            for t, e in seq:
                loop.call_at(NOW + t, w.event, e)
            loop.horizon = NOW + w.length
            try:
                loop.run_forever()
            except net.Horizon:
                pass
            else:
                raise Violation("ended", f"{w.what}: the daemon ended")
            loop.watch = None
            if w.found:
                raise w.found
            for n, (at, nt, tags) in w.promise.items():
                if nt < env.clock.t - 60:
                    raise Violation("not-kept", f"{w.what}: {n} announced {nt - NOW:.0f} (at {at - NOW:.0f}), "
                                    f"no backup until {env.clock.t - NOW:.0f}")
            o = f"{sched}: {w.backups} backups, {len(w.count)} states"
            out[o] = out.get(o, 0) + 1
        finally:
            loop.watch = None
            net.close_loop(loop)
            w.close()
            env.rmtree(w.d)
    return [(c, o) for o, c in out.items()]


def sequences(tier):
    quick = tier == "quick"
    ev = [(t, e) for t in (TIMES[:3] if quick else TIMES) for e in EVENTS
          if not quick or e not in ("sched:fast", "distrust", "works")]
    yield ()
    for a in ev:
        yield (a,)
    for a, b in itertools.combinations(ev, 2):
        if a[0] == b[0] and tier == "quick":
            continue
        if a[0] == b[0] and a[1].startswith("sched") and b[1].startswith("sched"):
            continue
        yield (a, b)
    if tier == "thorough":
        few = ["fail", "works", "run:a", "sched:hd", "restart"]
        for t in itertools.combinations(TIMES, 3):
            for e in itertools.product(few, repeat=3):
                yield tuple(zip(t, e))


def setup_announced():
    c31.setup()


def run(rep, tier):
    setup()
    ages = [10.0, H - 5, 1.5 * H - 5, 1.5 * H + 5, 30 * H, 9 * DAY]
    js = [((), "", tier)]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for a in itertools.combinations(ages, n):
            for k in KINDS:
                js.append((a, k, tier))
    core.cases(rep, "histories", histories, js)
    core.cases(rep, "texts", texts, [(t,) for t in TEXTS])
    setup_announced()
    js = []
    seqs = list(sequences(tier))
    for sched in ("d", "hd"):
        for limit in (1, 2):
            mine = seqs if limit == 2 or tier == "thorough" else seqs[:22]
            for i in range(0, len(mine), 5):
                js.append((sched, limit, mine[i:i + 5]))
    core.cases(rep, "announced", announced, js)
    rep.add(traces_validated_against_impl=rep.cov["transitions"])
    rep.assumptions += ["programs are stand-ins; requests enter at aiohttp's application (no sockets)"]


def replay(r):
    try:
        if r["space"] == "announced":
            setup_announced()
            a, b, c = r["case"]
            print(announced((a, b, [tuple(map(tuple, s)) for s in c])))
        else:
            setup()
            print({"histories": histories, "texts": texts}[r["space"]](tuple(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
