"""C20: every revision expression up to a size, on several histories, against
an evaluator of the documented meaning that works on syntax trees (it never
parses the text)."""
import datetime
import itertools
import os

from .. import core, env, hist, world
from ..core import Violation

DAY = 86400.0
# tags, trust, server, complete; oldest first, one every second day
HISTORIES = {
    "empty": [],
    "one": [("a", "trusted", "", True)],
    "three": [("ab", "verified", "", True), ("b", "trusted", "s1", True), ("a", "trusted", "", False)],
    "four": [("a", "distrusted", "", True), ("", "trusted", "s1", False), ("ab", "verified", "s2", True),
             ("b", "distrusted", "", True)],
    "local": [("ab", "verified", "", True), ("b", "trusted", "", True), ("a", "trusted", "", False),
              ("a", "distrusted", "", True)],
}
TZS = {"UTC": 0, "Etc/GMT-3": 3}


class Err(Exception):
    pass


class Ctx:
    def __init__(self, name, tz):
        self.revs = HISTORIES[name]
        self.n = len(self.revs)
        self.off = TZS[tz] * 3600.0

    def ts(self, i):
        return 2 * DAY * i + 0.5


# -- syntax trees: (kind, ...)


def ev(t, c):
    """-> list of indexes"""
    k = t[0]
    n = c.n
    if k == "num":
        if t[1] >= n:
            raise Err
        return [n - 1 - t[1]]
    if k == "kw":
        if not n:
            raise Err
        return [0 if t[1] == "first" else n - 1]
    if k == "id":
        if not 0 <= t[1] < n:
            raise Err
        return [t[1]]
    if k == "set":
        f = {
            "all": lambda r: True, "clean": lambda r: r[3], "local": lambda r: not r[2], "remote": lambda r: bool(r[2]),
            "tag:a": lambda r: "a" in r[0], "tag:none": lambda r: False, "trust:verified": lambda r: r[1] == "verified",
            "trust:distrusted": lambda r: r[1] == "distrusted", "server:": lambda r: r[2] == "",
            "server:s1": lambda r: r[2] == "s1", "server:s": lambda r: False, "tag:": lambda r: False,
        }[t[1]]
        return [i for i, r in enumerate(c.revs) if f(r)]
    if k == "fn":
        x = ev(t[2], c)
        if t[1] in ("first", "last"):
            if not x:
                raise Err
            return [x[0 if t[1] == "first" else -1]]
        if t[1] == "not":
            return [i for i in range(n) if i not in x]
        if t[1] == "reverse":
            return x[::-1]
        return x
    if k == "range":
        b = []
        for s, default in ((t[1], 0), (t[2], n - 1)):
            if s is None:
                if not n:
                    raise Err
                b.append(c.ts(default))
            elif s[0] == "date":
                b.append(s[2] if s[3] else s[2] - c.off)
            else:
                b.append(c.ts(ev(s, c)[0]))
        return [i for i in range(n) if min(b) <= c.ts(i) <= max(b)]
    if k == "and":
        xs = [ev(x, c) for x in t[1]]
        return uniq(i for i in xs[0] if all(i in y for y in xs[1:]))
    if k == "or":
        return uniq(i for x in t[1] for i in ev(x, c))
    raise AssertionError(t)


def uniq(it):
    out = []
    for i in it:
        if i not in out:
            out.append(i)
    return out


def text(t, sp=""):
    k = t[0]
    if k == "num":
        return str(t[1])
    if k in ("kw", "set"):
        return t[1]
    if k == "id":
        return hist.uuid_of(t[1]) if t[1] >= 0 else "nosuchrevision"
    if k == "fn":
        return f"{t[1]}{sp}({sp}{text(t[2], sp)}{sp})"
    if k == "date":
        return t[1]
    if k == "range":
        return f"{text(t[1], sp) if t[1] else ''}{sp}..{sp}{text(t[2], sp) if t[2] else ''}"
    op = {"and": "&", "or": ","}[k]
    return f"{sp}{op}{sp}".join(text(x, sp) for x in t[1])


def date(sec, explicit, form="T"):
    d = env.EPOCH + datetime.timedelta(seconds=sec)
    s = d.strftime("%Y-%m-%d") if form == "d" else d.replace(tzinfo=None).isoformat()
    return ("date", s + ("+00:00" if explicit else ""), sec, explicit)


NUM = [("num", 0), ("num", 1), ("num", 3), ("num", 7)]
KW = [("kw", "first"), ("kw", "last"), ("kw", "latest")]
ID = [("id", 0), ("id", 1), ("id", -1)]
SINGLE = NUM + KW + ID
SETS = [("set", s) for s in ("all", "clean", "local", "remote", "tag:a", "tag:none", "trust:verified", "trust:distrusted",
                             "server:", "server:s1", "server:s", "tag:")]
DATES = [date(-DAY, False, "d"), date(0, False, "d"), date(0.5, True), date(DAY, True), date(2 * DAY + 0.5, True),
         date(2 * DAY + 0.5, False), date(3 * DAY, False, "d"), date(4 * DAY - 3 * 3600 + 0.5, False), date(6 * DAY + 0.5, True), date(20 * DAY, True)]
FN = ["first", "last", "not", "reverse", ""]
ATOMS = SINGLE + SETS


def spaces(tier):
    L1 = [("fn", f, a) for f in FN for a in ATOMS]
    R = [("range", a, b) for a in [None, *SINGLE, *DATES] for b in [None, *SINGLE, *DATES]]
    fl = [("fn", f, a) for f in ("first", "last") for a in SETS]
    RF = [("range", a, b) for a in fl for b in [None, *SINGLE[:3], *DATES[1:4]] + fl[:6]]
    RF += [("range", b, a) for a in fl for b in [None, *SINGLE[:3], *DATES[1:4]]]
    small = [("num", 0), ("kw", "first"), ("id", 1), ("id", -1), *SETS[:6], ("range", ("num", 1), None), ("range", None, ("num", 1))]
    B = [(op, (a, b)) for op in ("and", "or") for a in ATOMS for b in ATOMS]
    FB = [("fn", f, x) for f in FN for x in B]
    BB = [(op, (a, b)) for op in ("and", "or") for a in L1 for b in small]
    BB += [(op, (b, a)) for op in ("and", "or") for a in L1 for b in small]
    BR = [(op, (a, b)) for op in ("and", "or") for a in R for b in small[:6]]
    T3 = []
    for a, b, c in itertools.product(small, repeat=3):
        T3 += [("or", (a, b, c)), ("and", (a, b, c)), ("or", (("and", (a, b)), c)), ("or", (a, ("and", (b, c))))]
        T3.append(("and", (a, ("fn", "", ("or", (b, c))))))
        T3.append(("and", (("fn", "not", ("or", (a, b))), c)))
    FF = [("fn", f, ("fn", g, a)) for f in FN for g in FN for a in ATOMS]
    FF += [("fn", f, r) for f in FN for r in R]
    out = [ATOMS, L1, R, RF, B, FF, FB, BB, BR, T3]
    if tier == "thorough":
        RB = [(op, (a, b)) for op in ("and", "or") for a in R for b in L1]
        FFF = [("fn", f, x) for f in FN for x in FF]
        FB2 = [("fn", f, x) for f in FN for x in BB]
        FT = [("fn", f, x) for f in FN for x in T3]
        N = [(op, (a, b)) for op in ("and", "or") for a in FB[::3] for b in small]
        out += [RB, FFF, FB2, FT, N]
    return out


def write_history(path, name):
    hist.clear_revs(path)
    for i, (tags, trust, server, clean) in enumerate(HISTORIES[name]):
        hist.write_rev(path, hist.uuid_of(i), 2 * DAY * i + 0.5, tuple(tags), trust=trust, server=server, clean=clean,
                       orig=tuple(tags) if server else ())


_box = {}


def box():
    if os.getpid() not in _box:
        _box[os.getpid()] = world.Box(typ="file")
    return _box[os.getpid()]


def set_tz(tz):
    import time

    import tzlocal

    os.environ["TZ"] = tz
    time.tzset()
    tzlocal.reload_localzone()


def want_of(t, c):
    try:
        return [hist.uuid_of(i) for i in ev(t, c)]
    except Err:
        return None


def api_job(j):
    name, tz, tier, group, part, parts = j
    set_tz(tz)
    b = box()
    write_history(b.repo, name)
    repo = b.repository()
    c = Ctx(name, tz)
    out = {}
    for t in spaces(tier)[group][part::parts]:
        want = want_of(t, c)
        s = text(t)
        try:
            got = [r.uuid for r in repo.find_revisions(s)]
        except Exception:
            got = None
        if got != want:
            raise Violation("selection", f"history {name} ({tz}): {s!r} selects {got}, documented meaning {want}")
        o = "error" if want is None else len(want)
        out[o] = out.get(o, 0) + 1
    return [(n, f"select/{o}") for o, n in out.items()]


def cli_job(j):
    """The same through the commands, including what they do."""
    name, tz, kind, part, parts = j
    set_tz(tz)
    b = box()
    write_history(b.repo, name)
    b.activate()
    c = Ctx(name, tz)
    sp = spaces("quick")
    exprs = {"rev-parse": sp[0] + sp[1] + sp[2][::7] + sp[4][::11], "rm": sp[0] + sp[1] + sp[4][::13],
             "distrust": sp[0] + sp[1] + sp[4][::13], "tags": sp[0] + sp[1] + sp[4][::13], "verify": sp[0] + sp[1],
             "restore": SINGLE + [x for x in sp[1] if x[1] in ("first", "last")]}[kind]
    out = {}
    calls = []
    b.world.programs["backy-file"] = lambda argv: calls.append(argv) or 0
    for t in exprs[part::parts]:
        if kind in ("rm", "distrust", "tags"):
            write_history(b.repo, name)
        before = hist.read_revs(b.repo)
        want = want_of(t, c)
        for sp_ in ("", " ") if kind == "rev-parse" else ("",):
            s = text(t, sp_)
            del calls[:]
            what = f"history {name} ({tz}): {kind} -r {s!r}"
            args = {"rev-parse": ["--uuid", "-r", s], "rm": ["-r", s], "distrust": ["-r", s],
                    "tags": ["add", "-r", s, "manual:zz"], "verify": ["-r", s],
                    "restore": ["-r", s, "file", "/nonexistent/target"]}[kind]
            rc, stdout = b.cli(kind, *args)
            after = hist.read_revs(b.repo)
            if (rc == 0) != (want is not None):
                raise Violation("status", f"{what}: exit status {rc}, selected by documentation: {want}")
            sel = want or []
            if kind == "rev-parse" and rc == 0 and stdout.split() != sel:
                raise Violation("rev-parse", f"{what}: {stdout.split()} instead of {sel}")
            if kind in ("rev-parse", "verify", "restore") and before != after:
                raise Violation("changed", what)
            if kind in ("verify", "restore") and [a for x in calls for a in x if a in before] != sel:
                raise Violation("helper", f"{what}: ran {calls}, want {sel}")
            if kind == "rm" and set(before) - set(after) != set(sel):
                raise Violation("rm", f"{what}: removed {set(before) - set(after)}, want {sel}")
            if kind == "distrust":
                ch = {u for u in before if after[u]["trust"] == "distrusted"} - {u for u in before if before[u]["trust"] == "distrusted"}
                if ch != {u for u in sel if before[u]["trust"] != "distrusted"}:
                    raise Violation("distrust", f"{what}: changed {ch}, want {sel}")
            if kind == "tags" and {u for u in after if "manual:zz" in after[u]["tags"]} != set(sel):
                raise Violation("tags", f"{what}: want {sel}")
            o = f"{kind}/{rc}"
            out[o] = out.get(o, 0) + 1
    return [(n, o) for o, n in out.items()]


def run(rep, tier):
    env.boot()
    jobs = []
    for g in range(len(spaces(tier))):
        n = len(spaces(tier)[g])
        parts = max(1, n // 4000)
        for h in HISTORIES:
            for tz in TZS:
                if tz != "UTC" and g not in (2, 3, 8):
                    continue
                jobs += [(h, tz, tier, g, p, parts) for p in range(parts)]
    core.cases(rep, "expressions", api_job, jobs)
    hs = ["empty", "local"] if tier == "quick" else ["empty", "one", "local"]
    jobs = [(h, "UTC", k, p, 4) for h in hs for k in ("rev-parse", "rm", "distrust", "tags", "verify", "restore") for p in range(4)]
    jobs += [(h, "Etc/GMT-3", "rev-parse", p, 4) for h in ("three", "four") for p in range(4)]
    core.cases(rep, "commands", cli_job, jobs)
    rep.add(states=sum(len(x) for x in spaces(tier)) * len(HISTORIES))
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.cov["bounds"] = {"expressions": sum(len(x) for x in spaces(tier)), "histories": len(HISTORIES)}


def replay(r):
    env.boot()
    try:
        (api_job if r["space"] == "expressions" else cli_job)(tuple(r["case"]))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
