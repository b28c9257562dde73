"""C30: inspections, dry runs and selections: every command of the grammar on
every prepared repository, compared by the complete state of the file system,
the source and the requests sent to the daemon."""
import itertools
import json
import os
import re

import yaml

from .. import core, env, hist, net, scen, world
from ..core import Violation

BASES = ["R0", "Rbase", "Rgarbage", "Rleftover", "Rmix", "Rdistrusted", "Rcorrupt", "Rmeta", "F0", "Fbase", "Fmix", "Fmeta"]
SPECS = ["all", "local", "remote", "first", "last", "0", "1", "tag:daily", "not(tag:daily)", "trust:distrusted", "clean",
         "reverse(all)", "@0", "nosuch"]
TAGS = [("set", "weekly"), ("set", "manual:x"), ("add", "weekly,manual:x"), ("remove", "daily"), ("remove", "--autoremove", "daily"),
        ("set", "-f", "unknown"), ("set", "--expect", "daily", "weekly"), ("set", "unknown")]
DEAD = ("broken",)


def tree(root):
    """Everything observable about the files below root."""
    out = {}

    def walk(d):
        s = os.stat(d)
        out[d] = (s.st_mode, s.st_mtime_ns)
        for e in os.scandir(d):
            if e.is_dir(follow_symlinks=False):
                walk(e.path)
                continue
            s = e.stat(follow_symlinks=False)
            if e.is_symlink():
                out[e.path] = ("link", os.readlink(e.path), s.st_mtime_ns)
            else:
                with open(e.path, "rb") as f:
                    out[e.path] = (f.read(), s.st_mode, s.st_mtime_ns, s.st_ino)

    walk(str(root))
    return out


def changes(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


class Api:
    """A daemon that records what it is asked for."""

    def __init__(self, names=("job",), base=None):
        self.names, self.base = names, base
        self.requests = []
        net.network.servers = {"daemon": self}
        net.network.hook = None

    async def __call__(self, method, path, headers, body):
        self.requests.append((method, path))
        if path.startswith("/v1/status"):
            return 200, json.dumps([{
                "job": n, "sla": "OK", "sla_overdue": 0, "status": "waiting", "last_time": None, "last_tags": "",
                "last_duration": None, "next_time": None, "next_tags": "", "manual_tags": "", "quarantine_reports": 0,
                "problem_reports": 0, "unsynced_revs": 0, "local_revs": 0} for n in self.names]).encode()
        if path == "/v1/jobs":
            return 200, json.dumps([{"name": n, "path": str(self.base / n), "schedule": scen.SCHEDULE, "status": ""}
                                    for n in self.names]).encode()
        if path == "/v1/backups":
            return 200, json.dumps(["dead"]).encode()
        if path.endswith("/run"):
            return 202, b""
        return 204, b""

    @property
    def modifying(self):
        return [r for r in self.requests if r[0] not in ("GET", "HEAD")]


def conf(box):
    p = box.root / "daemon.conf"
    if not p.exists():
        p.write_text(yaml.safe_dump({"global": {"base-dir": str(box.base)}, "schedules": {}, "jobs": {},
                                     "api": {"cli-default": {"url": "http://daemon:1", "token": "t"}}}))
    return str(p)


def cli(box, *args):
    rc, out = world.run_cli(["-C", str(box.repo), "-c", conf(box), *args])
    return rc & 0xFF, out


def inspections(p):
    out = [["log"], ["log", "--json"], ["rev-parse"], ["rev-parse", "--uuid"], ["check"], ["reports-list"], ["reports-show"],
           ["show-jobs"], ["show-daemon"], []]
    out += [[c, "-r", s] for c in ("log", "rev-parse") for s in SPECS]
    return out


def modifications(p):
    typ = p.box.typ
    out = [["backup", "daily"], ["backup", "-f", "unknown"], ["backup", "unknown"], ["backup", "--bg", "daily"], ["gc"],
           ["gc", "--expire", "--local"], ["gc", "--expire"], ["reports-delete", "--all-reports"], ["reports-delete", hist.uuid_of(5, "p")],
           ["reload-daemon"], ["restore", typ, str(p.box.root / "restored")], ["init", typ], ["verify"], ["distrust"]]
    out += [[c, "-r", s] for c in ("rm", "distrust", "verify") for s in SPECS]
    out += [["tags", t[0], "-r", s, *t[1:]] for t in TAGS for s in SPECS]
    out += [["restore", "-r", s, typ, str(p.box.root / "restored")] for s in SPECS]
    if typ == "rbd":
        out += [["restore", "rbd", "--backend", b, str(p.box.root / "restored")] for b in ("python", "rust")]
    return out


def started(base):
    p = scen.prepared(base)
    b = p.box
    (b.root / "restored").unlink(missing_ok=True)
    cli(b, "log")
    r = b.repo / "quarantine"
    (r / f"{hist.uuid_of(5, 'p')}.report").write_text("uuid: x\n")
    for lock in (".backup", ".purge"):
        (b.repo / lock).touch()
    conf(b)
    env.clock.t += 40 * 86400.0
    return p


def arg(p, a):
    """@0: the first revision there is."""
    return sorted(p.before)[0] if a == "@0" and p.before else a


def quiet_case(j):
    base, extra = j
    p = started(base)
    b = p.box
    n = 0
    out = {}
    todo = [(False, a) for a in inspections(p)] + [(True, a) for a in modifications(p)]
    if extra:  # with the job filter
        todo = [(d, a) for d, a in todo if a and a[0] not in ("restore", "verify", "reload-daemon", "show-daemon", "init", "gc")]
    before = tree(b.root)
    for dry, args in todo:
        args = [arg(p, a) for a in args]
        api = Api(base=b.base)
        calls = len(b.world.log)
        what = f"{base}: backy {' '.join((['-n'] if dry else []) + extra + args)}"
        rc, _ = cli(b, *(["-n"] if dry else []), *extra, *args)
        after = tree(b.root)
        ch = changes(before, after)
        if ch:
            raise Violation("changed", f"{what} (exit status {rc}) changed {[os.path.relpath(c, b.root) for c in ch]}")
        if api.modifying:
            raise Violation("requested", f"{what} (exit status {rc}) asked the daemon for {api.modifying}")
        if b.ceph.mappings():
            raise Violation("mapped", f"{what}: {b.ceph.mappings()}")
        bad = [c for c in b.world.log[calls:] if c[0].endswith("rbd") and c[1:2] != ("--version",) and c[1:3] != ("snap", "ls") and
               c[1] not in ("info", "showmapped")]
        if bad:
            raise Violation("source-touched", f"{what}: {bad}")
        n += 1
        o = f"{'dry' if dry else 'show'}/{args[0] if args else ''}/{rc}"
        out[o] = out.get(o, 0) + 1
    return [(c, o) for o, c in out.items()]


def real_case(j):
    """The same commands do have effects when they are meant to."""
    base, args = j
    p = started(base)
    b = p.box
    api = Api(base=b.base)
    before = tree(b.root)
    args = [arg(p, a) for a in args]
    rc, _ = cli(b, *args)
    ch = changes(before, tree(b.root))
    if rc == 0 and not ch and not api.modifying:
        raise Violation("no-effect", f"{base}: backy {' '.join(args)}")
    return 1, f"real/{args[0]}/{rc}"


# ------------------------------------------------ selections


def chosen(b, spec):
    """Independent reference for simple expressions: uuids or None if invalid."""
    revs = sorted(b.revs().values(), key=lambda d: d["timestamp"])
    ids = [d["uuid"] for d in revs]

    def pick(f):
        return [d["uuid"] for d in revs if f(d)]

    if spec in ("all", "reverse(all)"):
        return ids
    if spec in ("first", "last", "0", "1"):
        i = {"first": 0, "last": -1, "0": -1, "1": -2}[spec]
        return [ids[i]] if len(ids) >= (2 if spec == "1" else 1) else None
    if spec in ids:
        return [spec]
    f = {"local": lambda d: not d["server"], "remote": lambda d: bool(d["server"]), "tag:daily": lambda d: "daily" in d["tags"],
         "not(tag:daily)": lambda d: "daily" not in d["tags"], "trust:distrusted": lambda d: d["trust"] == "distrusted",
         "clean": lambda d: "duration" in d["stats"]}.get(spec)
    return pick(f) if f else None


def rev_bytes(repo):
    return {q.name.removesuffix(".rev"): (q.read_bytes(), q.stat().st_mtime_ns, q.stat().st_ino) for q in repo.glob("*.rev")
            if not q.is_symlink()}


KINDS = {"c": dict(), "i": dict(clean=False), "d": dict(trust="distrusted"), "v": dict(trust="verified"), "r": dict(server="peer"),
         "u": dict(server="peer", orig=("weekly",))}


def listed(kinds):
    """A repository with just these revisions."""
    if os.getpid() not in _boxes:
        _boxes[os.getpid()] = world.Box("file", schedule=scen.SCHEDULE)
    p = scen.Prep()
    b = p.box = _boxes[os.getpid()]
    b.activate()
    b.cli("log")
    for e in list(os.scandir(b.repo)):
        if e.is_file(follow_symlinks=False) and len(e.name) in (22, 26) or e.is_symlink():
            os.unlink(e.path)
    for i, (k, tags) in enumerate(kinds):
        hist.write_rev(b.repo, hist.uuid_of(i), i * 86400.0, [t for t in tags.split(",") if t], **KINDS[k])
        if k in "cdvi":
            (b.repo / hist.uuid_of(i)).write_text(f"data {i}")
    p.before = b.revs()
    for lock in (".backup", ".purge"):
        (b.repo / lock).touch()
    conf(b)
    env.clock.t = 10 * 86400.0
    return p


def selection_case(j):
    if not isinstance(j[0], str):
        out = {}
        for base in j[0]:
            for args in j[1]:
                o = selection_one(base, args)[1]
                out[o] = out.get(o, 0) + 1
        return [(n, o) for o, n in out.items()]
    base, args = j
    return selection_one(base, args)


def selection_one(base, args):
    p = started(base) if isinstance(base, str) else listed(base)
    b = p.box
    Api(base=b.base)
    args = [arg(p, a) for a in args]
    spec = args[args.index("-r") + 1]
    sel = chosen(b, spec)
    before = rev_bytes(b.repo)
    rest = {k: v for k, v in tree(b.root).items() if not k.startswith(str(b.repo))}
    rc, _ = cli(b, *args)
    after = rev_bytes(b.repo)
    what = f"{base}: backy {' '.join(args)} (exit status {rc})"
    for u in before:
        if u not in (sel or ()) and after.get(u) != before[u]:
            raise Violation("not-selected", f"{what} changed {u}")
    if set(after) - set(before):
        raise Violation("invented", what)
    ch = [c for c in changes(rest, {k: v for k, v in tree(b.root).items() if not k.startswith(str(b.repo))})]
    if ch:
        raise Violation("elsewhere", f"{what} changed {ch}")
    if sel is None and rc == 0:
        raise Violation("unknown-selection", what)
    # revisions of peers are only marked for removal
    if rc == 0 and args[0] == "rm" and any(not b.revs()[u]["server"] or b.revs()[u]["tags"] for u in set(after) & set(sel)):
        raise Violation("not-removed", what)
    if rc == 0 and args[0] == "distrust" and any(b.revs()[u]["trust"] != "distrusted" for u in sel):
        raise Violation("not-distrusted", what)
    return 1, f"sel/{args[0]}/{rc}"


# ------------------------------------------------ job filters

NAMES = ("a", "ab", "b.c", "bxc")
FILTERS = ["a", "^a$", "^a", "b", "b.c", r"b\.c", "c$", ".", "x", "nosuch", "a|x", "", "A"]
ON = [["tags", "set", "-r", "all", "manual:x"], ["rm", "-r", "first"], ["distrust", "-r", "all"], ["reports-delete", "--all-reports"],
      ["backup", "daily"], ["backup", "--bg", "daily"]]
_boxes = {}


def jobs_case(j):
    flt, args, dry = j
    if os.getpid() not in _boxes:
        _boxes[os.getpid()] = world.Box("file", schedule=scen.SCHEDULE)
    b = _boxes[os.getpid()]
    b.activate()
    paths = {}
    for n in NAMES:
        q = paths[n] = b.base / n
        (q / "quarantine").mkdir(parents=True, exist_ok=True)
        for e in list(os.scandir(q / "quarantine")):
            os.unlink(e.path)
        hist.clear_revs(q)
        for i in range(2):
            hist.write_rev(q, hist.uuid_of(i), i * 86400.0, ("daily",))
        (q / "quarantine" / f"{hist.uuid_of(5, 'p')}.report").write_text("uuid: x\n")
        for lock in (".backup", ".purge"):
            (q / lock).touch()
    env.clock.t = 2 * 86400.0
    api = Api(NAMES, b.base)
    cli(b, "log")
    before = {n: tree(q) for n, q in paths.items()}
    own = tree(b.repo)
    api.requests.clear()
    how = ["-a"] if flt is None else ["--jobs", flt]
    rc, txt = cli(b, *(["-n"] if dry else []), *how, *args)
    want = [n for n in NAMES if flt is None or re.search(flt, n)]
    ch = [n for n, q in paths.items() if changes(before[n], tree(q))]
    asked = sorted(re.fullmatch(r"/v1/jobs/(.*)/run", x[1])[1] for x in api.modifying)
    what = f"backy {'-n ' if dry else ''}{' '.join(how)} {' '.join(args)} (exit status {rc})"
    if changes(own, tree(b.repo)):
        raise Violation("elsewhere", f"{what} changed the repository of the working directory")
    if dry:
        want_ch, want_asked = [], []
    elif args[0] == "backup":
        want_ch, want_asked = [], want
    else:
        want_ch, want_asked = want, []
    if args[0] == "backup" and len(want) == 1 and "--bg" not in args:
        # a single other repository cannot be backed up in the foreground
        want_asked = asked if set(asked) <= set(want) else want
        want = want if rc == 0 else []
    if ch != want_ch:
        raise Violation("filter", f"{what} changed {ch}, want {want_ch}")
    if asked != sorted(want_asked):
        raise Violation("filter", f"{what} triggered {asked}, want {want_asked}")
    if (rc == 0) != bool(want):
        raise Violation("filter-status", f"{what}, selected {want}")
    return 1, f"jobs/{args[0]}/{len(want)}/{rc}"


def boot():
    scen.setup()
    world.quiet_sync()
    net.install()


def run(rep, tier):
    boot()
    core.cases(rep, "quiet", quiet_case, [(base, extra) for base in BASES for extra in ([], ["-a"], ["--jobs", "job"])])
    effects = [("Rbase", ["rm", "-r", "first"]), ("Rbase", ["distrust"]), ("Rbase", ["tags", "set", "-r", "all", "manual:x"]),
               ("Rbase", ["backup", "daily"]), ("Rbase", ["backup", "--bg", "daily"]), ("Rgarbage", ["gc"]), ("Rdistrusted", ["verify"]),
               ("Rbase", ["reports-delete", "--all-reports"]), ("Rbase", ["reload-daemon"])]
    core.cases(rep, "effects", real_case, effects)
    sel = [(base, [*c[:1], *t[:1], "-r", s, *t[1:]]) for base in BASES for c, t in
           [(["rm"], ()), (["distrust"], ())] + [(["tags"], t) for t in TAGS] for s in SPECS]
    core.cases(rep, "selections", selection_case, sel)
    one = [(k, t) for k in KINDS for t in ("", "daily", "daily,manual:a")]
    few = [("c", "daily"), ("c", "manual:a"), ("d", "daily"), ("u", "daily"), ("r", "")] + ([("i", "daily"), ("v", "weekly")] if tier == "thorough" else [])
    lists = [()] + [(x,) for x in one] + list(itertools.product(one if tier == "thorough" else one[::2], few))
    lists += list(itertools.product(few, repeat=3))
    cmds = [a for base, a in sel if base == "F0"]
    core.cases(rep, "lists", selection_case, [(lists[i:i + 8], cmds[k::4]) for i in range(0, len(lists), 8) for k in range(4)])
    core.cases(rep, "filters", jobs_case, list(itertools.product([None] + FILTERS, ON, (False, True))))
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]


def replay(r):
    boot()

    def lst(x):
        return x

    try:
        print({"quiet": quiet_case, "effects": real_case, "selections": selection_case, "lists": selection_case, "filters": jobs_case}[r["space"]](r["case"]))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
