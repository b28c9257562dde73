"""C22: exit status of every command for every helper outcome, lock state and
API answer, judged by the effects that were actually achieved."""
import fcntl
import itertools
import json
import os

import yaml

from .. import core, env, hist, net, world
from ..core import Violation

CODES = [0, 1, 2, 3, 42, 127, 128, 255, -1, -2, -6, -9, -11, -15]
FEW = [0, 1, 255, -9]
SCHED = {"daily": {"interval": "1d", "keep": 1}}
U = [hist.uuid_of(i) for i in range(4)]
_env = {}


def box(typ="file"):
    k = os.getpid(), typ
    if k not in _env:
        _env[k] = world.Box(typ=typ, schedule=SCHED)
    b = _env[k]
    b.activate()
    return b


def fill(path, n, tags=("daily",)):
    hist.clear_revs(path)
    for i in range(n):
        hist.write_rev(path, U[i], i * 86400.0, tags)
    env.clock.t = 86400.0 * n


def status(rc):
    return rc & 0xFF


def complete_rev(b, uuid):
    p = b.repo / f"{uuid}.rev"
    d = yaml.safe_load(p.read_text())
    d["stats"]["duration"] = 1.0
    p.write_text(yaml.safe_dump(d))


def helper_job(j):
    kind, typ, arg = j
    b = box(typ)
    out = {}

    def check(what, rc, ok, extra=""):
        if (status(rc) == 0) != ok:
            raise Violation("status", f"{what}: exit status {status(rc)} although {'everything worked' if ok else 'it failed'} {extra}")
        o = f"{kind}/{'ok' if ok else 'failed'}"
        out[o] = out.get(o, 0) + 1

    prog = f"backy-{typ}"
    if kind == "backup":
        for n, code, completes in itertools.product((0, 2), CODES, (True, False)):
            if code == 0 and not completes:
                continue
            fill(b.repo, n)

            def run(argv):
                if completes:
                    complete_rev(b, argv[-1])
                return code

            b.world.programs[prog] = run
            rc, _ = b.cli("backup", "manual:x")
            what = f"backup with {n} revisions, helper ends with {code} ({'after' if completes else 'before'} completion)"
            revs = b.revs()
            bad = [u for u, d in revs.items() if "duration" not in d["stats"]]
            if bad:
                raise Violation("unfinished", f"{what}: left {bad}")
            if set(U[:n]) - set(revs):
                raise Violation("lost", what)
            if len(revs) != n + completes:
                raise Violation("revisions", f"{what}: {list(revs)}")
            check(what, rc, code == 0)
        # the helper cannot even be started
        fill(b.repo, 1)

        def missing(argv):
            raise FileNotFoundError(2, "No such file or directory", prog)

        b.world.programs[prog] = missing
        rc, _ = b.cli("backup", "manual:x")
        check("backup without helper program", rc, False)
        if len(b.revs()) != 1:
            raise Violation("unfinished", "helper program missing")
        # refused tags
        rc, _ = b.cli("backup", "unknown")
        check("backup with unknown tag", rc, False)
    elif kind == "verify":
        for codes in itertools.product(FEW if arg > 1 else CODES, repeat=arg):
            fill(b.repo, arg)
            m = dict(zip(U, codes))
            b.world.programs[prog] = lambda argv: m[argv[-1]]
            for spec in ("all", "reverse(all)"):
                rc, _ = b.cli("verify", "-r", spec)
                check(f"verify -r {spec}, helper ends with {codes}", rc, not any(codes))
        fill(b.repo, arg)
        rc, _ = b.cli("verify", "-r", "nosuch")
        check("verify of an unknown revision", rc, False)
    elif kind in ("gc", "gc-expire"):
        for code in CODES:
            fill(b.repo, 2)
            env.clock.t += 40 * 86400.0
            b.world.programs[prog] = lambda argv: code
            rc, _ = b.cli("gc", *(["--expire", "--local"] if kind == "gc-expire" else []))
            if kind == "gc-expire" and len(b.revs()) != 1:
                raise Violation("expire", str(list(b.revs())))
            check(f"{kind}, helper ends with {code}", rc, code == 0)
    elif kind == "restore":
        for code in CODES:
            fill(b.repo, 2)
            b.world.programs[prog] = lambda argv: code
            for spec in ("0", "nosuch", U[0]):
                rc, _ = b.cli("restore", "-r", spec, typ, "/nonexistent/x")
                check(f"restore -r {spec}, helper ends with {code}", rc, code == 0 and spec != "nosuch")
    b.world.programs.clear()
    return [(n, o) for o, n in out.items()]


class Held:
    def __init__(self, path, name, mode):
        p = path / name
        p.touch()
        self.f = open(p)
        fcntl.flock(self.f, {"ex": fcntl.LOCK_EX, "sh": fcntl.LOCK_SH}[mode] | fcntl.LOCK_NB)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()


def lock_job(j):
    """Real helpers with locks held by somebody else."""
    typ, cmd, held = j
    b = box(typ)
    b.world.programs.clear()
    if typ == "rbd":
        env.set_chunk(4)
    hist.clear_revs(b.repo)
    b.set_source(b"abcdefgh")
    env.clock.t = 0.0
    if b.backup("daily")[0] or (b.set_source(b"abcdXXXX"), setattr(env.clock, "t", 86400.0), b.backup("daily")[0])[2]:
        raise Violation("setup", "undisturbed backup failed")
    uu = [u for u, d in sorted(b.revs().items(), key=lambda x: x[1]["timestamp"])]
    env.clock.t = 40 * 86400.0
    b.srcfile.parent.joinpath("restored").unlink(missing_ok=True)
    args = {
        "backup": ["backup", "daily"], "rm": ["rm", "-r", "first"], "tags": ["tags", "set", "-r", "all", "manual:x"],
        "distrust": ["distrust", "-r", "all"], "gc-expire": ["gc", "--expire", "--local"], "gc": ["gc"],
        "verify": ["verify", "-r", "all"],
        "restore": ["restore", "-r", "first", typ, *(["--backend", "python"] if typ == "rbd" else []), str(b.root / "restored")],
        "log": ["log"], "rev-parse": ["rev-parse", "-r", "all"],
    }[cmd]
    before = {k: v for k, v in b.capture()[0].items() if not k.endswith(("/.backup", "/.purge"))}
    with Held(b.repo, *held):
        rc, out = b.cli(*args)
    after = {k: v for k, v in b.capture()[0].items() if not k.endswith(("/.backup", "/.purge"))}
    what = f"{typ} {' '.join(args[:3])} while {held[0]} is locked ({held[1]})"
    ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    must_fail = (held[0] == ".backup" and cmd in ("backup", "rm", "tags", "distrust", "gc-expire")) or (
        held[0] == ".purge" and cmd in ("gc", "gc-expire"))
    if must_fail and status(rc) == 0:
        raise Violation("locked-success", f"{what}: exit status 0")
    if status(rc) and ch and not (cmd == "gc-expire" and held[0] == ".purge"):
        raise Violation("locked-effect", f"{what}: status {rc} but changed {ch}")
    if cmd in ("restore", "log", "rev-parse"):
        if status(rc):
            raise Violation("readers", f"{what}: status {rc}")
        if cmd == "restore" and (b.root / "restored").read_bytes() != b"abcdefgh":
            raise Violation("restore", what)
    if status(rc) == 0:
        revs = b.revs()
        done = {
            "backup": len(revs) == 3 and all("duration" in d["stats"] for d in revs.values()), "rm": uu[0] not in revs,
            "tags": all(d["tags"] == ["manual:x"] for d in revs.values()), "gc-expire": len(revs) == 1,
            "distrust": all(d["trust"] == "distrusted" for d in revs.values()),
            "verify": typ == "file" or all(d["trust"] == "verified" for d in revs.values()),
        }.get(cmd, True)
        if not done:
            raise Violation("success-without-effect", f"{what}: exit status 0")
    return 1, f"{cmd}/{status(rc)}"


def damage_job(j):
    """Real restores that cannot succeed."""
    typ, kind = j
    b = box(typ)
    b.world.programs.clear()
    env.set_chunk(4)
    hist.clear_revs(b.repo)
    b.set_source(b"abcdefgh")
    rc, u = b.backup("daily")
    if rc:
        raise Violation("setup", "undisturbed backup failed")
    t = b.root / "restored"
    extra = ["--backend", "python"] if typ == "rbd" else []
    spec = "first"
    if kind == "no-directory":
        t = b.root / "nosuch" / "x"
    elif kind == "directory":
        t = b.root / "adir"
        t.mkdir(exist_ok=True)
    elif kind == "data-missing":
        for f in (b.chunk_files().values() if typ == "rbd" else [b.repo / u]):
            os.unlink(f)
            break
    elif kind == "mapping-missing":
        os.unlink(b.repo / u)
    elif kind == "no-revision":
        hist.clear_revs(b.repo)
    elif kind == "no-config":
        c = b.repo / "config"
        save = c.read_bytes()
        c.unlink()
    rc, _ = b.cli("restore", "-r", spec, typ, *extra, str(t))
    if kind == "no-config":
        (b.repo / "config").write_bytes(save)
    _env.pop((os.getpid(), typ)).close()
    if status(rc) == 0:
        raise Violation("restore-success", f"{typ} restore with {kind}: exit status 0")
    return 1, "restore-failed"


EXTRACT_VERSIONS = {"good": (0, b"backy-extract 1.0\n"), "fails": (1, b""), "other": (0, b"something else\n"), "killed": (-9, b""),
                    "binary": (0, b"\xff\xfe"), "missing": None}


def extract_job(j):
    """Restoring by the external program."""
    backend, content, version = j
    b = box("rbd")
    b.world.programs.clear()
    env.set_chunk(4)
    hist.clear_revs(b.repo)
    data = {}
    for c in (b"XXXXYYYYZZZZ", content):
        env.clock.t += 86400.0
        b.set_source(c)
        rc, u = b.backup("daily")
        if rc:
            raise Violation("setup", "undisturbed backup failed")
        data[u] = c
    t = b.root / "restored"
    n = 0
    for code, late in itertools.product(CODES, (False, True)):
        calls = []

        def run(argv):
            if version == "missing":
                raise FileNotFoundError(2, "No such file or directory", argv[0])
            if argv[1:] == ["--version"]:
                return EXTRACT_VERSIONS[version]
            calls.append(argv)
            c = data[os.path.basename(argv[1])]
            with open(argv[2], "wb") as f:
                f.write(c if code == 0 or late else c[:len(c) // 2])
            return code

        b.world.programs["backy-extract"] = run
        for spec in ("first", "last"):
            want = data[sorted(b.revs().items(), key=lambda x: x[1]["timestamp"])[0 if spec == "first" else -1][0]]
            t.unlink(missing_ok=True)
            rc, _ = b.cli("restore", "-r", spec, "rbd", *(["--backend", backend] if backend else []), str(t))
            got = t.read_bytes() if t.exists() else None
            what = f"restore -r {spec} with backend {backend}, backy-extract ({version}) ends with {code}: {status(rc)} {got!r}"
            n += 1
            if status(rc) == 0 and got != want:
                raise Violation("restore-success", what)
            if calls and code and status(rc) == 0:
                raise Violation("helper-failed", what)
            if status(rc) and not (code and calls) and not (backend == "rust" and version == "missing"):
                raise Violation("restore-failed", what)
            calls.clear()
    b.world.programs.clear()
    _env.pop((os.getpid(), "rbd")).close()
    return n, f"extract/{backend}/{version}"


def api_job(j):
    kind, answers = j
    b = box("file")
    net.install()
    hosts = []
    roots = []
    for i in range(3):
        p = b.base / f"j{i}"
        if not p.exists():
            p.mkdir()
            (p / "quarantine").mkdir()
        for e in list(os.scandir(p / "quarantine")):
            os.unlink(e.path)
        hist.clear_revs(p)
        roots.append(p)
    conf = b.root / "daemon.conf"
    conf.write_text(yaml.safe_dump({"global": {"base-dir": str(b.base)}, "schedules": {}, "jobs": {},
                                    "api": {"cli-default": {"url": "http://daemon:1", "token": "t"}}}))

    async def daemon(method, path, headers, body):
        a = answers
        if path == "/v1/jobs":
            if kind == "jobs":
                return deliver(a[0])
            return 200, json.dumps([{"name": f"j{i}", "path": str(roots[i]), "schedule": SCHED, "status": ""} for i in range(3)]).encode()
        if path.startswith("/v1/jobs/j") and path.endswith("/run"):
            return deliver(a[int(path.split("/")[3][1:])], 202)
        return deliver(a[0], 200)

    def deliver(x, ok=200):
        if x == "ok":
            return ok, b"[]"
        if x == "refused":
            raise net.refused()
        if x == "lost":
            raise net.disconnected()
        return int(x), b""

    net.network.servers = {"daemon": daemon}
    net.network.hook = None
    rcs = []

    def cli(*args):
        rc, out = world.run_cli(["-C", str(b.repo), "-c", str(conf), *args])
        return status(rc)

    def expect(what, rc, ok):
        if (rc == 0) != ok:
            raise Violation("status", f"{what}, daemon answers {answers}: exit status {rc}")
        return 1, f"{kind}/{'ok' if ok else 'failed'}"

    if kind == "bg":
        for i in range(3):
            fill(roots[i], 1)
        return expect("backup -a", cli("-a", "backup", "daily"), all(x == "ok" for x in answers))
    if kind == "one":
        fill(b.repo, 1)
        out = [expect("reload-daemon", cli("reload-daemon"), answers[0] == "ok")]
        if answers[0] != "ok":
            out.append(expect("show-jobs", cli("-a", "show-jobs"), False))
        return out
    if kind == "jobs":
        out = []
        for args in (["check"], ["tags", "set", "-r", "all", "manual:x"], ["show-jobs"], ["backup", "daily"], ["log"],
                     ["rm", "-r", "first"], ["distrust", "-r", "first"]):
            out.append(expect(f"-a {' '.join(args)}", cli("-a", *args), False))
        return out
    if kind == "check":
        for p, a in zip(roots, answers):
            hist.write_rev(p, U[0], 10 * 86400.0 - (3600.0 if a != "crit" else 86400.0 * 3), ("daily",))
            if a == "warn":
                (p / "quarantine" / "x.report").write_text("x")
        env.clock.t = 10 * 86400.0
        rc = cli("-a", "check")
        want = 2 if "crit" in answers else 1 if "warn" in answers else 0
        if rc != want:
            raise Violation("check-all", f"{answers}: exit status {rc}, want {want}")
        return 1, f"check/{rc}"
    if kind == "each":
        out = []
        for cmd in (["tags", "set", "-r", "all", "--expect", "daily", "manual:x"], ["rm", "-r", "first"], ["distrust", "-r", "last"]):
            for p, a in zip(roots, answers):
                fill(p, 2, ("weekly",) if a == "mismatch" and cmd[0] == "tags" else ("daily",))
                if a == "mismatch":
                    if cmd[0] != "tags":
                        hist.clear_revs(p)
            held = [Held(p, ".backup", "ex") for p, a in zip(roots, answers) if a == "locked"]
            rc = cli("-a", *cmd)
            for h in held:
                h.f.close()
            out.append(expect(f"-a {' '.join(cmd)}", rc, all(a == "ok" for a in answers)))
        return out
    raise AssertionError(kind)


def run(rep, tier):
    env.boot()
    env.set_chunk(4)
    world.quiet_sync()
    jobs = [(k, t, 0) for k in ("backup", "gc", "gc-expire", "restore") for t in ("file", "rbd")]
    jobs += [("verify", "file", n) for n in (1, 2, 3)] + ([("verify", "rbd", 4)] if tier == "thorough" else [("verify", "rbd", 2)])
    core.cases(rep, "helpers", helper_job, jobs)
    cmds = ["backup", "rm", "tags", "distrust", "gc-expire", "gc", "verify", "restore", "log", "rev-parse"]
    # taking a shared lock waits, so nobody holds .purge exclusively here
    core.cases(rep, "locks", lock_job, [(t, c, h) for t in ("file", "rbd") for c in cmds
                                        for h in ((".backup", "ex"), (".backup", "sh"), (".purge", "sh"))])
    core.cases(rep, "damage", damage_job, [(t, k) for t in ("file", "rbd") for k in
                                           ("no-directory", "directory", "data-missing", "mapping-missing", "no-revision", "no-config")
                                           if (t, k) not in (("file", "directory"), ("file", "mapping-missing"))])
    core.cases(rep, "extract", extract_job, [(k, c, v) for k in ("rust", "auto", "python", "") for c in (b"abcdefgh", b"abcdefghi", b"")
                                             for v in EXTRACT_VERSIONS])
    ans = ["ok", "404", "500", "refused", "lost", "401"]
    jobs = [("bg", a) for a in itertools.product(ans, repeat=3)] + [("one", (a,)) for a in ans]
    jobs += [("jobs", (a,)) for a in ans]
    jobs += [("check", a) for a in itertools.product(("ok", "warn", "crit"), repeat=3)]
    jobs += [("each", a) for a in itertools.product(("ok", "locked", "mismatch"), repeat=3)]
    core.cases(rep, "api", api_job, jobs)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]


def replay(r):
    env.boot()
    env.set_chunk(4)
    world.quiet_sync()

    def tup(x):
        return tuple(map(tup, x)) if isinstance(x, list) else x

    try:
        {"helpers": helper_job, "locks": lock_job, "damage": damage_job, "extract": extract_job, "api": api_job}[r["space"]](tup(r["case"]))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
