"""C08: pairs (thorough: triples) of commands on one repository as real
processes, under all schedules with a bounded number of preemptions."""
import itertools
import os

from .. import conc, core, env, proc, scen
from ..conc import Cmd
from ..core import Violation
from . import c01, c05


def _cli(name, *args, advance=0):
    def prep(p, i):
        a = [getattr(p, x[1:]) if x.startswith("@") else x for x in args]

        def run():
            env.clock.t += advance
            return p.box.cli(*a)[0]

        return run

    return Cmd(name, prep, name.split("-")[0])


def _restore(which):
    def prep(p, i):
        u = getattr(p, which)

        def run():
            t = p.box.root / f"restored.{i}"
            t.unlink(missing_ok=True)
            rc, got = p.box.restore(u, target=t)
            return rc, got, u

        return run

    return Cmd(f"restore-{which}", prep, "restore")


def _stdout(which):
    def prep(p, i):
        u = getattr(p, which)
        out = p.box.root / f"stdout.{i}"

        def run():
            fd = os.open(out, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            save = os.dup(1)
            os.dup2(fd, 1)
            try:
                rc, _ = p.box.cli("restore", "-r", u, "rbd", "--backend", "python", "-")
            finally:
                os.dup2(save, 1)
                os.close(save)
                os.close(fd)
            return rc, out.read_bytes(), u

        return run

    return Cmd(f"stdout-{which}", prep, "restore")


CMDS = {c.name: c for c in [
    _cli("backup", "backup", "daily"),
    _restore("first"), _restore("last"), _stdout("middle"),
    _cli("gc", "gc"),
    _cli("verify-last", "verify", "-r", "@last"),
    _cli("verify-all", "verify", "-r", "clean"),
    _cli("rm-first", "rm", "-r", "@first"),
    _cli("rm-last", "rm", "-r", "@last"),
    _cli("tags", "tags", "set", "-f", "-r", "clean", "manual:x"),
    _cli("distrust", "distrust", "-r", "@first"),
    _cli("expire", "gc", "--expire", "--local", advance=86400 * 30),
]}


def pairs(tier):
    """(base, commands)"""
    out = []
    names = list(CMDS)
    for a, b in itertools.combinations_with_replacement(names, 2):
        if CMDS[a].kind == CMDS[b].kind == "restore":
            continue
        bases = ["Rmix"]
        if "backup" in (a, b):
            bases += ["Rbase"] if "stdout-middle" not in (a, b) else []
        if tier == "thorough" and "stdout-middle" not in (a, b):
            bases += [x for x in ("Rbase", "Rleftover", "Rdistrusted") if x not in bases]
        out += [(base, (a, b)) for base in bases]
        if "stdout" not in a + b and ("verify" not in a + b or tier == "thorough"):
            out.append(("Fmix", (a, b)))
    return out


def data_commands(cs):
    return any(CMDS[c].kind in ("backup", "gc", "verify", "expire", "restore") for c in cs)


_ref = {}


def vanishing(base, cs):
    """Revisions that some sequential order removes."""
    k = (os.getpid(), base, cs)
    if k not in _ref:
        gone = set()
        for order in itertools.permutations(range(len(cs))):
            p = prepared(base)
            conc.run_sequential(p, [CMDS[c] for c in cs], order)
            gone |= {u for u, d in p.before.items() if scen.is_complete(d)} - set(p.box.revs())
        _ref[k] = gone
    return _ref[k]


def prepared(base):
    p = scen.prepared(base)
    c05.hooked(p)
    if not hasattr(p, "first"):
        p.first = p.last
    return p


def execute(base, cs, ch):
    cmds = [CMDS[c] for c in cs]
    gone = vanishing(base, cs)
    p = prepared(base)
    try:
        steps = []
        vals, trace = conc.run_concurrent(p, cmds, ch, steps)
    except proc.Stuck as e:
        raise Violation("deadlock", f"{base} {'|'.join(cs)}: {e}")
    what = f"{base}: {conc.describe(cmds, trace)} -> {[v[0] if isinstance(v, tuple) else v for v in vals]}"
    for i, (c, v) in enumerate(zip(cs, vals)):
        # others ran only while this one was in the middle of reading data
        mine = [at for j, at in trace if j == i and at and at[1] and not at[0] in ("call", "lock")]
        reading = any(j == i and at and at[1].endswith(".chunk.lzo")
                      for j, at in itertools.takewhile(lambda x: x[0] == i, steps))
        if CMDS[c].kind == "restore" and v[0] and (v[1] or reading) and mine and all(at[1].endswith(".chunk.lzo") for at in mine):
            raise Violation("restore-broken-off", f"{what}: restore of {v[2]} exits with {v[0]} after delivering {v[1]!r}")
    for i, c in enumerate(cs):
        if CMDS[c].kind == "backup":
            alone(what, steps, i)
    # The verdict depends on nothing but the final state and the results.
    k = (base, cs, core.digest((p.box.capture()[:2], vals)))
    if k not in _judged:
        check(p, what, cs, vals, gone)
        _judged.add(k)
    return vals


_judged = set()
MODIFIES = ("create", "write", "rename", "unlink", "truncate")


def alone(what, steps, i):
    """While a backup stores its revision nobody else changes revisions (a new
    one may be announced, and withdrawn)."""
    own = f"p{'abcdef'[i]}"
    mine = [k for k, (j, at) in enumerate(steps) if j == i and at and (
        at[1] == "rbd snap create" or at[0] in MODIFIES and os.path.basename(at[1]).startswith(own))]
    data = [k for k in mine if not steps[k][1][1].endswith(".rev")]
    if not data:
        return
    for k in range(data[0], mine[-1]):
        j, at = steps[k]
        if j == i or not at or at[0] not in MODIFIES:
            continue
        name = os.path.basename(at[1])
        if name == "last" or name == "last.rev" or len(name.removesuffix(".rev")) != 22:
            continue
        if name.endswith(".rev") and name.startswith(f"p{'abcdef'[j]}"):
            continue
        raise Violation("not-alone", f"{what}: {at[0]} {name} while {own} is being stored")


def check(p, what, cs, vals, gone):
    b = p.box
    revs = scen.revs_lenient(b)
    for u, d in revs.items():
        if d is None:
            raise Violation("metadata-unreadable", f"{what}: {u}")
    for u, d in p.before.items():
        if scen.is_complete(d) and not scen.is_complete(revs.get(u)) and u not in gone:
            raise Violation("revision-lost", f"{what}: {u}")
    for u, d in revs.items():
        if not scen.is_complete(d):
            continue
        want = p.model.get(u, b.source())
        rc, got = c01.raw_restore(b, u)
        if rc or got != want:
            raise Violation("not-restorable" if u in p.model else "fake-backup",
                            f"{what}: {u} rc={rc} got={got!r} want={want!r}")
    for i, (c, v) in enumerate(zip(cs, vals)):
        kind = CMDS[c].kind
        if kind == "restore":
            rc, got, u = v
            if u not in gone and rc:
                raise Violation("restore-failed", f"{what}: restore of {u} exits with {rc}")
            if not rc and got != p.model[u]:
                raise Violation("restore-wrong", f"{what}: restore of {u} got {got!r}")
        if kind == "backup":
            new = [u for u, d in revs.items() if u.startswith(f"p{'abcdef'[i]}") and scen.is_complete(d)]
            if v == 0 and len(new) != 1:
                raise Violation("backup-lost", f"{what}: successful, but complete revisions: {new}")
    c05.recover(p, what)


def case(job):
    base, cs, first, bound, part = job
    out = []

    def run(ch, skip):
        if skip:  # only to learn the choice points
            p = prepared(base)
            conc.run_concurrent(p, [CMDS[c] for c in cs], ch)
            return
        try:
            vals = execute(base, cs, ch)
        except Violation as v:
            raise Violation(v.key, f"{v.detail} schedule={[a for _, _, a in ch.trace]}")
        out.append("/".join(f"{CMDS[c].kind}={v[0] if isinstance(v, tuple) else v}" for c, v in zip(cs, vals)))

    vanishing(base, cs)
    conc.explore(run, abs(bound), first, part=part, coarse=bound < 0)
    return [(1, o) for o in out]


def cases_for(tier):
    jobs = []
    for base, cs in pairs(tier):
        heavy = data_commands(cs)
        bound = 1
        parts = 2 if heavy else 1
        if tier == "thorough" and base in ("Rmix", "Fmix"):
            # two preemptions: around locks and metadata
            jobs += [(base, cs, first, -2, (i, 8)) for first in range(2) for i in range(8)]
        for first in range(2):
            for i in range(parts):
                jobs.append((base, cs, first, bound, (i, parts)))
    # removed while it is read, and cleaned up
    for c in ("verify-last", "backup", "gc"):
        jobs += [("Rmix", ("restore-first", "rm-first", c), 0, 1, (i, 4)) for i in range(4)]
    if tier == "quick":  # two preemptions, around locks and metadata only
        jobs += [("Rbase", ("backup", "backup"), 0, -2, (i, 16)) for i in range(16)]
    if tier == "thorough":
        for cs in TRIPLES:
            for first in range(3):
                jobs += [("Rmix", cs, first, 1, (i, 4)) for i in range(4)]
    return jobs


TRIPLES = [
    ("backup", "gc", "rm-first"), ("backup", "restore-last", "gc"), ("backup", "verify-all", "restore-first"),
    ("expire", "backup", "gc"), ("tags", "rm-last", "backup"), ("restore-last", "gc", "rm-first"),
    ("backup", "backup", "gc"), ("verify-all", "gc", "restore-first"),
]


def setup():
    scen.setup()
    import backy.rbd

    env.own_time()
    # the block size of restores to standard output
    if hasattr(backy.rbd, "CHUNK_SIZE"):
        backy.rbd.CHUNK_SIZE = 4


def run(rep, tier):
    setup()
    jobs = cases_for(tier)
    core.cases(rep, "schedules", case, jobs)
    rep.add(traces_validated_against_impl=rep.cov["transitions"])


def replay(r):
    setup()
    j = r["case"]
    try:
        print(case((j[0], tuple(j[1]), j[2], j[3], tuple(j[4]))))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
