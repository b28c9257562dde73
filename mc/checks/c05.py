"""C05: every command is killed before every one of its mutating file system
operations and source calls, and in the middle of every write."""
import os

from .. import core, env, proc, scen
from ..core import Violation
from . import c01


def check_state(p, what, after, new_content, trusts=(), removable=False):
    """Oracle for a repository at rest after a disturbed command. `after` is
    the metadata the undisturbed command leaves."""
    b = p.box
    revs = scen.revs_lenient(b)
    for u, d in p.before.items():
        if not scen.is_complete(d):
            continue
        now = revs.get(u)
        if u not in revs:
            if u in after and not removable:
                raise Violation("revision-lost", f"{what}: {u} disappeared")
            continue
        if now is None:
            raise Violation("metadata-unreadable", f"{what}: {u}")
        if not scen.is_complete(now):
            raise Violation("revision-lost", f"{what}: {u} is no longer complete")
        old, new = d, after.get(u, {**d, "tags": []})
        if sorted(now["tags"]) not in (sorted(old["tags"]), sorted(new["tags"])):
            raise Violation("tags-mixed", f"{what}: {now['tags']} is neither {old['tags']} nor {new['tags']}")
        if now["trust"] not in (old["trust"], new.get("trust"), *trusts):
            raise Violation("trust-mixed", f"{what}: {now['trust']}")
    for u, d in revs.items():
        if not scen.is_complete(d) or u in p.damaged:
            continue
        want = p.model.get(u, new_content)
        rc, got = c01.raw_restore(b, u)
        if rc or got != want:
            raise Violation("not-restorable" if u in p.model else "fake-backup",
                            f"{what}: {u} rc={rc} got={got!r} want={want!r}")


def recover(p, what, attempts=1, content=None):
    """An ordinary backup and gc afterwards."""
    b = p.box
    env.clock.t += 3600
    present = {u: d for u, d in scen.revs_lenient(b).items() if scen.is_complete(d)}
    for i in range(attempts):
        rc, u = b.backup("manual:r")
        if rc == 0:
            break
    else:
        raise Violation("recovery-failed", f"{what}: the next backup failed with {rc}")
    revs = scen.revs_lenient(b)
    if u is None or not scen.is_complete(revs.get(u)):
        raise Violation("recovery-failed", f"{what}: the next backup left no complete revision")
    bad = [x for x, d in revs.items() if not scen.is_complete(d)]
    if bad:
        raise Violation("leftovers", f"{what}: unfinished revisions {bad} after the next backup")
    rc, got = c01.raw_restore(b, u)
    if rc or got != b.source():
        raise Violation("recovery-wrong", f"{what}: rc={rc} got={got!r} want={b.source()!r}")
    rc, _ = b.cli("gc")
    if rc:
        raise Violation("recovery-failed", f"{what}: gc after the next backup failed")
    revs = scen.revs_lenient(b)
    for x in present:
        if x in p.damaged:
            continue
        if x not in revs:
            raise Violation("revision-lost", f"{what}: {x} lost during recovery")
    have, need = scen.used_data(b)
    if p.damaged and (have - need or need - have <= set()):
        pass
    elif have != need:
        raise Violation("gc-inexact", f"{what}: superfluous {sorted(have - need)} missing {sorted(need - have)}")
    for x in revs:
        if x in p.damaged:
            continue
        want = p.model.get(x, b.source())
        rc, got = c01.raw_restore(b, x)
        if rc or got != want:
            raise Violation("not-restorable", f"{what}: {x} after recovery rc={rc} got={got!r}")


_ref = {}


def reference(name):
    """The undisturbed run: operations, exit status, metadata afterwards."""
    k = (os.getpid(), name)
    if k not in _ref:
        base, cmd = scen.COMMANDS[name]
        p = scen.prepared(base)
        hooked(p)
        r = proc.child(cmd(p), proc.KILL, p.box.base, 0, flags=proc.LIST)
        if r.value != 0:
            raise Violation("command-failed", f"{name}: undisturbed run exits with {r.value}")
        _ref[k] = r.log, p.box.revs()
    return _ref[k]


def hooked(p):
    if not getattr(p, "hooked", 0):
        scen.hook(p.box)
        p.hooked = True


def kill_at(p, cmd, k, mid):
    return proc.child(cmd(p), proc.KILL, p.box.base, k, flags=proc.MID if mid else 0)


def case(job):
    name, k, mid, second = job
    base, cmd = scen.COMMANDS[name]
    log, after = reference(name)
    p = scen.prepared(base)
    hooked(p)
    r = kill_at(p, cmd, k, mid)
    op = log[k - 1][:2] if k <= len(log) else ("end", "")
    what = f"{name} killed {'in' if mid else 'before'} operation {k} {op[0]} {os.path.basename(op[1])}"
    if k <= len(log) and not r.killed:
        raise Violation("nondeterministic", f"{what}: {r}")
    new = p.box.source()
    check_state(p, what, after, new)
    n = 1
    attempts = 4 if p.damaged else 1
    if not second:
        recover(p, what, attempts)
        return n, f"{name}/{op[0]}{'/mid' if mid else ''}"
    # a second death during the recovery run
    snap = p.box.capture()
    t = env.clock.t
    later = scen.BACKUP(p)
    count = proc.child(later, proc.KILL, p.box.base, 0).count
    p2 = scen.Prep()
    p2.__dict__.update(p.__dict__)
    for k2 in range(1, count + 1):
        p.box.load(snap)
        proc.child(later, proc.KILL, p.box.base, k2, flags=0)
        w2 = f"{what}, then the next backup killed before operation {k2}"
        check_state(p, w2, after, new)
        recover(p, w2, attempts)
        n += 1
    return n, f"{name}/second"


def jobs(tier):
    out = []
    for name in scen.COMMANDS:
        log, _ = reference(name)
        for k in range(1, len(log) + 2):
            out.append((name, k, False, False))
            if k <= len(log) and log[k - 1][3]:
                out.append((name, k, True, False))
    if tier == "thorough":
        for name in ("backup", "backup-first", "backup-leftover", "gc", "expire", "verify-corrupt", "file-backup", "tags-remove"):
            log, _ = reference(name)
            ks = [k for k in range(1, len(log) + 1) if log[k - 1][0] != "mkdir" or k % 64 == 0]
            out += [(name, k, False, True) for k in ks]
    # the 256 directories of a fresh store are alike
    first = [j for j in out if j[0] == "backup-first" and not j[3]]
    log, _ = reference("backup-first")
    skip = {j for j in first if j[1] <= len(log) and log[j[1] - 1][0] == "mkdir" and j[1] % 32}
    return [j for j in out if j not in skip]


def run(rep, tier):
    scen.setup()
    try:
        js = jobs(tier)
    except Violation as v:
        rep.violation(v.key, v.detail, {"case": None})
        return
    core.cases(rep, "death", case, js)
    rep.add(traces_validated_against_impl=len(js))


def replay(r):
    scen.setup()
    if r.get("case") is None:
        jobs("quick")
        return 0
    try:
        print(case(tuple(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
