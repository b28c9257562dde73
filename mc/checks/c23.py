"""C23: every file system operation of every command fails once (or from some
point on, or after transferring half of the data)."""
import errno
import os

from .. import core, env, proc, scen
from ..core import Violation
from . import c01, c05

STICKY = proc.STICKY

_ref = {}


def reference(name):
    k = (os.getpid(), name)
    if k not in _ref:
        base, cmd = scen.COMMANDS[name]
        p = scen.prepared(base)
        r = proc.child(cmd(p), proc.FAIL, p.box.base, 0, flags=proc.LIST)
        if r.value != 0:
            raise Violation("command-failed", f"{name}: undisturbed run exits with {r.value}")
        _ref[k] = r.log, p.box.revs(), effect(p, name)
    return _ref[k]


def effect(p, name):
    """What the command is there for, as comparable state."""
    revs = {u: (tuple(sorted(d["tags"])), d["trust"], scen.is_complete(d)) for u, d in scen.revs_lenient(p.box).items() if d}
    out = {"revs": revs}
    if "gc" in name or name.startswith(("verify", "expire")):
        have, need = scen.used_data(p.box)
        out["garbage"] = sorted(have - need)
    if "restore" in name:
        f = p.box.root / "restored"
        out["restored"] = f.read_bytes() if f.exists() else None
    return out


def case(job):
    name, k, err, flags = job
    base, cmd = scen.COMMANDS[name]
    log, after, want = reference(name)
    p = scen.prepared(base)
    (p.box.root / "restored").unlink(missing_ok=True)
    if p.box.typ == "rbd" and not hasattr(p, "uses"):
        p.uses = {u: set(p.box.mapping(u)["mapping"].values()) for u in p.before}
    r = proc.child(cmd(p), proc.FAIL, p.box.base, k, err=err, flags=flags)
    op = log[k - 1]
    kind = f"{errno.errorcode[err]}{' from there on' if flags & STICKY else ''}{' half way' if flags & proc.SHORT else ''}"
    what = f"{name} with {kind} in operation {k} {op[0]} {os.path.basename(op[1])}"
    for u, d in scen.revs_lenient(p.box).items():
        if d is None:
            raise Violation("metadata-partial", f"{what}: {u}")
    # stored data that cannot be read may be taken for damaged
    unreadable = err == errno.EIO and op[1].endswith(".chunk.lzo") and op[0] in ("open", "read", "fstat", "stat")
    verifies = name.startswith("verify") or name == "backup-distrusted"
    if unreadable and verifies:
        # then everything that shares it is damaged as well
        h = os.path.basename(op[1]).removesuffix(".chunk.lzo")
        p2 = scen.Prep()
        p2.__dict__.update(p.__dict__)
        p2.damaged = p.damaged | {u for u, hs in p.uses.items() if h in hs}
        p2.damaged |= {u for u in p.box.complete() if h in p.box.mapping(u)["mapping"].values()}
        p = p2
    c05.check_state(p, what, after, p.box.source(), ("distrusted", "verified") if unreadable else (),
                    unreadable and verifies)
    if r.value == 0 and not (unreadable and verifies):
        got = effect(p, name)
        if got != want:
            raise Violation("failure-not-reported", f"{what}: exit 0 but {got} instead of {want}")
    c05.recover(p, what, 4 if p.damaged else 1)
    return 1, f"{name.split('-')[0]}/{op[0]}/{errno.errorcode[err]}/{r.value}"


MUTATING = ("create", "write", "mkdir", "rename", "link", "symlink", "truncate", "fsync", "fdatasync")


def errors(op):
    kind = op[0]
    out = [errno.EIO]
    if kind in ("create", "write", "mkdir", "rename", "symlink", "link"):
        out.append(errno.ENOSPC)
    if kind in ("open", "create", "opendir"):
        out.append(errno.EMFILE)
    return out


def prepared_chunks(name):
    return scen.prepared(scen.COMMANDS[name][0]).box.chunk_files()


def jobs(tier):
    out = []
    for name in scen.COMMANDS:
        log, _, _ = reference(name)
        n = {}
        full = {h[:2] for h in prepared_chunks(name)}
        for k, op in enumerate(log, 1):
            # the 256 directories of a store are alike
            d = os.path.basename(op[1])
            if len(d) == 2 and "/chunks/" in op[1] and d not in full:
                n[op[0]] = n.get(op[0], 0) + 1
                if n[op[0]] % 128 != 1:
                    continue
            for e in errors(op):
                out.append((name, k, e, 0))
                if tier == "thorough" and e != errno.EIO:
                    out.append((name, k, e, STICKY))
            if op[0] == "write":
                out.append((name, k, errno.ENOSPC, proc.SHORT))
                if tier == "thorough":
                    out.append((name, k, errno.ENOSPC, proc.SHORT | STICKY))
    return out


def run(rep, tier):
    scen.setup()
    try:
        js = jobs(tier)
    except Violation as v:
        rep.violation(v.key, v.detail, {"case": None})
        return
    core.cases(rep, "fault", case, js)
    rep.add(traces_validated_against_impl=len(js))


def replay(r):
    scen.setup()
    if r.get("case") is None:
        jobs("quick")
        return 0
    try:
        print(case(tuple(r["case"])))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
