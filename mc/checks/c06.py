"""C06: the system calls of every command are recorded; for every prefix of the
record and every explored loss of unsynced data the surviving disk is checked."""
import os

from .. import core, disk, env, proc, scen
from ..core import Violation
from . import c01, c05

QUICK = [n for n in scen.COMMANDS if "restore" not in n]
_states = []  # (command, prefix length, operation, capture, lost)
_after = {}


def record(name):
    base, cmd = scen.COMMANDS[name]
    p = scen.prepared(base)
    c05.hooked(p)
    r = proc.child(cmd(p), proc.RECORD, p.box.base)
    if r.value != 0:
        raise Violation("command-failed", f"{name}: undisturbed run exits with {r.value}")
    _after[name] = p.box.revs()
    final = {k: v for k, v in p.box.capture()[0].items()}
    return p, r.log, final


def collect(rep, tier):
    seen = set()
    total = 0
    for name in QUICK:
        p, log, final = record(name)
        root = os.fsencode(p.box.root)
        d = disk.Disk(str(p.box.base), p.snap[0])
        for n in range(len(log) + 1):
            if n:
                d.apply(log[n - 1])
            op = (log[n - 1][0], os.path.basename(log[n - 1][1])) if n else ("start", "")
            for st, lost in d.crash_states(5 if tier == "thorough" else 3):
                total += 1
                # temporary names are random and never looked at again
                key = core.digest(sorted((k, v) for k, v in st.items() if not os.path.basename(k).startswith("tmp")))
                if (p.box.typ, name, key) in seen:
                    continue
                seen.add((p.box.typ, name, key))
                _states.append((name, n, op, st, lost))
        # the model must agree with the real file system after the whole run
        got = {k: (v.volatile, v.mode) for k, v in d.names.items() if isinstance(v, disk.Inode)}
        want = {k: (v[1].replace(b"@ROOT@", root) if k.endswith("/config") else v[1], v[2]) for k, v in final.items() if v[0] == "f"}
        got = {k: (c.replace(b"@ROOT@", root) if k.endswith("/config") else c, m) for k, (c, m) in got.items()}
        if {k: c[0] for k, c in got.items()} != {k: c[0] for k, c in want.items()}:
            diff = {k for k in got.keys() | want.keys() if (got.get(k) or [0])[0] != (want.get(k) or [0])[0]}
            raise RuntimeError(f"disk model diverges from the file system after {name}: {sorted(diff)}")
        rep.add(traces_validated_against_impl=1)
    return total


def case(i):
    name, n, op, st, lost = _states[i]
    p = scen.prepared(scen.COMMANDS[name][0])
    b = p.box
    what = f"{name}: power loss after operation {n} ({op[0]} {op[1]}) losing {lost}"
    b.load((st, p.snap[1], p.snap[2] + 3600, p.snap[3] + 5000))
    c05.check_state(p, what, _after[name], b.source())
    snap = b.capture()
    try:
        c05.recover(p, what, 4 if p.damaged else 1)
    except Violation as v:
        # Known: a later backup takes torn, never synced data of the crashed
        # one for good. Only if everything is fine without those torn files.
        torn = [k for k in lost if k.endswith(".chunk.lzo") and k not in p.snap[0]]
        if not torn:
            raise
        st2 = {k: x for k, x in snap[0].items() if k not in torn}
        b.load((st2, *snap[1:]))
        try:
            c05.recover(p, what, 4 if p.damaged else 1)
        except Violation:
            raise v
        raise Violation("torn-chunk-reused-after-crash", v.detail)
    return 2, f"{name}/{op[0]}/{''.join(sorted(lost.values()))}"


def run(rep, tier):
    scen.setup()
    try:
        total = collect(rep, tier)
    except Violation as v:
        rep.violation(v.key, v.detail, {"case": None})
        return
    core.cases(rep, "power-loss", case, range(len(_states)))
    rep.notes.append(f"{total} crash states, {len(_states)} distinct")
    rep.assumptions += ["directory operations, truncations and modes persist in the order issued",
                        "file data persists at the latest with fsync/sync; before it is lost, half there or there"]


def replay(r):
    scen.setup()
    rep = core.Report("C06", "quick")
    collect(rep, r.get("tier", "quick"))
    try:
        print(case(r["case"]))
    except Violation as v:
        print("VIOLATION reproduced:", v)
        return 1
    return 0
