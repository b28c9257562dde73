"""C24: snapshot requests through the key-value store: every store content from
an alphabet, every moment the hypervisor may answer, every vanishing entry."""
import itertools
import json
import os
import random

import consulate

from .. import core, env, hist, world
from ..core import Violation

VM = "test01"
ENTRIES = {
    "own-old": ("snapshot/1", {"vm": VM, "snapshot": "backy-old"}),
    "own-old2": ("snapshot/zz", {"vm": VM, "snapshot": "backy-older"}),
    "own-manual": ("snapshot/2", {"vm": VM, "snapshot": "manual"}),
    "other": ("snapshot/3", {"vm": "other", "snapshot": "backy-x"}),
    "similar": ("snapshot/4", {"vm": VM + "2", "snapshot": "backy-x"}),
    "prefix": ("snap/5", {"vm": VM, "snapshot": "backy-y"}),
    "nojson": ("snapshot/6", "this is not json"),
    "nodict": ("snapshot/7", "[1]"),
    "nokeys": ("snapshot/8", "{}"),
    "novalue": ("snapshot/9", None),
    "empty": ("snapshot/10", ""),
    "number": ("snapshot/11", '{"vm": "test01", "snapshot": 5}'),
}
KEEP = {"own-manual", "other", "similar", "prefix"}  # must survive
REMOVE = {"own-old", "own-old2"}  # must be gone


class World:
    """The key-value store, the hypervisor and all interactions with them."""

    def __init__(self, entries, serve_at, vanish, deletes, decoys):
        self.d = {}
        for e in entries:
            k, v = ENTRIES[e]
            self.d[k] = json.dumps(v) if isinstance(v, dict) else v
        self.n = 0
        self.serve_at, self.vanish, self.deletes, self.decoys = serve_at, vanish, deletes, decoys
        self.served = None
        self.requests = []
        self.direct = None
        self.mine = {}
        self.box = None

    def tick(self):
        """One interaction of the backup with the outside."""
        if self.n == self.serve_at:
            self.serve()
        self.n += 1

    def serve(self):
        for k, v in list(self.d.items()):
            if not k.startswith("snapshot/") or not v:
                continue
            try:
                r = json.loads(v)
                ok = r["vm"] == VM and r["snapshot"] == self.mine.get(k)
            except Exception:
                continue
            if ok:
                if not self.box.ceph.snap_path(world.IMG, r["snapshot"]):
                    self.box.ceph.snap_create(world.IMG, r["snapshot"])
                    self.served = env.clock.t
                if self.deletes:
                    del self.d[k]


class KV:
    """Behaves like consulate.api.kv.KV, every access is an interaction."""

    def __init__(self, w):
        self.w = w

    def __setitem__(self, k, v):
        self.w.tick()
        self.w.d[k] = v if isinstance(v, str) else json.dumps(v)
        try:
            r = json.loads(self.w.d[k])
            self.w.mine[k] = r["snapshot"]
            self.w.requests.append((env.clock.t, k, r))
        except Exception:
            pass
        if self.w.decoys:
            for n in ("pre-" + self.w.mine.get(k, "x"), self.w.mine.get(k, "x") + "x"):
                self.w.box.ceph.snap_create(world.IMG, n)

    set = __setitem__

    def __getitem__(self, k):
        self.w.tick()
        if k in self.w.vanish:
            self.w.d.pop(k, None)
        if k not in self.w.d:
            raise KeyError(f"Key not found ({k})")
        return self.w.d[k]

    def get(self, k, default=None, raw=False):
        try:
            return self[k]
        except KeyError:
            return default

    def __contains__(self, k):
        self.w.tick()
        return k in self.w.d

    def __delitem__(self, k):
        self.w.tick()
        self.w.d.pop(k, None)

    def delete(self, k, recurse=False):
        for x in [x for x in self.w.d if x == k or recurse and x.startswith(k)]:
            del self[x]

    def find(self, prefix, separator=None):
        self.w.tick()
        return {k: v for k, v in self.w.d.items() if k.startswith(prefix)}

    def keys(self):
        self.w.tick()
        return sorted(self.w.d)

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        self.w.tick()
        return [{k: v} for k, v in self.w.d.items()]

    def iteritems(self):
        self.w.tick()
        return iter(list(self.w.d.items()))


_box = {}


def box():
    if os.getpid() not in _box:
        random.sample = lambda population, k, **kw: list(population)
        b = world.Box(source_extra={"vm": VM, "consul_acl_token": "12345"})
        b.ceph.snap_create(world.IMG, "foreign")
        b.set_source(b"AAAABBBB")
        _box[os.getpid()] = b, b.capture()
    b, snap = _box[os.getpid()]
    b.activate()
    b.load(snap)
    return b


def one(case):
    entries, serve_at, vanish, deletes, decoys, fail = case
    b = box()
    w = World(entries, serve_at, {ENTRIES[v][0] for v in vanish}, deletes, decoys)
    w.box = b
    kv = KV(w)
    consulate.Consul = lambda *a, **kw: type("Consul", (), {"kv": kv})()
    polls = [0]

    def fault(prog, argv, run):
        w.tick()
        if argv[1:3] == ["snap", "ls"]:
            polls[0] += 1
            if fail == polls[0]:
                return 1, b""
        if argv[1:3] == ["snap", "create"]:
            r = run()
            if r[0] == 0:
                w.direct = env.clock.t
            return r
        return run()

    b.world.fault = lambda prog, argv, run: fault(prog, argv, run) if prog == "rbd" else run()
    t0 = env.clock.t
    rc, u = b.backup("daily")
    b.world.fault = None
    what = f"store={entries} answered at {serve_at} vanishing={vanish} request removed={deletes} failing poll={fail}"
    name = f"backy-{u}" if u else None
    # 1. the request is what the hypervisor expects
    if len(w.requests) != 1:
        raise Violation("requests", f"{what}: {w.requests}")
    t, k, r = w.requests[0]
    if not k.startswith("snapshot/") or r.get("vm") != VM or (u and r.get("snapshot") != name):
        raise Violation("request", f"{what}: {k} {r}")
    # 2. the store afterwards
    for kk, v in w.d.items():
        if not kk.startswith("snapshot/"):
            continue
        try:
            x = json.loads(v)
            mine = x["vm"] == VM and str(x["snapshot"]).startswith("backy-")
        except Exception:
            continue
        if mine:
            raise Violation("leftover-request", f"{what}: {kk}={v}")
    for e in entries:
        if e in KEEP and e not in vanish and ENTRIES[e][0] not in w.d:
            raise Violation("foreign-request-removed", f"{what}: {e}")
    # 3. the snapshots
    names = b.ceph.snap_names(world.IMG)
    if "foreign" not in names or (decoys and f"pre-{r['snapshot']}" not in names):
        raise Violation("foreign-snapshot", f"{what}: {names}")
    if fail and polls[0] >= fail:
        return "poll-failed"
    if rc or not u:
        raise Violation("backup-failed", f"{what}: exit status {rc}")
    if w.direct is not None and w.direct - t < 90:
        raise Violation("too-early", f"{what}: created directly after {w.direct - t} s")
    if env.clock.t - t > 130:
        raise Violation("too-late", f"{what}: took {env.clock.t - t} s")
    if name not in names:
        raise Violation("no-snapshot", f"{what}: {names}")
    rc, data = b.restore(u)
    if rc or data != b"AAAABBBB":
        raise Violation("content", f"{what}: restored {data}")
    return "served" if w.served is not None and w.direct is None else "direct"


def job(cases):
    out = {}
    for c in cases:
        o = one(c)
        out[o] = out.get(o, 0) + 1
    return [(n, o) for o, n in out.items()]


def run(rep, tier):
    env.boot(chunk=4)
    env.set_chunk(4)
    world.quiet_sync()
    env.own_time()
    cs = []
    # every moment of the answer
    for e in ((), ("own-old", "other"), ("nojson", "own-old"), ("other", "nokeys", "own-manual")):
        for at in [*range(0, 75), None]:
            for deletes in (False, True):
                for decoys in (False, True):
                    cs.append((e, at, (), deletes, decoys, 0))
    # every content, in every order
    n = 3 if tier == "thorough" else 2
    for k in range(n + 1):
        for e in itertools.permutations(ENTRIES, k):
            for v in [()] + [(x,) for x in e]:
                for at in (4, None) if k < 3 else (4,):
                    cs.append((e, at, v, False, False, 0))
    if tier == "thorough":
        for e in itertools.permutations(ENTRIES, 2):
            for at in range(0, 75, 3):
                for deletes in (False, True):
                    cs.append((e, at, (), deletes, False, 0))
    # polls that fail
    for e in ((), ("own-old", "other")):
        for f in range(1, 8):
            for at in (4, 8, None):
                cs.append((e, at, (), False, False, f))
    core.cases(rep, "requests", job, [cs[i::64] for i in range(64)])
    rep.add(states=len(cs))
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.cov["bounds"] = f"{len(ENTRIES)} kinds of entries, ordered contents up to {n}, answers at every interaction"


def replay(r):
    env.boot(chunk=4)
    env.set_chunk(4)
    world.quiet_sync()
    env.own_time()

    def tup(x):
        return tuple(map(tup, x)) if isinstance(x, list) else x

    rc = 0
    for c in r["case"]:
        try:
            one(tup(c))
        except Violation as v:
            print("reproduced:", v)
            rc = 1
    return rc
