"""C07: garbage collection, checked after every step of every operation history
against an independent mark (reading the mapping files directly)."""
import json

from .. import core, env, hist, world
from ..core import Violation
from . import c01

IMAGES = {"A": b"AAAABBBB", "B": b"AAAACCCC", "C": b"CCCCDDDDAAAA", "H": b"\0\0\0\0EEEE"}


def referenced(b):
    """Chunks needed by present local revisions."""
    used = set()
    for u, d in b.revs().items():
        if d.get("server"):
            continue
        p = b.repo / u
        if p.exists():
            used |= set(json.loads(p.read_text())["mapping"].values())
    return used


class Space(c01.Space):
    def __init__(self, typ="rbd", ops=None, **kw):
        super().__init__(typ=typ, images="AB", **kw)
        self.oplist = ops

    def ops(self, st, hist_):
        _, model, n = st
        out = []
        for o in self.oplist:
            if not model and not o.startswith(("backup", "killed", "remote", "gc")):
                continue
            if o.startswith("rm:last") and len(model) < 2:
                continue
            if hist_ and hist_[-1] == o and not o.startswith("backup"):
                continue
            out.append(o)
        return out

    def step(self, st, op, hist_):
        b = self.get()
        snap, model, n = st
        b.load(snap)
        model = dict(model)
        kind, _, arg = op.partition(":")
        env.clock.t += 60
        before_revs = {u: hist.norm(d) for u, d in b.revs().items()}
        if kind == "backup":
            env.clock.t += 86400
            b.set_source(IMAGES[arg])
            rc, u = b.backup("daily")
            if rc or not u:
                raise Violation("backup-failed", f"{hist_} {op}: rc={rc}")
            model[u] = IMAGES[arg]
        elif kind == "rm":
            u = list(model)[0 if arg == "first" else -1]
            b.cli("rm", "-r", u)
            del model[u]
        elif kind == "expire":
            b.cli("gc", "--expire", "--local")
            have = b.complete()
            model = {u: c for u, c in model.items() if u in have}
        elif kind == "untag":
            # not expired yet
            b.cli("tags", "remove", "-r", list(model)[0 if arg == "first" else -1], "daily")
        elif op == "killed:early":
            # killed before it stored anything
            env.clock.t += 86400
            hist.write_rev(b.repo, hist.uuid_of(n), env.clock.now(), {"daily"}, clean=False)
        elif kind == "killed":
            # a backup that was killed after writing its data: revision present, not complete
            env.clock.t += 86400
            b.set_source(IMAGES[arg])
            rc, u = b.backup("daily")
            d = b.revs()[u]
            p = b.repo / f"{u}.rev"
            hist.write_rev(b.repo, u, d["timestamp"], d["tags"], clean=False)
            if b.typ == "rbd":
                for f in (b.repo / "last", b.repo / "last.rev"):
                    f.unlink(missing_ok=True)
        elif kind == "remote":
            hist.write_rev(b.repo, hist.uuid_of(n), env.clock.now(), {"daily"}, server="other", orig={"daily"})
        elif kind == "unrelated":
            (b.repo / ("x" * 22)).mkdir(exist_ok=True)
        elif kind == "distrust":
            b.cli("distrust")
        elif kind == "verify":
            b.cli("verify", "-r", "all" if arg else list(model)[-1])
        elif kind == "gc":
            files_before = {p.name for p in b.repo.iterdir() if p.is_file() and len(p.name) == 22}
            need = referenced(b) if b.typ == "rbd" else set()
            missing_before = need - set(b.chunk_files())
            rc, _ = b.cli("gc")
            if rc:
                raise Violation("gc-failed", f"{hist_} {op}: rc={rc}")
            after = {u: hist.norm(d) for u, d in b.revs().items()}
            if after != before_revs:
                raise Violation("gc-changed-metadata", f"{hist_} {op}: {before_revs} -> {after}")
            if b.typ == "rbd":
                have = set(b.chunk_files())
                if need - have - missing_before:
                    raise Violation("gc-removed-needed", f"{hist_} {op}: {need - have}")
                if have - need:
                    raise Violation("gc-left-garbage", f"{hist_} {op}: {have - need}")
            else:
                files = {p.name for p in b.repo.iterdir() if p.is_file() and len(p.name) == 22}
                want = {u for u in b.revs() if not b.revs()[u].get("server")}
                if want & files_before - files:
                    raise Violation("gc-removed-needed", f"{hist_} {op}: {want & files_before - files}")
                if files - want:
                    raise Violation("gc-left-garbage", f"{hist_} {op}: {files - want}")
        have = b.complete()
        if set(have) != set(model):
            raise Violation("revisions-differ", f"{hist_} {op}: have {sorted(have)} want {sorted(model)}")
        c01.check_restores(b, model, f"{hist_} {op}")
        key = self.key(b, model)
        inc = sorted((str(d["server"]), d["trust"]) for u, d in b.revs().items() if u not in have)
        return core.digest((key, inc)), (b.capture(), model, n + 1), f"{kind}/{len(model)}"


RBD_OPS = ["backup:A", "backup:B", "backup:C", "rm:first", "rm:last", "gc", "expire", "killed:H", "killed:early", "remote", "verify:all", "distrust", "untag:last"]
FILE_OPS = ["backup:A", "backup:B", "rm:first", "rm:last", "gc", "expire", "killed:H", "killed:early", "remote", "unrelated", "untag:first"]
SPACES = {
    "rbd": lambda: Space(ops=RBD_OPS),
    "rbd-full": lambda: Space(ops=["backup:A", "backup:C", "rm:first", "rm:last", "gc", "killed:B", "killed:early", "untag:first"], always_full=True),
    "file": lambda: Space(typ="file", ops=FILE_OPS),
}


def run(rep, tier):
    c01.setup()
    depth = {"rbd": 4, "rbd-full": 4, "file": 5}
    if tier == "thorough":
        depth = {"rbd": 6, "rbd-full": 7, "file": 7}
    for name, mk in SPACES.items():
        s = mk()
        core.bfs(rep, name, s.init(), s.ops, s.step, depth[name], max_states=None if tier == "quick" else 40000,
                 deadline=None if tier == "quick" else 600)
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += ["chunk size reduced to 4 bytes; rbd is a stand-in"]


def replay(r):
    c01.setup()
    s = SPACES[r["space"]]()
    st = s.init()[0][1]
    try:
        for i, op in enumerate(r["history"]):
            _, st, o = s.step(st, op, tuple(r["history"][:i]))
            print(op, o)
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
