"""C02: the real chunked File against a plain byte array, for every operation
sequence up to a depth (breadth first, equal states merged), at chunk size 4."""
import copy
import io
import os

from .. import core, env
from ..core import Violation

DATA = b"abcdefghijklmnop"
BASES = {"empty": b"", "short": b"012", "two": b"01234567", "odd": b"0123456789A"}


def setup(ft):
    env.boot(chunk=4)
    env.set_chunk(4, ft)


_stores = {}


class Space:
    def __init__(self, base, ft, writes, seeks):
        self.base = BASES[base]
        self.ft = ft
        self.oplist = (
            [("seek", o) for o in seeks] + [("write", n) for n in writes] + [("zero", 4), ("zero", 2)]
            + [("read", 1), ("read", 5), ("read", -1)]
            + [("trunc", None), ("flush", None), ("reopen", None), ("end", 0), ("cur", 1), ("cur", -1), ("tr", 3), ("tr", 4)]
        )

    def dir(self):
        d = env.scratch_root() / f"c02.{os.getpid()}"
        if not d.exists():
            d.mkdir()
        return d

    def store(self):
        """A fresh store object (creating one checks 256 directories)."""
        from backy.rbd.chunked import Store

        key = (os.getpid(), str(self.dir()))
        if key not in _stores:
            _stores.clear()
            _stores[key] = Store(self.dir() / "chunks", env.log())
        return copy.deepcopy(_stores[key])

    def start(self):
        from backy.rbd.chunked import File

        env.set_chunk(4, self.ft)
        d = self.dir()
        store = self.store()
        b = d / f"base{len(self.base)}"
        if not b.exists():
            with File(b, store, "rw") as f:
                f.write(self.base)
        img = d / "img"
        img.write_bytes(b.read_bytes())
        return d, File(img, self.store(), "rw"), bytearray(self.base)

    def step(self, st, op, hist):
        from backy.rbd.chunked import File

        d, f, model = self.start()
        pos = 0
        for o, a in (*hist, op):
            if o == "seek":
                pos = a
                if pos > len(model):
                    model.extend(bytes(pos - len(model)))
                r = f.seek(a)
                self.want(hist, op, "seek result", r, pos)
            elif o == "end":
                pos = len(model)
                self.want(hist, op, "seek result", f.seek(0, io.SEEK_END), pos)
            elif o == "cur":
                if pos + a < 0:
                    continue
                pos += a
                if pos > len(model):
                    model.extend(bytes(pos - len(model)))
                self.want(hist, op, "seek result", f.seek(a, io.SEEK_CUR), pos)
            elif o in ("write", "zero"):
                b = DATA[:a] if o == "write" else bytes(a)
                if pos > len(model):
                    model.extend(bytes(pos - len(model)))
                    f.seek(pos)
                model[pos : pos + len(b)] = b
                pos += len(b)
                f.write(b)
            elif o == "read":
                w = bytes(model[pos:] if a == -1 else model[pos : pos + a])
                self.want(hist, op, f"read({a})", f.read(a), w)
                pos += len(w)
            elif o == "trunc":
                del model[pos:]
                f.truncate()
            elif o == "tr":
                if a > len(model) or pos > a:
                    continue
                del model[a:]
                f.truncate(a)
            elif o == "flush":
                f.flush()
            elif o == "reopen":
                f.close()
                pos = 0
                f = File(d / "img", self.store(), "rw")
            self.want(hist, op, "position", f.tell(), pos)
            self.want(hist, op, "size", f.size, len(model))
        try:
            v = dict(vars(f))
            for k in ("store", "name", "stats"):
                v.pop(k, None)
            acc = v.pop("_access_stats", {})
            v["chunks"] = sorted((i, c.hash, c.clean, c.data and c.data.getvalue()) for i, c in v.pop("_chunks").items())
            v["rank"] = sorted(acc, key=lambda i: acc[i])
            v["mode"] = "".join(sorted(v.get("mode", "")))
            key = core.digest((sorted(v.items(), key=str), (d / "img").read_bytes()))
        except Exception:
            key = str((*hist, op))
        f.close()
        for name, want in ((d / "img", bytes(model)), (d / f"base{len(self.base)}", self.base)):
            with File(name, self.store(), "rb") as g:
                self.want(hist, op, f"content of {name.name} after closing", g.read(), want)
                g.seek(0, 2)
                self.want(hist, op, f"size of {name.name}", g.tell(), len(want))
                for o in (3, 4, len(want) - 1):
                    if 0 <= o <= len(want):
                        g.seek(o)
                        self.want(hist, op, f"{name.name} from {o}", g.read(6), want[o : o + 6])
        return key, None, f"{op[0]}/{len(model) % 5}"

    def want(self, hist, op, what, got, want):
        if got != want:
            raise Violation("differs", f"{what}: got {got!r} want {want!r} after {(*hist, op)}")

    def ops(self, st, hist):
        return [o for o in self.oplist if not (hist and hist[-1] == o and o[0] in ("flush", "reopen", "end", "seek", "trunc"))]

    def guarded(self, st, op, hist):
        try:
            return self.step(st, op, hist)
        except Violation:
            raise
        except Exception as e:
            raise Violation("raised", f"{type(e).__name__}: {e} after {(*hist, op)}")


SEEKS = (0, 2, 3, 4, 5, 8, 13)
WRITES = (1, 3, 4, 5, 9)
SPACES = {
    f"{b}/{ft}": (b, ft, WRITES, SEEKS) for b in BASES for ft in (1, 2, 10)
}


def run(rep, tier):
    setup(1)
    for name, a in SPACES.items():
        s = Space(*a)
        b, ft = a[:2]
        depth = (4 if (b, ft) in (("two", 1), ("odd", 2)) else 3) if tier == "quick" else (6 if ft == 1 else 5)
        core.bfs(rep, name, [("init", None)], s.ops, s.guarded, depth,
                 max_states=None if tier == "quick" else 100000)
        if rep.violations:
            break
    rep.cov["traces_validated_against_impl"] = rep.cov["transitions"]
    rep.assumptions += ["chunk size 4 bytes; cache limits 1, 2 and 10; truncation only to at most the current size"]


def replay(r):
    setup(1)
    s = Space(*SPACES[r["space"]])
    h = [tuple(o) for o in r["history"]]
    try:
        print(s.guarded(None, h[-1], tuple(h[:-1])))
    except Violation as v:
        print("reproduced:", v)
        return 1
    return 0
