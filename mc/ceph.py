"""A small, deterministic stand-in for the external programs backy calls:
`rbd` (Ceph CLI) and its own `backy-<type>` helpers (run in this process
through their public main()). Installed by replacing subprocess.Popen.

State lives in a directory so several processes can share it.
"""
import errno
import io
import json
import os
import struct
import subprocess
from pathlib import Path

REAL_POPEN = subprocess.Popen


class RBDExit(Exception):
    def __init__(self, code, out=b""):
        self.code = code
        self.out = out


class Ceph:
    """One pool of images with snapshots."""

    def __init__(self, root, version="nautilus", obj=4, diff_mode="extent"):
        self.root = Path(root)
        self.root.mkdir(exist_ok=True)
        self.version = version
        self.obj = obj
        self.diff_mode = diff_mode  # extent | object | data | whole
        self.calls = []  # argv of every rbd call
        self.on_call = None  # fault / scheduling hook: f(kind, argv, output) -> output or raise
        self.before_call = None

    # -- state
    def _img(self, name):
        return self.root / ("img:" + name.replace("/", ":"))

    def _snapdir(self, name):
        return self.root / ("snaps:" + name.replace("/", ":"))

    def create(self, name, data=b""):
        self._img(name).write_bytes(data)
        self._snapdir(name).mkdir(exist_ok=True)

    def set(self, name, data):
        self._img(name).write_bytes(data)

    def get(self, name):
        return self._img(name).read_bytes()

    def snaps(self, name):
        d = self._snapdir(name)
        return sorted((p.name for p in d.iterdir()), key=lambda n: n.split("#", 1)[0])

    def snap_names(self, name):
        return [s.split("#", 1)[1] for s in self.snaps(name)]

    def snap_path(self, name, snap):
        for s in self.snaps(name):
            if s.split("#", 1)[1] == snap:
                return self._snapdir(name) / s
        return None

    def snap_data(self, name, snap):
        p = self.snap_path(name, snap)
        return p.read_bytes() if p else None

    def snap_create(self, name, snap):
        if not self._img(name).exists():
            raise RBDExit(2)
        if self.snap_path(name, snap):
            raise RBDExit(17)
        ids = [int(s.split("#", 1)[0]) for s in self.snaps(name)]
        n = max(ids, default=0) + 1
        (self._snapdir(name) / f"{n:06d}#{snap}").write_bytes(self.get(name))

    def snap_rm(self, name, snap):
        p = self.snap_path(name, snap)
        if not p:
            raise RBDExit(2)
        for m in self.mappings():
            if f"{m['pool']}/{m['name']}" == name and m["snap"] == snap:
                raise RBDExit(16)
        p.unlink()

    def mappings(self):
        f = self.root / "mapped"
        return json.loads(f.read_text()) if f.exists() else []

    def _save_mappings(self, m):
        (self.root / "mapped").write_text(json.dumps(m))

    # -- state capture for explicit-state search
    def capture(self):
        return {
            str(p.relative_to(self.root)): p.read_bytes()
            for p in sorted(self.root.rglob("*"))
            if p.is_file()
        }

    def restore_state(self, st, images=()):
        for p in sorted(self.root.rglob("*")):
            if p.is_file() and str(p.relative_to(self.root)) not in st:
                p.unlink()
        for k, v in st.items():
            p = self.root / k
            p.parent.mkdir(exist_ok=True)
            p.write_bytes(v)
        for i in images:
            self._snapdir(i).mkdir(exist_ok=True)

    # -- the CLI
    @staticmethod
    def _split(spec):
        img, _, snap = spec.partition("@")
        return img, (snap or None)

    def cli(self, argv):
        """argv without the program name -> (stdout bytes)"""
        a = [x for x in argv if not x.startswith("--format")]
        if a == ["--version"]:
            return {
                "nautilus": b"ceph version 14.2.22 (ca74598) nautilus (stable)\n",
                "luminous": b"ceph version Development (no_version) luminous (stable)\n",
                "jewel": b"ceph version Development (no_version)\n",
            }[self.version]
        if a[0] == "help":
            return b"usage: rbd export-diff [--whole-object]\n"
        if a[0] == "info":
            img, snap = self._split(a[1])
            if not self._img(img).exists():
                raise RBDExit(2)
            if snap and not self.snap_path(img, snap):
                raise RBDExit(2)
            return json.dumps({"name": img, "size": len(self.get(img))}).encode()
        if a[0] == "snap":
            if a[1] == "ls":
                if not self._img(a[2]).exists():
                    raise RBDExit(2)
                return json.dumps(
                    [
                        {"id": int(s.split("#")[0]), "name": s.split("#", 1)[1], "size": 0}
                        for s in self.snaps(a[2])
                    ]
                ).encode()
            img, snap = self._split(a[2])
            if a[1] == "create":
                self.snap_create(img, snap)
                return b""
            if a[1] == "rm":
                self.snap_rm(img, snap)
                return b""
        if a[0] == "map":
            img, snap = self._split(a[1])
            p = self.snap_path(img, snap) if snap else self._img(img)
            if not p or not p.exists():
                raise RBDExit(2)
            pool, name = img.split("/")
            m = self.mappings()
            ids = {int(x["id"]) for x in m}
            n = next(i for i in range(1000) if i not in ids)
            dev = self.root / f"dev{n}"
            dev.write_bytes(p.read_bytes())
            m.append(
                {"id": str(n), "pool": pool, "namespace": "", "name": name,
                 "snap": snap or "-", "device": str(dev)}
            )
            self._save_mappings(m)
            return b""
        if a[0] == "unmap":
            m = self.mappings()
            new = [x for x in m if x["device"] != a[1]]
            if len(new) == len(m):
                raise RBDExit(22)
            self._save_mappings(new)
            Path(a[1]).unlink(missing_ok=True)
            return b""
        if a[0] == "showmapped":
            m = self.mappings()
            if self.version == "nautilus":
                return json.dumps(m).encode()
            return json.dumps({x["id"]: x for x in m}).encode()
        if a[0] == "export":
            img, snap = self._split(a[1])
            d = self.snap_data(img, snap) if snap else self.get(img)
            if d is None:
                raise RBDExit(2)
            return d
        if a[0] == "export-diff":
            img, snap = self._split(a[1])
            old = a[a.index("--from-snap") + 1]
            new_d, old_d = self.snap_data(img, snap), self.snap_data(img, old)
            if new_d is None or old_d is None:
                raise RBDExit(2)
            return make_diff(old, snap, old_d, new_d, self.diff_mode, self.obj)
        raise AssertionError(f"fake rbd does not know {argv}")


def rec_str(t, s):
    s = s.encode()
    return t + struct.pack("<i", len(s)) + s


def make_diff(old_name, new_name, old, new, mode, obj):
    """rbd diff v1 between two snapshots."""
    out = [b"rbd diff v1\n", rec_str(b"f", old_name), rec_str(b"t", new_name),
           b"s" + struct.pack("<Q", len(new))]
    for off, ln in changed(old, new, mode, obj):
        d = new[off : off + ln]
        if mode != "data" and not d.strip(b"\0"):
            out.append(b"z" + struct.pack("<QQ", off, ln))
        else:
            out.append(b"w" + struct.pack("<QQ", off, ln) + d)
    out.append(b"e")
    return b"".join(out)


def changed(old, new, mode, obj):
    base = old[: len(new)].ljust(len(new), b"\0")
    if mode == "whole":
        if new != base:
            yield 0, len(new)
        return
    if mode in ("object", "data"):
        for off in range(0, len(new), obj):
            if new[off : off + obj] != base[off : off + obj]:
                yield off, len(new[off : off + obj])
        return
    i = 0
    while i < len(new):
        if len(new) > 65536 and i % 4096 == 0 and new[i : i + 4096] == base[i : i + 4096]:
            i += 4096
            continue
        if new[i] == base[i]:
            i += 1
            continue
        z = new[i] == 0
        j = i
        while j < len(new) and new[j] != base[j] and (new[j] == 0) == z:
            j += 1
            if j - i >= 1 << 20:
                break
        yield i, j - i
        i = j


# ---------------------------------------------------------------- Popen


class PipeEnd(io.RawIOBase):
    """The read end of a pipe: raw reads return whatever is available."""

    def __init__(self, data):
        self.data, self.pos = data, 0
        self.limit = 3 if len(data) < 4096 else 65536

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.limit, len(self.data) - self.pos)
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


class FakePopen:
    """Enough of subprocess.Popen for run/check_output/check_call/Popen users."""

    world = None  # object with .spawn(argv) -> (code, stdout bytes)

    def __init__(self, args, bufsize=-1, stdin=None, stdout=None, stderr=None, encoding=None,
                 errors=None, text=None, universal_newlines=None, **kw):
        if isinstance(args, (str, bytes)):
            args = [args]
        self.args = [os.fspath(a) for a in args]
        self.pid = 4242
        self.returncode = None
        self.stdin = self.stderr = None
        code, out = type(self).world.spawn(self.args)
        self._code = code
        b = PipeEnd(out)
        if bufsize != 0:
            b = io.BufferedReader(b)
        self._text = bool(encoding or text or universal_newlines)
        if self._text:
            b = io.TextIOWrapper(b, encoding=encoding or "utf-8", errors=errors or "strict")
        self.stdout = b if stdout == subprocess.PIPE else None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.stdout:
            self.stdout.close()
        self.wait()

    def communicate(self, input=None, timeout=None):
        out = self.stdout.read() if self.stdout else None
        self.wait()
        return out, None

    def wait(self, timeout=None):
        self.returncode = self._code
        return self._code

    def poll(self):
        return self.wait()

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass


class World:
    """Routes program names to stand-ins."""

    def __init__(self, ceph=None):
        self.ceph = ceph
        self.programs = {}
        self.log = []
        self.fault = None  # f(kind, argv, run) -> (code, out); run() -> (code, out)

    def spawn(self, argv):
        prog = os.path.basename(argv[0])
        if prog == "rbd":
            def run():
                try:
                    return 0, self.ceph.cli(argv[1:])
                except RBDExit as e:
                    return e.code, e.out
        elif prog in self.programs:
            def run():
                r = self.programs[prog](argv)
                return r if isinstance(r, tuple) else (r, b"")
        elif prog.startswith("backy-") and prog != "backy-extract":
            def run():
                return self.run_source(prog.removeprefix("backy-"), argv), b""
        else:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        self.log.append(tuple(argv))
        if self.fault:
            return self.fault(prog, argv, run)
        return run()

    def run_source(self, type_, argv):
        import backy.source

        cls = backy.source.factory_by_type(type_)
        try:
            rc = cls.main(*argv)
        except SystemExit as e:
            rc = e.code
        if rc is None:
            rc = 0
        return rc if isinstance(rc, int) else 1


def install(world):
    FakePopen.world = world
    subprocess.Popen = FakePopen
    return world
