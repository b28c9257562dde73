"""A repository for one RBD image (or one plain file) inside a scratch
directory, driven through backy's public commands, plus capture/restore of its
complete on-disk state for explicit-state search."""
import asyncio
import os
import sys
import time
from pathlib import Path

import yaml

from . import ceph, env

IMG = "pool/img"
SCHEDULE = {"daily": {"interval": "1d", "keep": 2}, "weekly": {"interval": "7d", "keep": 2}}


class Box:
    """One scratch world: repo directory + fake Ceph."""

    def __init__(self, typ="rbd", schedule=None, source_extra=None, version="nautilus", obj=4,
                 diff_mode="extent", name="job", sub=None):
        self.root = env.fresh_dir("box")
        self.base = self.root / "base"
        self.base.mkdir()
        self.repo = self.base / name
        self.repo.mkdir()
        self.typ = typ
        self.ceph = ceph.Ceph(self.root / "ceph", version, obj, diff_mode)
        self.world = ceph.install(ceph.World(self.ceph))
        self.schedule = schedule or SCHEDULE
        self.srcfile = self.root / "source.img"
        src = (
            {"type": "rbd", "pool": "pool", "image": "img"}
            if typ == "rbd"
            else {"type": "file", "filename": str(self.srcfile)}
        )
        src.update(source_extra or {})
        self.config = {"path": str(self.repo), "source": src, "schedule": self.schedule}
        (self.repo / "config").write_text(yaml.safe_dump(self.config))
        if typ == "rbd":
            self.ceph.create(IMG, b"")
        self.model = {}  # uuid -> expected content

    def activate(self):
        ceph.FakePopen.world = self.world

    def close(self):
        env.rmtree(self.root)

    # -- source content
    def set_source(self, data):
        if self.typ == "rbd":
            self.ceph.set(IMG, data)
        else:
            self.srcfile.write_bytes(data)

    def source(self):
        return self.ceph.get(IMG) if self.typ == "rbd" else self.srcfile.read_bytes()

    # -- direct API
    def repository(self, schedule=None):
        from backy.repository import Repository
        from backy.schedule import Schedule

        s = Schedule()
        s.configure(schedule or self.schedule)
        r = Repository(self.repo, s, env.log())
        r.connect()
        return r

    def cmdline(self):
        from backy.source import CmdLineSource

        return CmdLineSource.load(self.repo, env.log())

    # -- the command line client, in process
    def cli(self, *args):
        return run_cli(["-C", str(self.repo), *args])

    def backup(self, tags="manual:t"):
        """Run `backy backup`; returns (exit code, uuid or None)."""
        before = {p.name for p in self.repo.glob("*.rev")}
        rc = self.cli("backup", tags)[0]
        new = [p.name for p in self.repo.glob("*.rev") if p.name not in before]
        return rc, (new[0].removesuffix(".rev") if new else None)

    def revs(self):
        """All revision metadata, read independently of backy: uuid -> dict."""
        out = {}
        for p in sorted(self.repo.glob("*.rev")):
            if p.is_symlink():
                continue
            d = yaml.safe_load(p.read_text())
            out[p.name.removesuffix(".rev")] = d
        return out

    def complete(self):
        return {
            u: d for u, d in self.revs().items()
            if d and "duration" in (d.get("stats") or {}) and not d.get("server")
        }

    def restore(self, uuid, target=None, backend="python", pre=None):
        """Restore through the CLI; returns (exit code, bytes or None)."""
        t = target or (self.root / "restored")
        if target is None:
            if pre is None:
                t.unlink(missing_ok=True)
            else:
                t.write_bytes(pre)
        args = ["restore", "-r", uuid, self.typ]
        if self.typ == "rbd":
            args += ["--backend", backend]
        rc, _ = self.cli(*args, str(t))
        return rc, (t.read_bytes() if t.exists() else None)

    # -- whole-state capture
    def capture(self):
        st = {}
        base = str(self.base)
        for path in sorted(walk_files(base)):
            k = path[len(base) + 1 :]
            if os.path.islink(path):
                st[k] = ("l", os.readlink(path))
                continue
            with open(path, "rb") as f:
                b = f.read()
                mode = os.fstat(f.fileno()).st_mode & 0o7777
            if k.endswith("/config"):  # holds the absolute path of this box
                b = b.replace(os.fsencode(self.root), b"@ROOT@")
            st[k] = ("f", b, mode)
        return (st, self.ceph.capture() if self.typ == "rbd" else self.srcfile_bytes(),
                env.clock.t, env.uuids.n)

    def srcfile_bytes(self):
        return self.srcfile.read_bytes() if self.srcfile.exists() else None

    def load(self, snap):
        st, c, t, n = snap
        env.clock.t, env.uuids.n = t, n
        base = str(self.base)
        for path in walk_files(base):
            if path[len(base) + 1 :] not in st:
                os.unlink(path)
        for k, v in st.items():
            p = os.path.join(base, k)
            if v[0] == "l":
                if not os.path.islink(p):
                    os.symlink(v[1], p)
                continue
            if k.endswith("/config"):
                v = ("f", v[1].replace(b"@ROOT@", os.fsencode(self.root)), v[2])
            try:
                with open(p, "rb") as f:
                    if f.read() == v[1] and os.fstat(f.fileno()).st_mode & 0o7777 == v[2]:
                        continue
                os.unlink(p)
            except FileNotFoundError:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v[1])
            os.chmod(p, v[2])
        if self.typ == "rbd":
            self.ceph.restore_state(c, [IMG])
        elif c is None:
            self.srcfile.unlink(missing_ok=True)
        else:
            self.srcfile.write_bytes(c)

    def chunk_files(self):
        d = self.repo / "chunks"
        if not d.exists():
            return {}
        return {os.path.basename(p).removesuffix(".chunk.lzo"): Path(p)
                for p in walk_files(str(d)) if p.endswith(".chunk.lzo")}

    def mapping(self, uuid):
        import json

        return json.loads((self.repo / uuid).read_text())


def walk_files(d):
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False):
            yield from walk_files(e.path)
        else:
            yield e.path


def run_cli(argv):
    """backy.cli.main() in process. Returns (exit status, stdout)."""
    import backy.cli

    old = sys.argv
    sys.argv = ["backy", *map(str, argv)]
    try:
        with env.Quiet() as q:
            try:
                backy.cli.main()
                rc = 0
            except SystemExit as e:
                rc = e.code
                if rc is None:
                    rc = 0
                elif not isinstance(rc, int):
                    rc = 1
        return rc, q.out.getvalue()
    finally:
        sys.argv = old


_synced = [0]


def quiet_sync():
    """os.sync() is global to the machine; count it instead."""

    def sync():
        _synced[0] += 1

    os.sync = sync
