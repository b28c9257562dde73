"""Bootstrap shared by all checks: make /repo/src importable exactly as it is
now, own the sources of nondeterminism (clock, sleeping, ids, randomness), and
keep every file effect in a scratch directory.
"""
import atexit
import datetime
import io
import os
import random
import shutil
import sys
import tempfile
import time as _time
import tomllib
from pathlib import Path

REPO = Path(os.environ.get("BACKY_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
SHM = Path("/dev/shm") if os.access("/dev/shm", os.W_OK) else Path("/tmp")
EPOCH = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)

_scratch_root = None
_owner_pid = None


def scratch_root() -> Path:
    """One scratch root per check run, removed at exit of the process that made it."""
    global _scratch_root, _owner_pid
    if _scratch_root is None:
        _scratch_root = Path(tempfile.mkdtemp(prefix="backymc.", dir=SHM))
        _owner_pid = os.getpid()
        atexit.register(_cleanup)
    return _scratch_root


def _cleanup():
    if os.getpid() == _owner_pid and _scratch_root:
        root = str(_scratch_root)
        assert root.startswith(str(SHM) + "/backymc."), root
        shutil.rmtree(root, ignore_errors=True)


_counter = 0


def fresh_dir(tag="d") -> Path:
    global _counter
    _counter += 1
    p = scratch_root() / f"{tag}.{os.getpid()}.{_counter}"
    p.mkdir()
    return p


def rmtree(p):
    p = str(p)
    assert p.startswith(str(scratch_root()) + "/"), p
    shutil.rmtree(p, ignore_errors=True)


def _make_dist_info() -> Path:
    """backy finds its source plugins through package metadata. Generate the
    entry points from the current pyproject.toml."""
    d = scratch_root() / "meta"
    info = d / "backy-0.dist-info"
    info.mkdir(parents=True)
    with open(REPO / "pyproject.toml", "rb") as f:
        poetry = tomllib.load(f)["tool"]["poetry"]
    out = []
    for group, eps in poetry.get("plugins", {}).items():
        out.append(f"[{group}]")
        out += [f"{k} = {v}" for k, v in eps.items()]
    out.append("[console_scripts]")
    out += [f"{k} = {v}" for k, v in poetry.get("scripts", {}).items() if isinstance(v, str)]
    (info / "entry_points.txt").write_text("\n".join(out) + "\n")
    (info / "METADATA").write_text("Metadata-Version: 2.1\nName: backy\nVersion: 0\n")
    return d


class Clock:
    """Virtual wall clock. `now()` backs backy.utils.now, time.time and sleeping."""

    def __init__(self):
        self.t = 0.0
        self.step = 0.0  # advance per now() call

    def now(self):
        self.t += self.step
        return EPOCH + datetime.timedelta(seconds=self.t)

    def time(self):
        return (EPOCH + datetime.timedelta(seconds=self.t)).timestamp()

    def sleep(self, s):
        self.t += s


clock = Clock()
_real_sleep = _time.sleep


class UUIDs:
    """Deterministic 22 character ids over shortuuid's alphabet."""

    ALPH = "23456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

    def __init__(self):
        self.n = 0
        self.prefix = ""

    def __call__(self, *a, **k):
        self.n += 1
        n, s = self.n, ""
        for _ in range(8):
            s = self.ALPH[n % len(self.ALPH)] + s
            n //= len(self.ALPH)
        return (self.prefix + "mcmcmcmcmcmcmcmcmcmcmc")[: 22 - 8] + s


uuids = UUIDs()


class NullLogger:
    """Stand-in for a structlog logger; remembers events for diagnostics."""

    def __init__(self, ctx=None):
        self._context = ctx or {}

    def bind(self, **kw):
        return NullLogger({**self._context, **kw})

    new = bind

    def unbind(self, *a):
        return self

    def _ev(self, *a, **kw):
        if os.environ.get("MC_LOG"):
            kw.pop("_fmt_msg", None)
            print("   log:", a, kw, file=sys.__stderr__)
            if kw.get("exc_info") or (sys.exc_info()[0] and a and "fail" in str(a[0])):
                import traceback

                traceback.print_exc(file=sys.__stderr__)

    debug = info = warn = warning = error = critical = msg = _ev

    def exception(self, *a, **kw):
        if os.environ.get("MC_LOG"):
            import traceback

            print("   log:", a, file=sys.__stderr__)
            traceback.print_exc(file=sys.__stderr__)


_booted = False


def boot(chunk=None, fast=True):
    """Import backy from REPO, replace clocks/ids/logging. Idempotent."""
    global _booted
    if _booted:
        return
    _booted = True
    sys.dont_write_bytecode = True
    src = str(REPO / "src")
    meta = str(_make_dist_info())
    sys.path[:] = [p for p in sys.path if "/opt/vp/meta" not in p and p != src]
    sys.path[0:0] = [src, meta]
    os.environ.setdefault("TZ", "UTC")
    import structlog

    structlog.configure(
        processors=[], wrapper_class=None, logger_factory=lambda *a: NullLogger(),
        cache_logger_on_first_use=False,
    )
    structlog.stdlib.get_logger = lambda *a, **kw: NullLogger(kw)
    structlog.get_logger = structlog.stdlib.get_logger
    import backy.logging

    assert backy.logging.__file__.startswith(src + "/"), backy.logging.__file__
    backy.logging.init_logging = lambda *a, **kw: None
    if fast:
        _speedups()
    import backy.utils

    backy.utils.log = NullLogger()
    backy.utils.now = clock.now
    import shortuuid

    shortuuid.uuid = uuids
    import backy.cli
    import backy.daemon
    import backy.file
    import backy.rbd
    import backy.rbd.rbd
    import backy.repository
    import backy.revision
    import backy.schedule
    import backy.source

    _time.sleep = clock.sleep
    backy.rbd.rbd.CEPH_RBD_SUPPORTS_WHOLE_OBJECT_DIFF = True
    if chunk:
        set_chunk(chunk)


def _speedups():
    """Same behaviour, less time: libyaml instead of pure Python yaml, and no
    exception round trip for mkdir(exist_ok=True) on existing directories."""
    import yaml

    if hasattr(yaml, "CSafeLoader"):
        yaml.safe_load = lambda stream: yaml.load(stream, Loader=yaml.CSafeLoader)

        def safe_dump(data, stream=None, **kw):
            return yaml.dump_all([data], stream, Dumper=yaml.CSafeDumper, **kw)

        yaml.safe_dump = safe_dump
    real_mkdir = Path.mkdir

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if exist_ok and os.path.isdir(self):
            return
        return real_mkdir(self, mode, parents, exist_ok)

    Path.mkdir = mkdir


def own_time():
    """Route time.time() to the virtual clock as well (statistics only)."""
    _time.time = clock.time


def set_chunk(n, flush_target=None):
    from backy.rbd.chunked import Chunk, File

    Chunk.CHUNK_SIZE = n
    if flush_target:
        File.flush_target = flush_target


def log():
    return NullLogger()


class Quiet:
    """Swallow Python level stdout/stderr of the code under test."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        if not os.environ.get("MC_LOG"):
            sys.stderr = io.StringIO()
        self.out = sys.stdout
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
