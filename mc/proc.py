"""Commands as real processes under the system call interposer (mc/shim.c):
recording, killing, failing and scheduling their file system operations."""
import ctypes
import gc
import mmap
import os
import pickle
import select
import signal
import socket
import sys
import traceback

from . import ceph, env
from .core import Divergence

RECORD, KILL, FAIL, SCHED = 1, 2, 3, 4
MID, STICKY, SHORT, LIST = 1, 2, 4, 8

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None, use_errno=True)
        _lib.mc_arm.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int,
                                ctypes.c_int, ctypes.c_void_p]
        _lib.mc_count.restype = ctypes.c_long
        _lib.mc_point.argtypes = [ctypes.c_char_p]
    return _lib


def available():
    try:
        lib().mc_arm
        return True
    except AttributeError:
        return False


class Result:
    """How a child ended. killed: by the explorer; value: what fn returned."""

    def __init__(self, status, value, log, count):
        self.killed = os.WIFSIGNALED(status)
        self.sig = os.WTERMSIG(status) if self.killed else 0
        self.value, self.log, self.count = value, log, count

    def __repr__(self):
        return f"killed({self.sig})" if self.killed else f"value={self.value!r}"


def parse_log(raw):
    out, i = [], 0
    while i < len(raw):
        fields = []
        for _ in range(5):
            j = raw.index(b"\0", i)
            fields.append(raw[i:j])
            i = j + 1
        n = int(fields[4])
        out.append((fields[0].decode(), os.fsdecode(fields[1]), os.fsdecode(fields[2]), int(fields[3]), raw[i : i + n]))
        i += n
    return out


_memfds = {}


def _memfd(name):
    k = (os.getpid(), name)
    if k not in _memfds:
        _memfds[k] = os.memfd_create(name)
    fd = _memfds[k]
    os.ftruncate(fd, 0)
    os.lseek(fd, 0, 0)
    return fd


def _readall(fd):
    n = os.fstat(fd).st_size
    return os.pread(fd, n, 0) if n else b""


def child(fn, mode=0, prefix="", k=0, err=0, flags=0):
    """Run fn() in a forked process with the interposer armed."""
    logfd = _memfd("log") if mode in (RECORD,) or flags & LIST else -1
    resfd = _memfd("res")
    counter = mmap.mmap(-1, 8)
    pid = os.fork()
    if not pid:
        _child_main(fn, mode, str(prefix), k, err, flags, logfd, resfd, counter)
    _, status = os.waitpid(pid, 0)
    log = parse_log(_readall(logfd)) if logfd >= 0 else []
    raw = _readall(resfd)
    val = None
    if raw and not os.WIFSIGNALED(status):
        val = pickle.loads(raw)
        if isinstance(val, tuple) and val and val[0] == "!exc":
            raise RuntimeError(f"child failed: {val[1]}")
        val, env.clock.t, env.uuids.n = val
    count = int.from_bytes(counter[:8], "little")
    counter.close()
    if not os.WIFSIGNALED(status) and not raw:
        raise RuntimeError(f"child vanished: {status}")
    if os.WIFSIGNALED(status):
        env.clock.t += 1000
        env.uuids.n += 1000
        if os.WTERMSIG(status) != signal.SIGKILL:
            raise RuntimeError(f"child died of signal {os.WTERMSIG(status)}")
    return Result(status, val, log, count)


def _child_main(fn, mode, prefix, k, err, flags, logfd, resfd, counter):
    gc.disable()
    try:
        shared = ctypes.addressof(ctypes.c_long.from_buffer(counter)) if counter is not None else None
        l = lib()
        if mode:
            l.mc_arm(mode, os.fsencode(prefix), k, err, flags, logfd, shared)
        if mode == SCHED:
            l.mc_point(b"start")
        try:
            val = fn()
        finally:
            l.mc_disarm()
        res = (val, env.clock.t, env.uuids.n)
    except BaseException as e:
        res = ("!exc", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
    os.pwrite(resfd, pickle.dumps(res), 0)
    os._exit(0)


def cut():
    """Make subsequent code in this process invisible to the interposer."""
    lib().mc_disarm()


# ---------------------------------------------------------------- scheduling


class Proc:
    def __init__(self, name, fn, prefix):
        self.name = name
        a, b = socket.socketpair()
        self.resfd = os.memfd_create("r")
        self.pid = os.fork()
        if not self.pid:
            a.close()
            _child_main(fn, SCHED, str(prefix), 0, 0, 0, b.fileno(), self.resfd, None)
        b.close()
        self.sock = a
        self.buf = b""
        self.at = None  # pending point
        self.blocked = False
        self.done = False
        self.value = None
        self.receive()

    def receive(self):
        """Wait until the process announces its next operation or ends."""
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.sock], [], [], 120)
            if not r:
                raise RuntimeError(f"{self.name} does not answer at {self.at}")
            d = self.sock.recv(65536)
            if not d:
                self.finish()
                return
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        kind, op, path = line.decode().split(" ", 2)
        self.blocked = kind == "blocked"
        self.at = (op, path)

    def finish(self):
        self.done = True
        self.at = None
        self.blocked = False
        self.sock.close()
        os.waitpid(self.pid, 0)
        raw = _readall(self.resfd)
        os.close(self.resfd)
        if not raw:
            raise RuntimeError(f"{self.name} vanished")
        val = pickle.loads(raw)
        if val[0] == "!exc":
            raise RuntimeError(f"{self.name} failed: {val[1]}")
        self.value = val[0]

    def step(self):
        self.sock.send(b"g")
        self.receive()

    def kill(self):
        if not self.done:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.sock.close()
            os.close(self.resfd)
            self.done = True


class Stuck(Exception):
    pass


def schedule(fns, prefix, ch, max_steps=20000, label=lambda at: at, steps=None):
    """Run fns as processes, one at a time, switching only where the choice
    function says so. ch(n, label) is asked at every operation while more than
    one process could run; answer 0 continues the running one. After the
    running process ended or blocked, answer 0 takes the next one in order (no
    preemption), further answers the others. Returns the values and the trace.
    Every operation is appended to steps."""
    procs = []
    trace = []
    try:
        for i, fn in enumerate(fns):
            procs.append(Proc(f"P{i}", fn, prefix))
        cur = None
        waiting = set()  # blocked since the last progress of anyone else
        retried = False
        for _ in range(max_steps):
            run = [i for i, p in enumerate(procs) if not p.done and i not in waiting]
            if not run:
                if all(p.done for p in procs):
                    return [p.value for p in procs], trace
                if retried:
                    raise Stuck([(p.name, p.at) for p in procs if not p.done])
                retried = True
                waiting.clear()
                continue
            forced = cur not in run
            order = run if forced else [cur] + [i for i in run if i != cur]
            a = 0
            if len(order) > 1:
                a = ch(len(order), ("f" if forced else "p", cur, label(procs[order[0]].at)))
            i = order[a]
            if i != cur:
                trace.append((i, procs[i].at))
            p = procs[i]
            cur = i
            unlocking = p.at and p.at[0] == "unlock"
            at = p.at
            p.step()
            if p.blocked:
                waiting.add(i)
            else:
                if steps is not None:
                    steps.append((i, at))
                retried = False
                if unlocking or p.done:  # whoever waits for a lock may try again
                    waiting.clear()
        raise RuntimeError("too many steps")
    finally:
        for p in procs:
            p.kill()
