"""Daemon level harness: programs started through asyncio as coroutines on the
virtual-time loop."""
import asyncio
import itertools
import os

from . import env


class Proc:
    _pids = itertools.count(5000)

    def __init__(self, argv, handler):
        self.argv, self.pid, self.returncode = argv, next(self._pids), None
        self.terminated = False
        self.input = None
        self.started = env.clock.t
        self.ended = None
        self._exit = asyncio.get_running_loop().create_future()
        self._task = asyncio.get_running_loop().create_task(self._run(handler), name=f"proc-{self.pid}")

    async def _run(self, handler):
        rc = -9
        try:
            rc = await handler(self)
        except asyncio.CancelledError:
            rc = -15
        finally:
            self.returncode = rc or 0
            self.ended = env.clock.t
            if not self._exit.done():
                self._exit.set_result(self.returncode)

    async def wait(self):
        return await asyncio.shield(self._exit)

    async def communicate(self, input=None):
        self.input = input
        await self.wait()
        return b"", b""

    def _signal(self):
        if self.returncode is not None:
            raise ProcessLookupError()
        self.terminated = True
        self._task.cancel()

    def terminate(self):
        self._signal()

    kill = terminate

    def send_signal(self, s):
        self._signal()


class Programs:
    """All programs the daemon starts. handler: async f(proc) -> exit code"""

    def __init__(self):
        self.handler = None
        self.procs = []
        self.on_start = None

    async def create(self, *argv, **kw):
        p = Proc([os.fspath(a) for a in argv], self.handler)
        self.procs.append(p)
        if self.on_start:
            self.on_start(p)
        return p

    def running(self):
        return [p for p in self.procs if p.returncode is None]


programs = Programs()


def install():
    asyncio.create_subprocess_exec = programs.create
    return programs


def new_programs():
    global programs
    programs = Programs()
    asyncio.create_subprocess_exec = programs.create
    return programs


def func_of(argv):
    """backy-<type> ... -C PATH <func> [uuid] -> (type, path, func, rest)"""
    t = os.path.basename(argv[0]).removeprefix("backy-")
    i = argv.index("-C")
    return t, argv[i + 1], argv[i + 2], argv[i + 3:]
