"""Concurrent commands as real processes under the controlled scheduler."""
import os
import time

from . import core, env, proc, scen
from .core import Violation


class Cmd:
    """A command of a concurrent scenario. prep(p, i) -> callable."""

    def __init__(self, name, prep, kind=None):
        self.name, self.prep, self.kind = name, prep, kind or name


def start(p, cmd, i):
    """What process number i does."""
    fn = cmd.prep(p, i)

    def run():
        env.uuids.prefix = f"p{'abcdef'[i]}"
        env.clock.t += 1 + i * 7
        return fn()

    return run


def run_concurrent(p, cmds, ch, steps=None):
    vals, trace = proc.schedule([start(p, c, i) for i, c in enumerate(cmds)], p.box.base, ch, steps=steps)
    return vals, trace


def run_sequential(p, cmds, order):
    """The commands one after another, in the same kind of processes."""
    vals = {}
    t, n = env.clock.t, env.uuids.n
    for i in order:
        env.clock.t, env.uuids.n = t, n
        r = proc.child(start(p, cmds[i], i))
        vals[i] = r.value
    return vals


class Bounded:
    """Choice function: deviations are preemptions; the order in which the
    processes start is free (it is part of the job)."""

    def __init__(self, prefix):
        self.inner = core.Choices(prefix)
        self.trace = self.inner.trace

    def __call__(self, n, label=""):
        return self.inner(n, label)


def explore(run, bound, first, deadline=None, part=(0, 1), coarse=False):
    """All schedules with at most `bound` preemptions in which process `first`
    starts. Switching after a process ended or blocked costs nothing, and all
    alternatives are tried there. part=(i, n): only the first deviations whose
    position is i modulo n (and, for i = 0, the undisturbed schedule)."""
    stack = [([first], 0)]
    runs = 0
    while stack:
        prefix, cost = stack.pop()
        ch = core.Choices(prefix)
        run(ch, (len(prefix) == 1 and part[0] != 0))
        runs += 1
        base = [a for _, _, a in ch.trace]
        for i in range(len(ch.trace) - 1, max(len(prefix), 1) - 1, -1):
            label, n, _ = ch.trace[i]
            c = cost + (label[0] == "p")
            if c > bound:
                continue
            if coarse and label[2] and not metadata_point(label[2]):
                continue
            if len(prefix) == 1 and i % part[1] != part[0]:
                continue
            for alt in range(n - 1, 0, -1):
                stack.append((base[:i] + [alt], c))
        if deadline and core._wall() > deadline:
            return runs, True
    return runs, False


def metadata_point(at):
    """Locks and revision metadata."""
    name = os.path.basename(at[1])
    return name.startswith(".") or name.endswith(".rev") or name == "start"


def describe(cmds, trace):
    return " ".join(f"[{cmds[i].name} from {at[0]} {os.path.basename(at[1])}]" if at else f"[{cmds[i].name}]" for i, at in trace)
