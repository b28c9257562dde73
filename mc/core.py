"""Explorers, parallel execution, reporting.

* `Choices` + `explore_dfs`: stateless prefix-replay depth first search over
  the answers to `choose(n)`, bounded by the number of deviations from answer 0.
* `pmap`: run independent jobs (exhaustively enumerated cases, or subtrees of a
  search) in worker processes forked from the booted parent.
* `Report`: evidence, known findings, VIOLATION lines and replay files.
"""
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from pathlib import Path

from . import env

VERIF = env.VERIF
NPROC = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """A property was broken. `key` identifies the kind of failure and its
    input (for the known findings file), `detail` explains it."""

    def __init__(self, key, detail=""):
        super().__init__(f"{key}: {detail}")
        self.key = key
        self.detail = detail


class Divergence(Exception):
    """Replaying a recorded prefix did not meet the same choice points."""


class Choices:
    def __init__(self, prefix=(), bound=None):
        self.prefix = list(prefix)
        self.trace = []  # (label, n, answer)

    def __call__(self, n, label=""):
        i = len(self.trace)
        if i < len(self.prefix):
            a = self.prefix[i]
            if a >= n:
                raise Divergence(f"choice {i} ({label}): {a} of {n}")
        else:
            a = 0
        self.trace.append((label, n, a))
        return a


def explore_dfs(run, bound=None, prefix=(), limit=None, on_run=None, first_only=False):
    """Explore all answer sequences. run(ch) performs one execution.
    Deviations (answers != 0) are limited by `bound`. Returns number of runs."""
    stack = [list(prefix)]
    runs = 0
    while stack:
        p = stack.pop()
        ch = Choices(p)
        run(ch)
        runs += 1
        if on_run:
            on_run(ch)
        if limit and runs >= limit:
            return runs, bool(stack)
        cost = sum(1 for a in p if a)
        if bound is not None and cost >= bound:
            continue
        base = [a for _, _, a in ch.trace]
        for i in range(len(ch.trace) - 1, len(p) - 1, -1):
            for alt in range(ch.trace[i][1] - 1, 0, -1):
                stack.append(base[:i] + [alt])
    return runs, False


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- parallel


def _worker(fn, jobs, q, wid, stop):
    try:
        import signal

        signal.signal(signal.SIGINT, signal.SIG_DFL)
        while True:
            with jobs.get_lock():
                i = jobs.value
                jobs.value += 1
            if i >= len(fn.jobs) or stop.value:
                break
            try:
                r = ("ok", i, fn.f(fn.jobs[i]))
            except Violation as v:
                r = ("violation", i, (v.key, v.detail))
            except BaseException as e:
                r = ("error", i, f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            q.put(r)
    finally:
        q.put(("done", wid, None))
        q.close()
        q.join_thread()
        sys.stdout.flush()
        os._exit(0)


class _Fn:
    pass


class Crashed(RuntimeError):
    pass


def pmap(f, jobs, nproc=None, on_result=None):
    """Run f(job) for all jobs in forked workers; yields (job, kind, value)
    for every job, kind in ok|violation. An error in f is raised here."""
    jobs = list(jobs)
    nproc = min(nproc or NPROC, max(1, len(jobs)))
    ctx = mp.get_context("fork")
    fn = _Fn()
    fn.f, fn.jobs = f, jobs
    counter = ctx.Value("l", 0)
    stop = ctx.Value("b", 0)
    q = ctx.SimpleQueue() if False else ctx.Queue()
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nproc):
        p = ctx.Process(target=_worker, args=(fn, counter, q, w, stop), daemon=True)
        p.start()
        procs.append(p)
    done = 0
    n = 0
    try:
        while done < nproc:
            try:
                kind, i, val = q.get(timeout=5)
            except Exception:
                dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
                if dead:
                    raise Crashed(f"worker died with {dead[0].exitcode}")
                if all(not p.is_alive() for p in procs) and q.empty():
                    break
                continue
            if kind == "done":
                done += 1
                continue
            if kind == "error":
                stop.value = 1
                raise Crashed(f"job {jobs[i]!r}: {val}")
            n += 1
            yield jobs[i], kind, val
    finally:
        stop.value = 1
        for p in procs:
            p.join(timeout=1)
            if p.is_alive():
                p.kill()
    if n != len(jobs):
        raise Crashed(f"{n} of {len(jobs)} jobs answered")


# ---------------------------------------------------------------- reporting


def load_known():
    known = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # property=<id> key=<key> :: description
            head, _, desc = line.partition("::")
            d = dict(p.split("=", 1) for p in head.split() if "=" in p)
            known.append((d["property"], d["key"], desc.strip()))
    return known


class Report:
    def __init__(self, prop, tier, technique_level="model_checking", assumptions=()):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = technique_level
        self.start = time.time() if not hasattr(env._time.time, "__self__") else _wall()
        self.start = _wall()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = list(assumptions)
        self.known = [k for k in load_known() if k[0] == prop]
        self.known_hit = {}
        self.violations = []
        self.outcomes = {}
        self.exhaustive = True
        self.notes = []

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def outcome(self, o, n=1):
        self.outcomes[str(o)] = self.outcomes.get(str(o), 0) + n

    def violation(self, key, detail, replay):
        for _, k, desc in self.known:
            if key == k:
                self.known_hit[k] = desc
                return
        self.violations.append((key, detail, replay))

    def elapsed(self):
        return _wall() - self.start

    def finish(self):
        self.cov["distinct_outcomes"] = len(self.outcomes)
        self.cov["outcomes"] = dict(sorted(self.outcomes.items(), key=lambda x: -x[1])[:24])
        self.cov["exhaustive"] = self.exhaustive
        if self.notes:
            self.cov["notes"] = self.notes
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(self.violations),
        }
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for k, desc in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {desc}")
        print(
            f"{self.prop} {self.tier}: states={self.cov['states']} transitions={self.cov['transitions']} "
            f"traces={self.cov['traces_validated_against_impl']} outcomes={len(self.outcomes)} "
            f"wall={ev['wall_s']}s"
        )
        if self.violations:
            rd = d / "replays"
            rd.mkdir(exist_ok=True)
            seen = set()
            for n, (key, detail, replay) in enumerate(self.violations):
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 5:
                    break
                path = rd / f"{self.prop}-{len(seen)}.json"
                path.write_text(
                    json.dumps(
                        {"property": self.prop, "key": key, "detail": detail, "replay": replay},
                        indent=1,
                        default=str,
                    )
                    + "\n"
                )
                print(f"  {key}: {str(detail)[:2000]}")
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        return 0


def _wall():
    return time.clock_gettime(time.CLOCK_MONOTONIC)


# ---------------------------------------------------------------- explicit-state search


def bfs(rep, name, init, ops, step, depth, max_states=None, nproc=None, deadline=None):
    """Level-synchronous breadth first search over real executions.

    init: list of (key, state); ops(state, hist) -> op list;
    step(state, op, hist) -> (key, newstate, outcome) or raises Violation.
    States are captured worlds; keys canonical. Every violation is recorded
    with the op history reaching it. Counts land in `rep`."""
    seen = set()
    frontier = []
    for key, st in init:
        seen.add(key)
        frontier.append((st, ()))
    states = len(frontier)
    trans = 0
    complete_depth = 0
    for d in range(depth):
        if not frontier:
            break
        nxt = []

        def expand(i):
            st, hist = frontier[i]
            out = []
            for op in ops(st, hist):
                try:
                    key, new, outcome = step(st, op, hist)
                    out.append((op, key, None if (d == depth - 1) else new, outcome, None))
                except Violation as v:
                    out.append((op, None, None, "violation", (v.key, v.detail)))
                except Exception as e:
                    raise RuntimeError(f"{name}: after {(*hist, op)}") from e
            return out

        order = {}
        for i, kind, val in pmap(expand, range(len(frontier)), nproc):
            if kind == "violation":
                raise Crashed(f"violation outside step: {val}")
            order[i] = val
        for i in sorted(order):
            _, hist = frontier[i]
            for op, key, new, outcome, viol in order[i]:
                trans += 1
                rep.outcome(outcome)
                if viol:
                    rep.violation(viol[0], viol[1], {"space": name, "history": list(hist) + [op]})
                    continue
                if key in seen:
                    continue
                seen.add(key)
                states += 1
                if states % 997 == 1:
                    rep.sample({"space": name, "history": [str(o) for o in (*hist, op)], "outcome": outcome})
                nxt.append((new, hist + (op,)))
        complete_depth = d + 1
        frontier = nxt
        if rep.violations:
            break
        if max_states and states > max_states and d + 1 < depth:
            rep.exhaustive = False
            rep.notes.append(f"{name}: stopped after complete depth {d + 1} of {depth} at {states} states")
            break
        if deadline and rep.elapsed() > deadline and d + 1 < depth:
            rep.exhaustive = False
            rep.notes.append(f"{name}: time cap after complete depth {d + 1} of {depth}")
            break
    rep.add(states=states, transitions=trans)
    rep.notes.append(f"{name}: states={states} transitions={trans} depth={complete_depth}")
    return states, trans


def cases(rep, name, f, jobs, nproc=None, key=None):
    """Run f on every job of a finite enumerated space. f returns
    (number of executions, outcome) or a list of such, or raises Violation."""
    n = 0
    jobs = list(jobs)
    for i, (job, kind, val) in enumerate(pmap(f, jobs, nproc)):
        n += 1
        if kind == "violation":
            rep.outcome("violation")
            rep.violation(val[0], val[1], {"space": name, "case": job})
            continue
        vals = val if isinstance(val, list) else [val]
        for execs, outcome in vals:
            rep.add(transitions=execs)
            rep.outcome(outcome)
        if i % 211 == 0:
            rep.sample({"space": name, "case": str(job)[:300], "outcome": str(vals[0][1])[:200]})
    rep.add(states=n)
    rep.notes.append(f"{name}: {n} cases")
    return n
