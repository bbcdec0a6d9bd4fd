"""
Exploration framework.

A check is a list of Scenarios. Every scenario enumerates *cases* (JSON-able) exhaustively within its bounds and runs
each on the real implementation. Three kinds:

  Product   cases() yields every element of a finite input space; run(case) executes it.
  Histories breadth-first search over operation histories; run(history) rebuilds the state from scratch and returns
            the canonical state and the operations enabled in it; equal canonical states are expanded once.
  Schedules depth-first enumeration of all choice sequences of run(params, chooser) (stateless search).

run() returns an Outcome. A violation is (key, message): the key identifies the specific failing input/history.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import traceback

from . import boot


FAILFAST = os.environ.get("VERIF_FAILFAST")      # only for tools/mutate: stop at the first violation


class Outcome:
    __slots__ = ("violations", "obs", "steps", "canon", "ops")

    def __init__(self, violations=(), obs=None, steps=1, canon=None, ops=()):
        self.violations = list(violations)
        if self.violations and FAILFAST:
            print("FIRST", self.violations[0], flush=True, file=sys.__stdout__)
            os.killpg(0, 9)
        self.obs = obs
        self.steps = steps
        self.canon = canon
        self.ops = list(ops)


class ReplayDivergence(Exception):
    pass


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []      # number of options at each point
        self.choices = []
        self.labels = []

    def choose(self, options):
        options = list(options)
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if not 0 <= c < len(options):
                raise ReplayDivergence(f"choice {c} of {len(options)} at point {i}: {self.labels}")
        else:
            c = 0
        self.points.append(len(options))
        self.choices.append(c)
        self.labels.append(str(options[c]))
        return options[c]


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=12).digest()


def exc_key(e):
    """A stable, short description of an exception and the /repo frame it came from."""
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if os.path.realpath(f.filename).startswith(os.path.realpath(boot.REPO) + os.sep):
            where = f"@{os.path.basename(f.filename)}:{f.name}"
            break
    return f"{type(e).__name__}{where}"


class Hang(KeyboardInterrupt):
    """one execution takes far longer than it can (asyncio lets only a KeyboardInterrupt through)"""


CPU_LIMIT, WALL_LIMIT = 30, 200


def _hang(signum, frame):
    raise Hang()


def guarded(fn, *args):
    """Run one case; an exception that escapes is a violation (the property promises an answer)."""
    signal.signal(signal.SIGPROF, _hang)
    signal.signal(signal.SIGALRM, _hang)
    limit = getattr(fn, "cpu_limit", CPU_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, max(WALL_LIMIT, 2 * limit))
    try:
        return fn(*args)
    except Hang as e:
        return Outcome([("hang", f"no answer within {limit} s of CPU time\n" + "".join(traceback.format_exception(e))[-3000:])],
                       obs=("hang",))
    except ReplayDivergence:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        return Outcome([(f"exception:{exc_key(e)}", "".join(traceback.format_exception(e))[-3000:])],
                       obs=("exception", exc_key(e)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def hung(outcome):
    return any(k == "hang" for k, _ in outcome.violations)


class Scenario:
    kind = "?"

    def __init__(self, name, note=""):
        self.name = name
        self.note = note


class Product(Scenario):
    kind = "product"

    def __init__(self, name, cases, run, note="", chunk=32, nontrivial=None):
        super().__init__(name, note)
        self.cases, self.run, self.chunk = cases, run, chunk
        self.nontrivial = nontrivial

    def run_case(self, case):
        return guarded(self.run, case)


class Histories(Scenario):
    kind = "histories"

    def __init__(self, name, run, depth, params=(None,), note="", max_states=None):
        super().__init__(name, note)
        self.run, self.depth, self.params, self.max_states = run, depth, list(params), max_states

    def run_case(self, case):
        param, hist = case
        return guarded(self.run, param, [_tup(o) for o in hist])


class Schedules(Scenario):
    kind = "schedules"

    def __init__(self, name, run, params, note="", split=2, max_execs=None):
        super().__init__(name, note)
        self.run, self.params, self.split, self.max_execs = run, list(params), split, max_execs

    def run_case(self, case):
        param, choices = case
        ch = Chooser(choices)
        return guarded(self.run, param, ch)


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


# ----------------------------------------------------------------------------------------------------------------------
# parallel map over forked workers

_WORK = None
DEADLINE = None          # real time at which exploration stops and what was explored is reported


class Stopped(Exception):
    pass


def out_of_time():
    return DEADLINE is not None and boot.real_monotonic() > DEADLINE


NPROC = int(os.environ.get("VERIF_PROCS", "8"))


def _call(args):
    return [_WORK(a) for a in args]


def pmap(fn, items, chunksize=1, nproc=None):
    """Unordered parallel map with forked workers (fn is inherited, items are pickled)."""
    global _WORK
    nproc = nproc or NPROC
    items = list(items)
    if nproc <= 1 or len(items) <= 1:
        for it in items:
            if out_of_time():
                raise Stopped("stopped: out of time")
            yield fn(it)
        return
    _WORK = fn
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(nproc, len(items)), maxtasksperchild=None) as pool:
        results = pool.imap_unordered(_call, [items[i:i + chunksize] for i in range(0, len(items), chunksize)])
        while True:
            try:
                yield from results.next(None if DEADLINE is None else max(0.1, DEADLINE - boot.real_monotonic()))
            except StopIteration:
                return
            except multiprocessing.TimeoutError:
                raise Stopped("stopped: out of time")


class Acc:
    """What one scenario covered."""
    def __init__(self, scenario):
        self.scenario = scenario
        self.execs = 0
        self.steps = 0
        self.states = 0
        self.transitions = 0
        self.obs = collections.Counter()
        self.violations = {}        # key -> (message, case)
        self.samples = []
        self.capped = None
        self.max_depth = 0
        self.viol_count = 0

    def add(self, r):
        (execs, steps, obs, viols, samples) = r
        self.execs += execs
        self.steps += steps
        self.obs.update(obs)
        for k, m, c in viols:
            self.viol_count += 1
            cur = self.violations.get(k)
            if cur is None or len(repr(c)) < len(repr(cur[1])):
                self.violations[k] = (m, c)
            if k == "hang":
                raise Stopped("stopped: an execution hangs")
        for s in samples:
            if len(self.samples) < 3:
                self.samples.append(s)


def _batch(scn, cases):
    execs = steps = 0
    obs = collections.Counter()
    viols, samples = [], []
    for case in cases:
        o = scn.run_case(case)
        execs += 1
        steps += o.steps
        if o.obs is not None:
            obs[digest(o.obs)] += 1
        for k, m in o.violations:
            viols.append((k, m, case))
        if hung(o):
            break
        if not samples and o.obs is not None:
            samples.append({"scenario": scn.name, "case": short(case), "observed": short(o.obs)})
    if len(viols) > 200:
        viols = viols[:200]
    return execs, steps, dict(obs), viols, samples


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "…"


def run_product(scn, tier):
    acc = Acc(scn)
    cases = list(scn.cases(tier))
    chunk = max(1, min(scn.chunk, len(cases) // (NPROC * 4) + 1))
    batches = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    try:
        for r in pmap(lambda b: _batch(scn, b), batches):
            acc.add(r)
    except Stopped as e:
        acc.capped = str(e)
    acc.states = len(cases) if not acc.capped else acc.execs
    acc.transitions = acc.steps
    return acc


def run_histories(scn, tier):
    acc = Acc(scn)
    depth = scn.depth[tier]
    seen = set()
    frontier = []
    for p in scn.params:
        o = scn.run_case((p, []))
        acc.execs += 1
        for k, m in o.violations:
            acc.violations.setdefault(k, (m, (p, [])))
        c = digest((p, o.canon))
        if c not in seen:
            seen.add(c)
            frontier.append((p, [], o.ops))
    level = 0

    def expand(node):
        p, hist, ops = node
        out, execs, steps, obs, viols, samples = [], 0, 0, collections.Counter(), [], []
        for op in ops:
            h = hist + [op]
            o = scn.run_case((p, h))
            execs += 1
            steps += 1
            if o.obs is not None:
                obs[digest(o.obs)] += 1
            for k, m in o.violations:
                viols.append((k, m, (p, h)))
            if hung(o):
                break
            if not o.violations:
                out.append((digest((p, o.canon)), h, o.ops))
            if not samples:
                samples.append({"scenario": scn.name, "case": short((p, h)), "observed": short(o.obs)})
        return p, out, (execs, steps, dict(obs), viols[:200], samples)

    while frontier and level < depth:
        level += 1
        nxt = []
        chunk = max(1, min(64, len(frontier) // (NPROC * 4) + 1))
        results = []
        try:
            for r in pmap(expand, frontier, chunksize=chunk):
                results.append(r)
                acc.transitions += r[2][0]
                acc.add(r[2])
        except Stopped as e:
            acc.capped = f"{e} at depth {level} of {depth}"
            break
        results.sort(key=lambda r: repr(r[1][0][1]) if r[1] else "")
        for p, out, stats in results:
            for c, h, ops in out:
                if c not in seen:
                    seen.add(c)
                    nxt.append((p, h, ops))
        frontier = nxt
        if scn.max_states and len(seen) > scn.max_states and level < depth and frontier:
            acc.capped = f"stopped after depth {level} of {depth}: {len(seen)} states"
            break
        if len(acc.violations) > 20:
            acc.capped = f"stopped after depth {level}: too many violations"
            break
    acc.max_depth = level
    acc.states = len(seen)
    return acc


def _dfs(scn, param, prefix, cap, viol_cap=50):
    """Enumerate all completions of prefix."""
    stack = [list(prefix)]
    execs = steps = 0
    obs = collections.Counter()
    viols, samples = [], []
    while stack:
        pre = stack.pop()
        ch = Chooser(pre)
        o = guarded(scn.run, param, ch)
        execs += 1
        steps += max(len(ch.choices), o.steps)
        if ch.choices[:len(pre)] != pre:
            if not o.violations:
                raise ReplayDivergence(f"{scn.name}: run ended before its prefix {pre}: {ch.choices}")
        if o.obs is not None:
            obs[digest(o.obs)] += 1
        for k, m in o.violations:
            viols.append((k, m + "\nschedule: " + " > ".join(ch.labels), (param, list(ch.choices))))
        if not samples:
            samples.append({"scenario": scn.name, "case": short((param, ch.labels)), "observed": short(o.obs)})
        for i in range(len(ch.points) - 1, len(pre) - 1, -1):
            for alt in range(ch.points[i] - 1, 0, -1):
                stack.append(ch.choices[:i] + [alt])
        if cap and execs >= cap and stack:
            return (execs, steps, dict(obs), viols[:200], samples), True
        if len(viols) > viol_cap or hung(o):
            return (execs, steps, dict(obs), viols[:200], samples), bool(stack)
    return (execs, steps, dict(obs), viols[:200], samples), False


def run_schedules(scn, tier):
    acc = Acc(scn)
    # split the top of every tree into work items
    work = []
    for p in scn.params(tier) if callable(scn.params) else scn.params:
        leaves = [[]]
        for _ in range(scn.split):
            new = []
            for pre in leaves:
                ch = Chooser(pre)
                guarded(scn.run, p, ch)
                if len(ch.points) > len(pre):
                    new.extend(pre + [a] for a in range(ch.points[len(pre)]))
                else:
                    new.append(pre)
            leaves = new
        work.extend((p, pre) for pre in leaves)
    cap = scn.max_execs[tier] if isinstance(scn.max_execs, dict) else scn.max_execs

    def go(w):
        return _dfs(scn, w[0], w[1], cap)
    capped = 0
    try:
        for r, c in pmap(go, work):
            capped += c
            acc.add(r)
    except Stopped as e:
        acc.capped = str(e)
    if capped:
        acc.capped = f"{capped} of {len(work)} subtrees stopped at {cap} executions"
    acc.transitions = acc.steps
    acc.states = acc.execs
    return acc


RUNNERS = {"product": run_product, "histories": run_histories, "schedules": run_schedules}
