"""C15: every sample is reported exactly once, in the right report."""
import asyncio
import itertools
from datetime import timedelta

from .. import boot
from ..core import Outcome, Histories, Product, Schedules
from ..vloop import World
from ..rep import Rep, WHO, S

LEVEL = "model_checking"
ASSUMPTIONS = ["rounds of one report request do not overlap (the scheduler runs one instance of a job at a time)",
               "a callback that fails contributes nothing to that round; a report without any value may or may not be sent",
               "where the reporting interval is no multiple of the sampling interval, a message holds the whole rounds that fit"]

REQS = {"rr1": ("s1", ["a", "b"], 10, 20), "rr2": ("s1", ["a"], 10, 10), "rr3": ("s2", ["c", "d"], 10, 30), "rr4": ("s2", ["d", "c"], 15, 40),
        "rr5": ("s1", ["b", "a"], 10, 10)}


def per(rid):
    _, _, g, b = REQS[rid]
    return max(1, b // g) if g else 1


MODES = [dict(a="number", b="number", c="int", d="number"), dict(a="list", b="number", c="alist", d="async"), dict(a="number", b="raise", c="keyerror", d="number"),
         dict(a="raise", b="number", c="number", d="araise"), dict(a="empty", b="list", c="none", d="number"), dict(a="flaky", b="number", c="list", d="flaky"),
         dict(a="one", b="async", c="raise", d="raise"), dict(a="slow", b="alist", c="flaky", d="empty")]
SETS = [["rr1", "rr2", "rr3"], ["rr1", "rr4", "rr5"], ["rr3", "rr4"], ["rr1", "rr3"]]


def offers(m):
    return {"s1": {"a": m["a"], "b": m["b"]}, "s2": {"c": m["c"], "d": m["d"]}}


def hist_params(tier):
    out = [[i, j] for i in range(len(MODES)) for j in (0, 1)] + [[i, j] for i in range(3) for j in (2, 3)]
    return out


def run_hist(param, hist):
    m, rs = MODES[param[0]], SETS[param[1]]
    with World() as loop:
        sim = Rep(loop, offers(m))
        for rid in rs:
            spec, pts, g, b = REQS[rid]
            sim.ask(rid, spec, pts, g, b)
        want = {rid: (REQS[rid][0], per(rid)) for rid in rs}
        for i, op in enumerate(hist):
            boot.CLOCK.advance(7)
            if op[0] == "fire":
                sim.fire(op[1])
            elif op[0] == "once":
                rid = f"once{i}"
                sim.ask(rid, "s1", ["b", "a"], 0, 0, expect_job=False)
                want[rid] = ("s1", 1)
            elif op[0] == "zero":
                rid = f"zero{i}"
                sim.ask(rid, "s2", ["c"], 10, 0, expect_job=False)
                want[rid] = ("s2", 1)
        sim.judge(want, [param, hist])
        return Outcome(sim.v, obs=[len(sim.net.log), hist], steps=len(hist), canon=hist,
                       ops=[("fire", r) for r in rs] + [("once",), ("zero",)])


LONG = [(10, 10), (10, 20), (10, 30), (10, 50), (10, 100), (15, 40), (60, 3600), (1, 60), (5, 12), (3600, 86400), (7, 21), (10, 5), (60, 90)]


def long_cases(tier):
    for pts in (["a"], ["a", "b"], ["b", "a"], ["a", "b", "c"]):
        for g, b in LONG:
            for m in ("number", "list", "flaky", "alist"):
                yield [pts, g, b, m]


def run_long(case):
    pts, g, b, m = case
    with World() as loop:
        sim = Rep(loop, {"s1": {"a": m, "b": "number", "c": "one"}})
        sim.ask("rr", "s1", pts, g, b)
        n = max(1, int(timedelta(seconds=b) // timedelta(seconds=g)))
        for _ in range(3 * n + 1):
            boot.CLOCK.advance(g)
            sim.fire("rr")
        sim.judge({"rr": ("s1", n)}, case)
        return Outcome(sim.v, obs=(case, len(sim.net.log)), steps=3 * n + 1)


# -- interleavings of callbacks that take their time, and of a network that does ------------------------------------------------

SCHED = [dict(reqs=["rr1", "rr2"], rounds=[2, 2], gated="ab", net=False), dict(reqs=["rr1", "rr3"], rounds=[2, 1], gated="acd", net=False),
         dict(reqs=["rr2", "rr5"], rounds=[2, 1], gated="ab", net=True), dict(reqs=["rr1", "rr3"], rounds=[2, 3], gated="bd", net=False),
         dict(reqs=["rr2", "rr4"], rounds=[3, 2], gated="a", net=True)]
MORE = [dict(reqs=["rr1", "rr2"], rounds=[3, 3], gated="ab", net=False), dict(reqs=["rr1", "rr2", "rr3"], rounds=[2, 1, 1], gated="acd", net=False),
        dict(reqs=["rr1", "rr5"], rounds=[2, 2], gated="ab", net=True)]


def run_sched(param, chooser):
    with World() as loop:
        modes = {r: ("gated" if r in param["gated"] else "number") for r in "abcd"}
        hold = []
        vtn = []

        def answer(net, rec):
            a = sim_vtn(net, rec)
            if rec.type == "oadrUpdateReport" and param["net"]:
                async def later():
                    f = loop.create_future()
                    hold.append(f)
                    await f
                    return a
                return later()
            return a
        from ..ven import AutoVTN
        sim_vtn = AutoVTN()
        sim = Rep(loop, offers(modes), answer=answer)
        sim.vtn = sim_vtn
        left = dict(zip(param["reqs"], param["rounds"]))
        for rid in left:
            spec, pts, g, b = REQS[rid]
            sim.ask(rid, spec, pts, g, b)
        running = {}
        steps = 0
        while True:
            loop.settle()
            opts = []
            for rid in left:
                if left[rid] and (rid not in running or running[rid].done()):
                    opts.append(("fire", rid))
            opts += [("value", i) for i in range(len(sim.gates))]
            opts += [("net", i) for i in range(len(hold))]
            if not opts:
                break
            op = chooser.choose(opts)
            steps += 1
            boot.CLOCK.advance(1)
            if op[0] == "fire":
                left[op[1]] -= 1
                running[op[1]] = loop.create_task(sim.fire_async(op[1]))
            elif op[0] == "value":
                sim.gates.pop(op[1])[1].set_result(None)
            else:
                hold.pop(op[1]).set_result(None)
        for rid, t in running.items():
            if not t.done():
                sim.v.append(("stuck", f"{rid} never finishes: {chooser.labels}"))
                t.cancel()
            elif t.exception():
                sim.v.append(("sampling-fails", f"{rid}: {t.exception()!r}"))
        sim.judge({rid: (REQS[rid][0], per(rid)) for rid in param["reqs"]}, chooser.labels)
        return Outcome(sim.v, obs=sim.messages(), steps=steps)


# -- data collected at the reporting interval ------------------------------------------------------------------------------------

FULL = [(10, 30), (10, 60), (15, 45), (20, 60), (60, 3600), (10, 10), (10, 20), (30, 90), (60, 10), (10, 25), (3600, 86400), (5, 15)]


def full_cases(tier):
    for g, b in FULL:
        for off in (0, 3, 17.25, 41) if tier != "quick" else (0, 17.25):
            for late in itertools.product((0, 0.25), repeat=3):
                for mode in ("sync", "async"):
                    yield [g, b, off, list(late), mode, ["e"]]
            yield [g, b, off, [0, 0, 0], "sync", ["f", "e"]]
            yield [g, b, off, [0, 0.25, 0], "zones", ["f", "e"]]


def fire_times(trigger, start, n):
    out, prev, now = [], None, start
    for _ in range(n):
        t = trigger.get_next_fire_time(prev, now)
        if t is None:
            break
        out.append(t)
        prev, now = t, t + timedelta(microseconds=1)
    return out


def real_trigger(job):
    from apscheduler.triggers.cron import CronTrigger
    from apscheduler.triggers.interval import IntervalTrigger
    from apscheduler.triggers.date import DateTrigger
    if not isinstance(job.trigger, str):
        return job.trigger
    return {"cron": CronTrigger, "interval": IntervalTrigger, "date": DateTrigger}[job.trigger](timezone="UTC", **job.trig_args)


def run_full(case):
    g, b, off, late, mode, pts = case
    with World() as loop:
        sim = Rep(loop, {"s9": {"e": mode, "f": mode}}, full=("s9",), zones=mode == "zones")
        boot.CLOCK.advance(off)
        sim.ask("rr", "s9", pts, g, b)
        times = fire_times(real_trigger(sim.jobs["rr"]), boot.CLOCK.now(), 4)
        win, last = [], None
        for t, l in zip(times, late + [0]):
            boot.CLOCK.advance(max(timedelta(0), t - boot.CLOCK.now()) + timedelta(seconds=l))
            sim.fire("rr")
        calls = sim.windows.get("s9", [])
        for p in pts:
            w = [c for c in calls if c[0] == p]
            if len(w) != len(times):
                sim.v.append(("calls", f"{case}: {len(w)} calls for {p} in {len(times)} rounds"))
            for (_, f, t, s), (_, f2, t2, s2) in zip(w, w[1:]):
                if t != f2:
                    sim.v.append(("gap" if t < f2 else "overlap", f"{case}: {p} was asked for {f}..{t} and then for {f2}..{t2}"))
            for _, f, t, s in w:
                if not f < t or s != g * S:
                    sim.v.append(("window", f"{case}: {p} was asked for {f}..{t} every {s}"))
            if w and w[0][2] - w[0][1] < max(g, b) * S - timedelta(seconds=1):
                sim.v.append(("window", f"{case}: {p} was first asked for {w[0][1]}..{w[0][2]}"))
            want = [] if not w else sim.meter("s9", p, w[0][1], w[-1][2], g * S)
            got = [(t, float(val)) for rid, spec, ivs in sim.messages() for t, r, val in ivs if r == p]
            if got != want:
                sim.v.append(("values", f"{case}: {p}: reported {got}, metered {want}"))
        if len(sim.messages()) != len(times):
            sim.v.append(("messages", f"{case}: {len(sim.messages())} messages in {len(times)} rounds"))
        if any(rid != "rr" or spec != "s9" for rid, spec, _ in sim.messages()):
            sim.v.append(("stray-report", f"{case}: {sim.messages()}"))
        return Outcome(sim.v, obs=(case, len(calls)), steps=4)


def scenarios(tier):
    return [Histories("rounds", run_hist, {"quick": 4, "thorough": 6}, params=hist_params(tier),
                      note="every order of sampling rounds of up to three report requests and one-off requests, callbacks of every kind"),
            Histories("more-rounds", run_hist, {"quick": 6, "thorough": 8}, params=[[0, 3]] if tier == "quick" else [[0, 3], [1, 2], [5, 2]],
                      note="longer histories of two report requests"),
            Product("long", long_cases, run_long, "several reporting intervals of every ratio", chunk=4),
            Schedules("interleavings", run_sched, SCHED + (MORE if tier != "quick" else []),
                      note="rounds of two or three reports whose callbacks (and messages) take their time, in every interleaving"),
            Product("collected", full_cases, run_full, "data collected per reporting interval, at the times of the real triggers", chunk=8)]
