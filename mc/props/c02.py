"""C02: the VTN serves each VEN exactly its live events, with true status."""
from .. import boot, wire, evspec
from datetime import timedelta, timezone
import itertools

from ..core import Outcome, Histories, Product
from ..vloop import World
from ..vtn import make_server, send

LEVEL = "model_checking"
ASSUMPTIONS = ["operations on the VTN do not overlap in time (overlap is explored by C01)",
               "the time stamps of an event descriptor are not compared",
               "answers to superseded modification numbers may be refused or accepted, but change nothing"]


class Sim:
    def __init__(self, how, vens):
        self.how = how
        self.server = make_server()
        self.vens = vens
        self.evs = []
        self.updated = {v: False for v in vens}
        self.v = []
        self.obs = []

    def live(self, ven):
        return [e for e in self.evs if e.ven == ven and not e.gone]

    def check_dist(self, what, ven, reply):
        """the reply to a request or poll that must list the live events"""
        want = self.live(ven)
        if reply.status != 200 or reply.schema_error:
            self.v.append((f"{what}-reply", f"{what} by {ven}: HTTP {reply.status}, schema {reply.schema_error}"))
            return
        if not want:
            if reply.type == "oadrResponse" or (reply.type == "oadrDistributeEvent" and not reply.events() and what == "request"):
                return
            self.v.append((f"{what}-not-empty", f"{what} by {ven} without events got {reply.type} {ids(reply)}"))
            return
        if reply.type != "oadrDistributeEvent":
            self.v.append((f"{what}-missing-events", f"{what} by {ven} got {reply.type}; live: {[e.id for e in want]}"))
            return
        got = reply.events()
        if sorted(g["event_id"] for g in got) != sorted(e.id for e in want):
            self.v.append((f"{what}-wrong-set", f"{what} by {ven} lists {ids(reply)}; live: {[(e.id, e.status()) for e in want]}"))
            return
        for e in want:
            g = next(x for x in got if x["event_id"] == e.id)
            d = evspec.diff(g, e)
            if d:
                self.v.append((f"{what}-content:{d[0].split(':')[0]}", f"{what} by {ven}, event {e.id} ({e.kind}): " + "; ".join(d)))
            if e.status() == "completed":
                e.gone = True
            if e.mod not in e.delivered_mods:
                e.delivered_mods.append(e.mod)

    def check_empty(self, ven, reply):
        if reply.status != 200 or reply.schema_error or reply.type != "oadrResponse" or reply.resp()[0] != 200:
            self.v.append(("poll-not-empty", f"poll by {ven} without changes since its last poll got {reply.summary()}"))


def ids(reply):
    return [(e["event_id"], e["status"], e["mod"]) for e in reply.events()]


async def do(sim, op):
    kind = op[0]
    if kind == "add":
        _, ven, k = op
        e = evspec.Ev(f"e{len(sim.evs)}", k, ven)
        sim.evs.append(e)
        evspec.add(sim.server, e, sim.how)
        sim.updated[ven] = True
        return "added"
    if kind == "cancel":
        _, ven, i = op
        eid = sim.evs[i].id if i < len(sim.evs) else "nope"
        sim.server.cancel_event(ven, eid)
        if i < len(sim.evs) and sim.evs[i].ven == ven and not sim.evs[i].gone:
            e = sim.evs[i]
            e.cancelled = True
            e.mod += 1
            sim.updated[ven] = True
        return "cancel"
    if kind == "tick":
        boot.CLOCK.advance(op[1] * evspec.MIN)
        return "tick"
    if kind == "poll":
        _, ven = op
        r = await send(sim.server, wire.poll(ven))
        if sim.updated[ven] and sim.live(ven):
            sim.check_dist("poll", ven, r)
        else:
            sim.check_empty(ven, r)
        sim.updated[ven] = False
        return (r.summary(), ids(r) if r.status == 200 else None)
    if kind == "req":
        _, ven = op
        r = await send(sim.server, wire.request_event(ven))
        sim.check_dist("request", ven, r)
        return (r.summary(), ids(r) if r.status == 200 else None)
    if kind == "confirm":
        _, ven, i, which = op
        e = sim.evs[i]
        mod = e.delivered_mods[which]
        r = await send(sim.server, wire.created_event(ven, [(e.id, mod, "optIn")]))
        if e.ven == ven and not e.gone and mod == e.mod:
            if r.status != 200 or r.type != "oadrResponse" or r.resp()[0] != 200:
                sim.v.append(("confirm-refused", f"answer of {ven} to {e.id} mod {mod} got {r.summary()}"))
            if e.cancelled:
                e.gone = True
        return r.summary()
    raise AssertionError(op)


def ops(sim, kinds, max_events, tick):
    out = []
    for ven in sim.vens:
        if len(sim.evs) < max_events:
            out += [("add", ven, k) for k in kinds]
        out += [("poll", ven), ("req", ven)]
        for i, e in enumerate(sim.evs):
            if e.ven == ven or (len(sim.vens) > 1 and not e.gone):
                if e.mod < 2:
                    out.append(("cancel", ven, i))
            if e.ven == ven and e.delivered_mods:
                for w in range(len(e.delivered_mods)):
                    out.append(("confirm", ven, i, w))
    if boot.CLOCK.us < 90 * 60e6:
        out.append(("tick", tick))
    return out


def run(param, hist):
    how, vens, kinds, maxe, tick = param
    with World() as loop:
        sim = Sim(how, list(vens))
        for op in hist:
            o = loop.run(do(sim, op))
        if not hist:
            o = None
        canon = (boot.CLOCK.us, evspec.server_state(sim.server), tuple(sorted(sim.updated.items())),
                 tuple((e.id, e.kind, e.ven, e.start, e.mod, e.cancelled, e.gone, tuple(e.delivered_mods)) for e in sim.evs))
        if loop.errors:
            sim.v.append(("loop-error", repr(loop.errors)[:500]))
        return Outcome(sim.v, obs=(hist[-1] if hist else None, o), canon=canon, ops=ops(sim, kinds, maxe, tick))


# -- the status at every moment around every boundary of events of every length ----------------------------------------------

H, D, S = timedelta(hours=1), timedelta(days=1), timedelta(seconds=1)
LENGTHS = [[S], [timedelta(minutes=30)], [H], [12 * H, 12 * H], [D], [2 * D], [D, H], [7 * D], [timedelta(minutes=59, seconds=59), S],
           [timedelta(0)], [timedelta(0), timedelta(0)], [30 * D], [365 * D]]
RAMPS = [None, timedelta(0), timedelta(minutes=5), D, 2 * D + S]


def clock_cases(tier):
    for n, m in itertools.product(range(len(LENGTHS)), range(len(RAMPS))):
        for how in ("add_event", "dict", "object"):
            for where in ("ramp", "start", "end"):
                for off in ((-1, 0, 1) if tier == "quick" else (-86400, -3600, -60, -1, -0.001, 0, 0.001, 1, 60, 3600, 86400)):
                    for zone in ((0,) if tier == "quick" and how == "dict" else (0, -7)):
                        yield [how, n, m, where, off, zone]


def run_clock(case):
    how, n, m, where, off, zone = case
    durs, ramp = LENGTHS[n], RAMPS[m]
    total = sum(durs, timedelta(0))
    with World() as loop:
        ev = evspec.Ev("e0", "A", "ven1")
        ev.kind, ev.priority, ev.ramp, ev.duration = "A", 0, ramp, total
        ev.start = boot.T0 + 400 * D
        if zone:
            ev.start = ev.start.astimezone(timezone(timedelta(hours=zone)))
        t, ev.ivs = ev.start, []
        for i, d in enumerate(durs):
            ev.ivs.append((t, d, i + 1))
            t += d
        sim = Sim(how, ["ven1"])
        sim.evs.append(ev)
        evspec.add(sim.server, ev, how)
        sim.updated["ven1"] = True
        at = {"ramp": ev.start - (ramp or timedelta(0)), "start": ev.start, "end": ev.start + total}[where] + timedelta(seconds=off)
        boot.CLOCK.advance(at - boot.CLOCK.now())
        got = [loop.run(do(sim, ("poll", "ven1")))]
        boot.CLOCK.advance(2 * S)                    # and as the boundary is passed
        got += [loop.run(do(sim, ("req", "ven1"))) for _ in range(2)]
        return Outcome(sim.v, obs=repr(got), steps=4)


# -- many events at once ---------------------------------------------------------------------------------------------------

def crowd_cases(tier):
    for n in (7, 12, 33, 101) if tier == "quick" else (7, 10, 12, 17, 33, 65, 101, 130, 257):
        for how in ("add_event", "dict", "object"):
            for cancel in ("none", "first", "last", "every-second", "all"):
                yield [how, n, cancel]


def run_crowd(case):
    """n events of two VENs live side by side through delivery, cancellation, confirmation and their end"""
    how, n, cancel = case
    vens = ["ven1", "ven2"]
    with World() as loop:
        sim = Sim(how, vens)
        kinds = ("A", "F", "P") if how == "add_event" else ("A", "M", "P", "F")
        obs = []

        def step(*op):
            obs.append(repr(loop.run(do(sim, op)))[:200])
        for i in range(n):
            step("add", vens[i % 5 == 3], kinds[i % len(kinds)])
        for v in vens:
            step("poll", v)
        which = {"none": [], "first": [0], "last": [n - 1], "every-second": range(0, n, 2), "all": range(n)}[cancel]
        for i in which:
            step("cancel", sim.evs[i].ven, i)
        for v in vens:
            step("poll", v), step("req", v), step("poll", v)
        for i in range(n):
            e = sim.evs[i]
            if not e.gone and e.delivered_mods and i % 3 == 0:
                step("confirm", e.ven, i, len(e.delivered_mods) - 1)
        for v in vens:
            step("req", v)
        for minutes in (16, 31, 120, 2000):
            boot.CLOCK.advance(timedelta(minutes=minutes))
            for v in vens:
                step("req", v), step("req", v)
        return Outcome(sim.v, obs=obs, steps=len(obs))


def scenarios(tier):
    one = [("add_event", ("ven1",), ("A", "F"), 2, 15)]
    alt = [("dict", ("ven1",), ("A", "M"), 2, 15), ("object", ("ven1",), ("P", "O"), 2, 15)]
    two = [("add_event", ("ven1", "ven2"), ("A",), 2, 15)]
    out = [Product("status-by-the-clock", clock_cases, run_clock, "every length x ramp-up x moment around every boundary x way to add it", chunk=64),
           Product("crowds", crowd_cases, run_crowd, "up to hundreds of events of two VENs: delivered, cancelled, confirmed, over", chunk=1),
           Histories("one-ven", run, {"quick": 6, "thorough": 8}, one, "active and far events of one VEN", max_states=60000 if tier == "quick" else 400000),
           Histories("raw-events", run, {"quick": 5, "thorough": 7}, alt, "events added as dict and as object; past, two-interval, open-ended",
                     max_states=60000 if tier == "quick" else 400000),
           Histories("two-vens", run, {"quick": 5, "thorough": 7}, two, "events of one VEN never show at another", max_states=60000 if tier == "quick" else 400000)]
    if tier == "thorough":
        out.append(Histories("three-events", run, {"quick": 0, "thorough": 6}, [("add_event", ("ven1",), ("A", "F", "P"), 3, 15),
                                                                              ("dict", ("ven1",), ("A", "F", "O"), 3, 10)],
                             "three events", max_states=400000))
    return out
