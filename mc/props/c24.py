"""C24: the VEN's event memory follows the clock."""
import itertools
from datetime import timedelta

from .. import boot, wire, evspec
from ..core import Outcome, Histories, Product
from ..vloop import World
from ..ven import Net, AutoVTN, make_client, start, periodic

LEVEL = "model_checking"
ASSUMPTIONS = ["finished and cancelled events are dropped by the periodic clean-up, not before",
               "an event of zero length is open-ended and never over"]
MIN = timedelta(minutes=1)

# kind -> start offset, length, ramp-up (minutes); None: no ramp-up
KINDS = {"run": (-5, 15, None), "next": (10, 10, None), "ramp": (20, 10, 15), "ramp0": (10, 5, 0), "open": (-5, 0, None), "later-open": (15, 0, 5),
         "over": (-30, 10, 5), "ending": (-5, 5, None), "starting": (0, 5, None)}


class Ven:
    def __init__(self, loop):
        self.loop, self.vtn = loop, AutoVTN()
        self.client = make_client(Net(self.vtn))
        self.client.add_handler("on_event", lambda event: "optIn")
        self.client.add_handler("on_update_event", lambda event: "optOut")
        start(loop, self.client)
        self.ev = []              # [id, start, length, ramp, mod, cancelled, remembered, shown]
        self.v = []

    def status(self, e):
        now = boot.CLOCK.now()
        if e["cancelled"]:
            return "cancelled"
        if e["len"] and now >= e["start"] + e["len"]:
            return "completed"
        if now >= e["start"]:
            return "active"
        if e["ramp"] is not None and now >= e["start"] - e["ramp"]:
            return "near"
        return "far"

    def set(self, e, kind):
        s, n, r = KINDS[kind]
        e.update(start=boot.CLOCK.now() + s * MIN, len=n * MIN, ramp=None if r is None else r * MIN, kind=kind)

    def send(self, events, status=None):
        self.vtn.polls.append(wire.distribute_event([wire.event(e["id"], mod=e["mod"], status=self.status(e), start=e["start"], duration=e["len"],
                                                                ramp_up=e["ramp"], signals=[("SIMPLE", "level", [(0 * MIN, e["len"], 1)])]) for e in events]))
        for e in events:
            if e["shown"] is None or e["mod"] != e["sentmod"]:
                e["shown"] = self.status(e)      # as last told by the VTN
                e["sentmod"] = e["mod"]
            e["mem"] = True
        self.loop.run(periodic(self.client, "poll")[0].fire())

    def check(self, after):
        have = {}
        for x in self.client.received_events:
            have.setdefault(x["event_descriptor"]["event_id"], []).append(x)
        for eid, xs in have.items():
            if len(xs) > 1:
                self.v.append(("twice", f"after {after}: {eid} is remembered {len(xs)} times"))
        for e in self.ev:
            if e["mem"] != (e["id"] in have):
                self.v.append(("remembered", f"after {after}: {e['id']} ({e['kind']}, {self.status(e)}) is {'' if e['id'] in have else 'not '}remembered"))
                continue
            if e["mem"]:
                x = have[e["id"]][-1]
                if x["active_period"]["dtstart"] != e["start"] or x["active_period"]["duration"] != e["len"]:
                    self.v.append(("version", f"after {after}: {e['id']} is remembered with period {x['active_period']}, newest {e['start']} {e['len']}"))
                got = x["event_descriptor"]["event_status"]
                if got != e["shown"]:
                    self.v.append(("status", f"after {after}: {e['id']} ({e['kind']}) is shown as {got}, expected {e['shown']}"))
        return sorted((k, xs[-1]["event_descriptor"]["event_status"]) for k, xs in have.items())

    def log(self):
        self.loop.run(periodic(self.client, "log")[0].fire())
        for e in self.ev:
            if e["mem"]:
                e["shown"] = self.status(e)

    def clean(self):
        self.loop.run(periodic(self.client, "clean")[0].fire())
        for e in self.ev:
            if e["mem"] and self.status(e) in ("cancelled", "completed") and not (e["cancelled"] and e["sentmod"] != e["mod"]):
                e["mem"], e["shown"] = False, None

    def new(self, kind):
        e = {"id": f"ev{len(self.ev)}", "mod": 0, "sentmod": None, "cancelled": False, "mem": False, "shown": None}
        self.set(e, kind)
        self.ev.append(e)
        return e

    def do(self, op):
        if op[0] == "recv":
            self.send([self.new(op[1])])
        elif op[0] == "again":
            self.send([self.ev[op[1]]])
        elif op[0] == "move":
            e = self.ev[op[1]]
            e["mod"] += 1
            self.set(e, op[2])
            self.send([e])
        elif op[0] == "cancel":
            e = self.ev[op[1]]
            e["mod"] += 1
            e["cancelled"] = True
            self.send([e])
        elif op[0] == "tick":
            boot.CLOCK.advance(op[1] * MIN)
        elif op[0] == "log":
            self.log()
        elif op[0] == "clean":
            self.clean()
        return self.check(op)


def ops(w, kinds, moves, maxe):
    out = []
    if len(w.ev) < maxe:
        out += [("recv", k) for k in kinds]
    for i, e in enumerate(w.ev):
        if e["mem"] and not e["cancelled"]:
            out.append(("cancel", i))
            if e["mod"] < 2:
                out += [("move", i, k) for k in moves]
        if e["mem"]:
            out.append(("again", i))
    out += [("log",), ("clean",)]
    if boot.CLOCK.us < 60 * 60e6:
        out.append(("tick", 5))
    return out


def run(param, hist):
    kinds, moves, maxe = param
    with World() as loop:
        w = Ven(loop)
        o = None
        for op in hist:
            o = w.do(op)
        if loop.errors:
            w.v.append(("loop-error", repr(loop.errors)[:500]))
        canon = (boot.CLOCK.us, evspec.snapshot(w.client.received_events), evspec.snapshot(w.client.responded_events), repr(w.ev))
        return Outcome(w.v, obs=(hist[-1] if hist else None, repr(o)), canon=canon, ops=ops(w, kinds, moves, maxe), steps=max(1, len(hist)))


# -- clean-up of every list of events ---------------------------------------------------------------------------------

STATES = ("run", "next", "over", "cancelled", "open")


def lists(tier):
    for n in range(1, 6 if tier == "quick" else 7):
        for states in itertools.product(STATES, repeat=n):
            yield states


def crowds(tier):
    """long lists: everything alike, one that differs at either end, and mixtures"""
    for n in (7, 10, 33, 64, 129) if tier == "quick" else (7, 8, 10, 16, 33, 64, 100, 129, 257, 513):
        for a in STATES:
            yield (a,) * n
            for b in STATES:
                if a != b:
                    yield from ((a,) * (n - 1) + (b,), (b,) + (a,) * (n - 1), (a, b) * (n // 2), (a,) * (n // 2) + (b,) * (n - n // 2))
        for step in (1, 2, 3, 4):
            yield tuple(STATES[i * step % 5] for i in range(n))


def run_list(states):
    with World() as loop:
        w = Ven(loop)
        es = [w.new(s if s != "cancelled" else "run") for s in states]
        w.send(es)
        bad = [e for e, s in zip(es, states) if s == "cancelled"]
        for e in bad:
            e["mod"] += 1
            e["cancelled"] = True
        if bad:
            w.send(bad)
        w.log()
        w.check("status update")
        w.clean()
        a = w.check("clean-up")
        w.clean()
        b = w.check("second clean-up")
        return Outcome(w.v, obs=repr((a, b)), steps=4)


# -- the status at every boundary ---------------------------------------------------------------------------------------

US = timedelta(microseconds=1)
OFFS = [timedelta(0), US, -US, timedelta(seconds=1), -timedelta(seconds=1), MIN, -MIN]


def instants(tier):
    n = len(OFFS)
    for k in KINDS:
        for bnd in ("ramp", "start", "end"):
            for o in range(n):
                yield (k, bnd, o)
    if tier == "thorough":
        for k in KINDS:
            for m in range(0, 120):
                yield (k, "minute", m)


def run_instant(case):
    kind, bnd, o = case
    with World() as loop:
        w = Ven(loop)
        boot.CLOCK.advance(120 * MIN)
        e = w.new(kind)
        w.send([e])
        # the VEN learns of the event long before: go to the boundary by moving the event
        s, n, r = KINDS[kind]
        now = boot.CLOCK.now()
        if bnd == "minute":
            e["start"] = now + o * MIN - 60 * MIN
        else:
            at = {"ramp": e["ramp"] if e["ramp"] is not None else timedelta(0), "start": timedelta(0), "end": -e["len"]}[bnd]
            e["start"] = now + at + OFFS[o]
        e["mod"] += 1
        w.send([e])
        w.check("change")
        w.log()
        a = w.check(f"status update {case}")
        w.clean()
        b = w.check(f"clean-up {case}")
        return Outcome(w.v, obs=(repr(a), repr(b)), steps=4)


def scenarios(tier):
    cap = 60000 if tier == "quick" else 400000
    return [Product("instants", instants, run_instant, "every boundary of every kind of period ± {0, 1 µs, 1 s, 1 min}"),
            Product("lists", lists, run_list, "every list of 1-5 (1-6) events, each running, upcoming, over, cancelled or open-ended", chunk=64),
            Product("crowds", crowds, run_list, "long lists of events: alike, mixed, and with one that differs at either end", chunk=1),
            Histories("histories", run, {"quick": 6, "thorough": 7}, [(("run", "ramp", "ending"), (), 2), (("next", "later-open"), ("ramp",), 2), (("starting", "over"), ("run",), 2)],
                      "two events: receive, receive again, move, cancel, clock, status update and clean-up", max_states=cap),
            Histories("three-events", run, {"quick": 5, "thorough": 7}, [(("run", "ramp"), (), 3)],
                      "three events", max_states=cap)]
