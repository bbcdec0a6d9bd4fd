"""C03: events are distributed in the OpenADR order."""
import itertools
from datetime import timedelta, timezone

from .. import boot, wire
from ..core import Outcome, Product
from ..vloop import World
from ..vtn import make_server, send

LEVEL = "model_checking"
ASSUMPTIONS = ["events with equal keys may come in any order", "handler-supplied event lists hold time-zone-aware start times"]

# (start offset in minutes, duration, priority, cancelled)
CAT = [(-5, 60, 0, False), (-10, 60, 0, False), (-5, 60, 1, False), (-10, 60, 1, False), (-7, 60, 2, False), (-3, 60, 1, False), (-20, 60, 10, False),
       (-15, 60, None, False), (5, 60, 0, False), (10, 60, 1, False), (20, 60, 3, False), (5, 60, 2, True), (-6, 60, 1, True),
       (-60, 10, 1, False), (-90, 10, 0, False), (-8, 0, 0, False), (0, 30, 0, False),
       (-4, 60, 1000, False), (-2, 60, 4294967295, False), (-1, 60, 0, False)]


def cases(tier):
    small = CAT[:11] + [CAT[12], CAT[13]]
    for how in ("object", "dict", "external", "external-object"):
        for n in (1, 2):
            for c in itertools.product(range(len(CAT)), repeat=n):
                yield [how, list(c)]
        pick = [CAT.index(x) for x in (small if tier == "quick" else CAT)]
        for c in itertools.product(pick, repeat=3):
            yield [how, list(c)]
        if tier == "thorough":
            for c in itertools.product([0, 2, 3, 4, 7, 8, 9, 11, 13], repeat=4):
                yield [how, list(c)]


def perm_cases(tier):
    """every insertion order of one fixed set of events"""
    sets = [[0, 2, 3, 4, 8], [1, 5, 6, 9, 12]] if tier == "quick" else [[0, 2, 3, 4, 8, 9], [1, 5, 6, 9, 12, 13], [7, 3, 2, 6, 15, 16]]
    for s in sets:
        for p in itertools.permutations(s):
            for how in ("object", "external"):
                yield [how, list(p)]


def crowd_cases(tier):
    """many events: the catalogue over and over, in different orders"""
    for how in ("object", "dict", "external", "external-object"):
        for n in (8, 12, 32, 65, 101) if tier == "quick" else (8, 12, 32, 65, 101, 130, 257, 520):
            for step in (1, len(CAT) - 1, 3, 7):
                yield [how, [(i * step) % len(CAT) for i in range(n)]]


def make(n, spec, as_object, hours=0):
    from openleadr import objects
    off, dur, prio, canc = spec
    start = boot.CLOCK.now() + timedelta(minutes=off)
    if hours:
        start = start.astimezone(timezone(timedelta(hours=hours)))
    d = timedelta(minutes=dur)
    desc = dict(event_id=f"e{n}", modification_number=1 if canc else 0, market_context="http://m", priority=prio)
    if as_object:
        ev = objects.Event(event_descriptor=objects.EventDescriptor(event_status="far", **desc),
                           active_period=objects.ActivePeriod(dtstart=start, duration=d),
                           event_signals=[objects.EventSignal(signal_name="SIMPLE", signal_type="level", signal_id="s",
                                                              intervals=[objects.Interval(start, d, 1)])],
                           targets=[objects.Target(ven_id="v")])
        if canc:
            ev.event_descriptor.event_status = "cancelled"
        return ev
    if prio is None:
        del desc["priority"]
    return {"event_descriptor": {**desc, "event_status": "cancelled" if canc else "far", "created_date_time": boot.CLOCK.now()},
            "active_period": {"dtstart": start, "duration": d},
            "event_signals": [{"signal_name": "SIMPLE", "signal_type": "level", "signal_id": "s",
                               "intervals": [{"dtstart": start, "duration": d, "signal_payload": 1}]}],
            "targets": [{"ven_id": "v"}], "response_required": "always"}


def klass(spec):
    off, dur, prio, canc = spec
    return not canc and off <= 0 and (dur == 0 or off + dur > 0)


def key(spec):
    """the position OpenADR prescribes"""
    if klass(spec):
        return (0, spec[2] if spec[2] else float("inf"), spec[0])
    return (1, 0, spec[0])


def zone_cases(tier):
    """start times given in different time zones"""
    pick = [0, 1, 2, 3, 8, 9, 12] if tier == "quick" else range(len(CAT))
    zones = list(itertools.product((0, 9, -8), repeat=2))
    for how in ("object", "dict", "external"):
        for c in itertools.product(pick, repeat=2):
            for z in zones[1:]:
                yield [how, list(c), list(z)]
    for c in itertools.permutations([8, 9, 10]):
        for z in itertools.product((0, 9, -8), repeat=3):
            yield ["dict", list(c), list(z)]


def run(case):
    how, idx = case[:2]
    zones = case[2] if len(case) > 2 else [0] * len(idx)
    specs = [CAT[i] for i in idx]
    with World() as loop:
        server = make_server()
        evs = [make(n, s, how.endswith("object"), zones[n]) for n, s in enumerate(specs)]
        if how.startswith("external"):
            server.add_handler("on_request_event", lambda ven_id: evs)
            server.add_handler("on_poll", lambda ven_id: None)
        else:
            for e in evs:
                server.add_raw_event("v", e, callback=lambda ven_id, event_id, opt_type: None)
        r = loop.run(send(server, wire.request_event("v")))
        got = [e["event_id"] for e in r.events()] if r.status == 200 and r.type == "oadrDistributeEvent" else None
        return judge(specs, got, r)


def judge(specs, got, r):
    if got is None:
        return Outcome([("no-distribution", f"{specs}: {r.summary()}")], obs=r.summary())
    v = []
    if sorted(got) != sorted(f"e{n}" for n in range(len(specs))):
        v.append(("dropped-or-duplicated", f"{specs} came as {got}"))
    else:
        keys = [key(specs[int(g[1:])]) for g in got]
        if keys != sorted(keys):
            a = next(i for i in range(len(keys) - 1) if keys[i] > keys[i + 1])
            why = "active-first" if keys[a][0] != keys[a + 1][0] else "priority" if keys[a][1] != keys[a + 1][1] else "start"
            v.append((f"order-{why}", f"(start, duration, priority, cancelled) in order of arrival: {[specs[int(g[1:])] for g in got]}"))
    return Outcome(v, obs=tuple(got))


def run_poll(case):
    """the same order through the built-in queue when polled, after every event became what it is in place"""
    how, idx = case
    specs = [CAT[i] for i in idx]
    start = boot.T0 - timedelta(hours=2)
    with World(start) as loop:
        server = make_server()
        for n, s in enumerate(specs):
            off, dur, prio, canc = s
            e = make(n, (off + 120, dur, prio, False), how == "object")
            server.add_raw_event("v", e, callback=lambda ven_id, event_id, opt_type: None)
        if idx and len(idx) % 2:
            loop.run(send(server, wire.request_event("v")))
        boot.CLOCK.advance(timedelta(hours=2))
        for n, s in enumerate(specs):
            if s[3]:
                server.cancel_event("v", f"e{n}")
        r = loop.run(send(server, wire.poll("v")))
        got = [e["event_id"] for e in r.events()] if r.status == 200 and r.type == "oadrDistributeEvent" else None
        return judge(specs, got, r)


def poll_cases(tier):
    n = range(len(CAT))
    for how in ("object", "dict"):
        for c in itertools.product(n, repeat=2):
            yield [how, list(c)]
        for c in (itertools.product([0, 2, 3, 4, 8, 9, 12, 13], repeat=3) if tier == "quick" else itertools.product(n, repeat=3)):
            yield [how, list(c)]


def scenarios(tier):
    return [Product("sequences", cases, run, "every sequence of event kinds (start x duration x priority x cancelled), four ways to supply them", chunk=128),
            Product("time-zones", zone_cases, run, "start times in different time zones", chunk=128),
            Product("permutations", perm_cases, run, "every insertion order", chunk=64),
            Product("crowds", crowd_cases, run, "up to hundreds of events at once, in several orders of arrival", chunk=1),
            Product("queue-over-time", poll_cases, run_poll, "events that change status while queued, delivered by poll", chunk=128)]
