"""C04: each event response reaches the right callback exactly once."""
import asyncio
import itertools

from .. import boot, wire, evspec
from ..core import Outcome, Histories, Product, Schedules
from ..vloop import World
from ..vtn import make_server, send

LEVEL = "model_checking"
ASSUMPTIONS = ["event ids are unique per VEN but may repeat across VENs",
               "answers to a superseded modification number may be refused or accepted; if refused they trigger nothing"]


class Sim:
    def __init__(self, loop, layout, cbkind):
        self.loop, self.cbkind = loop, cbkind
        self.server = make_server()
        self.v, self.calls, self.evs = [], [], []
        self.futs = {}
        self.fired = {}            # (ven, event) -> list of opts received
        self.want = {}             # (ven, event) -> opt of the first valid answer
        for ven, eid, kind in layout:
            kind, _, required = kind.partition("-")
            e = evspec.Ev(eid, kind, ven)
            e.required = required or "always"
            self.evs.append(e)
            evspec.add(self.server, e, "add_event" if kind != "dict" else "dict", callback=self.callback(ven, eid))
        self.calls_expected = []

    def callback(self, ven, eid):
        me = (ven, eid)
        if self.cbkind == "future":
            f = self.loop.create_future()
            self.futs[me] = f
            return f
        if self.cbkind == "sync":
            def cb(ven_id, event_id, opt_type):
                self.calls.append((me, ven_id, event_id, opt_type))
            return cb

        async def acb(ven_id, event_id, opt_type):
            self.calls.append((me, ven_id, event_id, opt_type))
            await asyncio.sleep(0)
        return acb

    def ev(self, ven, eid):
        return next((e for e in self.evs if e.ven == ven and e.id == eid), None)

    def observed(self):
        if self.cbkind == "future":
            return sorted((k, k[0], k[1], f.result()) for k, f in self.futs.items() if f.done())
        return sorted(self.calls)

    def expected(self):
        return sorted((k, k[0], k[1], o) for k, o in self.want.items())

    def check(self, what):
        if self.observed() != self.expected():
            got, want = self.observed(), self.expected()
            kind = ("lost" if len(got) < len(want) else "repeated-or-stray" if len(got) > len(want) else "wrong")
            self.v.append((f"callback-{kind}", f"after {what}: callbacks got {got}, expected {want}"))


async def do(sim, op):
    k = op[0]
    if k == "tick":
        boot.CLOCK.advance(op[1] * evspec.MIN)
        return "tick"
    if k == "cancel":
        sim.server.cancel_event(op[1], op[2])
        e = sim.ev(op[1], op[2])
        if e and not e.gone:
            e.cancelled, e.mod = True, e.mod + 1
        return "cancel"
    if k == "req":
        r = await send(sim.server, wire.request_event(op[1]))
        got = {e["event_id"]: e for e in r.events()} if r.status == 200 and r.type == "oadrDistributeEvent" else {}
        want = {e.id: e for e in sim.evs if e.ven == op[1] and not e.gone}
        if set(got) != set(want) or any(got[i]["status"] != want[i].status() or got[i]["mod"] != want[i].mod for i in want):
            sim.v.append(("events-disturbed", f"{op[1]} is sent {[(g['event_id'], g['status'], g['mod']) for g in got.values()]}, "
                          f"should be {[(e.id, e.status(), e.mod) for e in want.values()]}"))
        for i, e in want.items():
            if e.status() == "completed":
                e.gone = True
            if e.mod not in e.delivered_mods:
                e.delivered_mods.append(e.mod)
        return sorted(got)
    if k == "answer":
        _, ven, resps = op
        r = await send(sim.server, wire.created_event(ven, [tuple(x) for x in resps]))
        bad = stale = False
        maybe = []
        for eid, mod, opt in resps:
            e = sim.ev(ven, eid)
            if e is None or mod > e.mod:
                bad = True
            elif mod == e.mod and not (e.gone and e.cancelled):
                sim.want.setdefault((ven, eid), opt)
                if e.cancelled:
                    e.gone = True
            else:
                stale = True
                maybe.append((ven, eid, opt))
        for ven_, eid, opt in maybe:
            # an accepted stale answer may count as the first answer
            if (ven_, eid) not in sim.want and r.status == 200 and r.resp()[0] == 200 and \
                    ((ven_, eid), ven_, eid, opt) in sim.observed():
                sim.want[(ven_, eid)] = opt
        if r.status != 200 or r.schema_error or r.type != "oadrResponse":
            sim.v.append(("answer-reply", f"answer {resps} of {ven}: {r.summary()} {r.schema_error if r.status == 200 else ''}"))
        else:
            code = r.resp()[0]
            if bad and code != 452:
                sim.v.append(("unknown-accepted", f"answer {resps} of {ven} got {r.resp()}"))
            if not bad and not stale and code != 200:
                sim.v.append(("valid-refused", f"answer {resps} of {ven} got {r.resp()}"))
        sim.check(op)
        return r.summary()
    raise AssertionError(op)


LAYOUTS = {"one": [("ven1", "a", "A"), ("ven1", "b", "F")],
           "shared": [("ven1", "a", "A"), ("ven2", "a", "F-never")],
           "two": [("ven1", "a", "A"), ("ven2", "b", "A")]}


def ops(sim, layout, multi):
    vens = sorted({e.ven for e in sim.evs})
    out = []
    for ven in vens + (["ven3"] if multi else []):
        mine = [e for e in sim.evs if e.ven == ven]
        others = sorted({e.id for e in sim.evs} - {e.id for e in mine})
        good = [(e.id, m, "optIn" if e.id == "a" else "optOut") for e in mine for m in sorted(set(e.delivered_mods) | {e.mod + 7})]
        good += [(o, 0, "optIn") for o in others]
        if not good:
            good = [("a", 0, "optIn")]
        for g in good:
            out.append(("answer", ven, (g,)))
        if multi:
            for x, y in itertools.permutations(good, 2):
                out.append(("answer", ven, (x, y)))
            for x in good:
                out.append(("answer", ven, (x, (x[0], x[1], "optOut"))))
        elif good:
            out.append(("answer", ven, ((good[0][0], good[0][1], "optOut"),)))
        if mine:
            out.append(("req", ven))
        for e in mine:
            if e.mod == 0 and not e.gone:
                out.append(("cancel", ven, e.id))
    if boot.CLOCK.us < 3600e6:
        out.append(("tick", 25))
    return out


def run(param, hist):
    name, cb, multi = param
    with World() as loop:
        sim = Sim(loop, LAYOUTS[name], cb)
        for ven in sorted({e.ven for e in sim.evs}):
            loop.run(do(sim, ("req", ven)))
        o = None
        for op in hist:
            o = loop.run(do(sim, op))
            loop.settle()
            if op is hist[-1]:
                sim.check(op)
        if loop.errors:
            sim.v.append(("loop-error", repr(loop.errors)[:400]))
        canon = (boot.CLOCK.us, evspec.server_state(sim.server), tuple(sorted(sim.observed())), tuple(sorted(sim.want.items())),
                 tuple((e.id, e.ven, e.mod, e.cancelled, e.gone, tuple(e.delivered_mods)) for e in sim.evs))
        return Outcome(sim.v, obs=(hist[-1] if hist else None, o), canon=canon, ops=ops(sim, name, multi))


# -- many events at once ----------------------------------------------------------------------------------------------

def crowd_cases(tier):
    for n in (7, 12, 33, 101) if tier == "quick" else (7, 10, 12, 17, 33, 65, 101, 130, 257):
        for cb in ("sync", "async", "future"):
            for how in ("forwards", "backwards", "halves", "with-unknown", "cancelled"):
                yield [n, cb, how]


def run_crowd(case):
    """n events of two VENs, answered in few messages with many answers each"""
    n, cb, how = case
    with World() as loop:
        sim = Sim(loop, [(("ven1", "ven2")[i % 4 == 3], f"e{i if i % 4 != 3 else i - 1}", "AF"[i % 2]) for i in range(n)], cb)
        o = []

        def step(*op):
            o.append(repr(loop.run(do(sim, op)))[:200])
            loop.settle()
            sim.check(op[:2])
        for ven in ("ven1", "ven2"):
            step("req", ven)
        if how == "cancelled":
            for e in sim.evs[::2]:
                step("cancel", e.ven, e.id)
        for rounds in (0, 1):                     # the second round changes nothing
            for ven in ("ven1", "ven2"):
                rs = [(e.id, e.mod, ("optIn", "optOut")[(k + rounds) % 2]) for k, e in enumerate(sim.evs) if e.ven == ven and not (e.gone and e.cancelled)]
                if how == "backwards":
                    rs = rs[::-1]
                if how == "with-unknown":
                    rs.insert(len(rs) // 2, ("nobodys", 0, "optIn"))
                for part in ([rs[:len(rs) // 2], rs[len(rs) // 2:]] if how == "halves" else [rs]):
                    if part:
                        step("answer", ven, part)
                step("req", ven)
        if loop.errors:
            sim.v.append(("loop-error", repr(loop.errors)[:400]))
        return Outcome(sim.v, obs=o, steps=len(o))


# -- unusual but valid messages
ODD = ["no-responses", "empty-responses", "error-code", "unknown-ven", "unknown-ven-no-responses"]


def run_odd(case):
    what, cb = case
    with World() as loop:
        sim = Sim(loop, LAYOUTS["one"], cb)
        loop.run(do(sim, ("req", "ven1")))
        if what == "no-responses":
            x, want = wire.created_event("ven1", None), 200
        elif what == "empty-responses":
            x, want = wire.created_event("ven1", []), 200
        elif what == "error-code":
            x, want = wire.created_event("ven1", None, code=452), 200
        elif what == "unknown-ven":
            x, want = wire.created_event("ven9", [("a", 0, "optIn")]), 452
        else:
            x, want = wire.created_event("ven9", None), 200
        r = loop.run(send(sim.server, x))
        v = []
        if r.status != 200 or r.type != "oadrResponse" or r.resp()[0] != want:
            v.append((f"odd-{what}", f"{what}: got {r.summary()}, expected {want}"))
        sim.check(what)
        # the server still works afterwards
        loop.run(do(sim, ("answer", "ven1", (("a", 0, "optIn"), ("b", 0, "optOut")))))
        return Outcome(v + sim.v, obs=r.summary())


# -- callbacks that fail: the other answers of the message, and later ones, are not affected
def failing_cases(tier):
    evs = ["a", "b", "c"]
    for kind in ("sync", "async", "late"):
        for k in range(1, 4):
            for fails in itertools.combinations(evs, k):
                for order in itertools.permutations(evs):
                    for unknown in (None, 0, 1, 3):
                        if tier == "quick" and unknown is not None and order[0] > order[1]:
                            continue
                        yield [kind, list(fails), list(order), unknown]


def run_failing(case):
    kind, fails, order, unknown = case
    with World() as loop:
        server = make_server()
        calls = []

        def mk(eid):
            bad = eid in fails

            def cb(ven_id, event_id, opt_type):
                calls.append((eid, ven_id, event_id, opt_type))
                if bad and kind != "async":
                    raise RuntimeError("application error")

            async def acb(ven_id, event_id, opt_type):
                calls.append((eid, ven_id, event_id, opt_type))
                if kind == "late":
                    await asyncio.sleep(0)
                if bad:
                    raise KeyError("application error")
            return acb if kind in ("async", "late") else cb
        opts = {"a": "optIn", "b": "optOut", "c": "optIn"}
        for eid, k in (("a", "A"), ("b", "F"), ("c", "A")):
            evspec.add(server, evspec.Ev(eid, k, "ven1"), callback=mk(eid))
        loop.run(send(server, wire.request_event("ven1")))
        resps = [(e, 0, opts[e]) for e in order]
        if unknown is not None:
            resps.insert(unknown, ("zz", 0, "optIn"))
        r = loop.run(send(server, wire.created_event("ven1", resps)))
        v = []
        if sorted(calls) != [(e, "ven1", e, opts[e]) for e in "abc"]:
            v.append(("failing-callback-affects-others", f"answers {resps}, the callbacks of {fails} fail: called {calls}"))
        # a second answer calls nobody, and the events are as they were
        r2 = loop.run(send(server, wire.created_event("ven1", [(e, 0, "optOut") for e in order])))
        if len(calls) > 3:
            v.append(("callback-repeated-or-stray", f"second answers after {fails} failed: called {calls[3:]}"))
        r3 = loop.run(send(server, wire.request_event("ven1")))
        if sorted((e["event_id"], e["mod"]) for e in r3.events()) != [("a", 0), ("b", 0), ("c", 0)]:
            v.append(("events-disturbed", f"after {fails} failed: {[(e['event_id'], e['mod']) for e in r3.events()]}"))
        return Outcome(v, obs=(r.summary(), r2.summary()))


# -- overlapping answers: callbacks that take time
SCRIPTS = [
    [("answer", "ven1", [("a", 0, "optIn")]), ("answer", "ven1", [("a", 0, "optOut")]), ("answer", "ven2", [("a", 0, "optOut")])],
    [("answer", "ven1", [("a", 0, "optIn"), ("b", 0, "optIn")]), ("answer", "ven1", [("b", 0, "optOut"), ("a", 0, "optOut")]), ("cancel", "ven1", "a")],
    [("answer", "ven1", [("a", 0, "optIn")]), ("cancel", "ven1", "a"), ("req", "ven1"), ("answer", "ven1", [("a", 1, "optOut")])],
    [("answer", "ven1", [("a", 0, "optIn"), ("b", 0, "optIn")]), ("answer", "ven2", [("a", 0, "optOut")]), ("req", "ven1"), ("req", "ven2")],
]


def run_overlap(param, ch):
    script = SCRIPTS[param]
    with World() as loop:
        server = make_server()
        gates, calls, started = [], [], []
        for ven, eid in (("ven1", "a"), ("ven1", "b"), ("ven2", "a")):
            def mk(me):
                async def cb(ven_id, event_id, opt_type):
                    calls.append((me, ven_id, event_id, opt_type))
                    f = loop.create_future()
                    gates.append(f)
                    await f
                return cb
            evspec.add(server, evspec.Ev(eid, "A", ven), callback=mk((ven, eid)))
        loop.run(send(server, wire.request_event("ven1")))
        loop.run(send(server, wire.request_event("ven2")))
        todo = list(range(len(script)))
        tasks = {}
        while True:
            opts = [("start", i) for i in todo] + [("release", i) for i, g in enumerate(gates) if not g.done()]
            if not opts:
                break
            what, i = ch.choose(opts)
            if what == "release":
                gates[i].set_result(None)
            else:
                todo.remove(i)
                op = script[i]
                started.append(op)
                if op[0] == "answer":
                    tasks[i] = loop.create_task(send(server, wire.created_event(op[1], op[2])))
                elif op[0] == "cancel":
                    server.cancel_event(op[1], op[2])
                else:
                    tasks[i] = loop.create_task(send(server, wire.request_event(op[1])))
            loop.settle()
        v = []
        for i, t in tasks.items():
            if not t.done():
                v.append(("never-answered", f"{script[i]} got no answer"))
            elif t.result().status != 200:
                v.append(("http-error", f"{script[i]} got {t.result().summary()}"))
        # what each callback must have received
        per = {}
        for me, ven, eid, opt in calls:
            per.setdefault(me, []).append((ven, eid, opt))
        cancelled = False
        for me in (("ven1", "a"), ("ven1", "b"), ("ven2", "a")):
            offers = []
            for op in started:
                if op[0] == "answer" and op[1] == me[0]:
                    offers += [o for (e, m, o) in op[2] if e == me[1]]
            got = per.get(me, [])
            if len(got) > 1:
                v.append(("callback-repeated-or-stray", f"{me} called {got}"))
            for g in got:
                if g[:2] != me or g[2] not in offers:
                    v.append(("callback-wrong", f"{me} called with {g}, answers were {offers}"))
            if offers and not got and not any(o[0] == "cancel" for o in script):
                v.append(("callback-lost", f"{me} never called; answers {offers}"))
        return Outcome(v, obs=tuple(sorted(map(repr, calls))))


def scenarios(tier):
    cbs = ("sync", "async", "future")
    ms = 40000 if tier == "quick" else 300000
    return [Histories("answers", run, {"quick": 5, "thorough": 7}, [(l, c, False) for l in LAYOUTS for c in cbs],
                      "single answers, all callback kinds, ids shared between VENs", max_states=ms),
            Histories("combined-answers", run, {"quick": 3, "thorough": 4}, [(l, c, True) for l in LAYOUTS for c in cbs],
                      "two answers in one message, in every combination and order", max_states=ms),
            Product("crowds", crowd_cases, run_crowd, "up to a hundred (257) events, answered in few messages", chunk=1),
            Product("odd-messages", lambda t: itertools.product(ODD, cbs), run_odd, "valid messages without answers; VENs without events"),
            Product("failing-callbacks", failing_cases, run_failing, "three answers in one message in every order, with every set of failing callbacks and an unknown event", chunk=32),
            Schedules("overlapping", run_overlap, list(range(len(SCRIPTS))), "answers, cancellations and requests that overlap slow callbacks")]
