"""C05: the VEN answers every event exactly as its handlers decided."""
import functools
from datetime import timedelta

from .. import boot, wire, evspec
from ..core import Outcome, Histories, Product
from ..vloop import World
from ..ven import Net, AutoVTN, make_client, start, periodic

LEVEL = "model_checking"
ASSUMPTIONS = ["the ids of VTN and VEN are mixed case, as the standard demands",
               "a signal is unsupported if its name is not one of the standard's names (the schema then requires x-…)",
               "polls do not overlap (the scheduler never runs a poll while one is in progress)"]
MIN = timedelta(minutes=1)

# kind of event: start, length (minutes), response required, signals
KINDS = {
    "plain": (0, 30, "always", [("LOAD_CONTROL", "level", [(0 * MIN, 30 * MIN, 1)])]),
    "later": (40, 30, "always", [("SIMPLE", "level", [(0 * MIN, 30 * MIN, 1)])]),
    "never": (0, 30, "never", [("SIMPLE", "level", [(0 * MIN, 30 * MIN, 1)])]),
    "xsig": (0, 30, "always", [("x-own", "level", [(0 * MIN, 30 * MIN, 1)])]),
    "xsig2": (0, 30, "always", [("SIMPLE", "level", [(0 * MIN, 30 * MIN, 1)]), ("x-own", "level", [(0 * MIN, 30 * MIN, 1)])]),
    "xsig1": (0, 30, "always", [("x-own", "level", [(0 * MIN, 30 * MIN, 1)]), ("SIMPLE", "level", [(0 * MIN, 30 * MIN, 1)])]),
    "over": (-60, 30, "always", [("SIMPLE", "level", [(0 * MIN, 30 * MIN, 1)])]),
    "open": (-60, 0, "always", [("SIMPLE", "level", [(0 * MIN, 0 * MIN, 1)])]),
    "two": (0, 30, "always", [("SIMPLE", "level", [(0 * MIN, 10 * MIN, 1), (10 * MIN, 20 * MIN, 2)]), ("ELECTRICITY_PRICE", "price", [(0 * MIN, 30 * MIN, 3.5)])]),
}

# what the handlers do, per event (position 0, 1, 2)
RESULTS = {"in": "optIn", "out": "optOut", "none": None, "word": "maybe", "zero": 0, "list": ["optIn"], "dict": {}, "true": True, "raise": "RAISE", "key": "RAISE-KEY"}


class Ven:
    """the real client, and the model"""
    def __init__(self, loop, param):
        self.loop, (self.kinds, self.style, self.update) = loop, param[:3]
        self.vtn = AutoVTN()
        self.net = Net(self.vtn)
        self.client = make_client(self.net)
        self.calls, self.want_calls = [], []
        self.results = {}
        self.v = []
        # the VTN's events
        self.ev = {}                  # id -> dict(mod, status, start)
        # the model's memory of the VEN
        self.known = {}               # id -> [mod, raw choice]
        self.nreq = 0
        mk = functools.partial(self.make)
        self.client.add_handler("on_event", mk("event"))
        if self.update:
            self.client.add_handler("on_update_event", mk("update"))

    def make(self, what):
        def decide(event):
            eid = event["event_descriptor"]["event_id"]
            self.calls.append((what, eid, event["event_descriptor"]["modification_number"]))
            r = self.results.get(eid)
            if r == "RAISE":
                raise RuntimeError("handler failed")
            if r == "RAISE-KEY":
                raise KeyError("event_id")
            return r

        async def adecide(event):
            import asyncio
            await asyncio.sleep(0)
            return decide(event)

        class Obj:
            def __call__(self, event):
                return decide(event)
        return {"sync": decide, "async": adecide, "partial": functools.partial(adecide), "object": Obj()}[self.style]

    def over(self, eid):
        e = self.ev[eid]
        return e["len"] > 0 and boot.CLOCK.now() >= e["start"] + e["len"] * MIN

    def status(self, eid):
        e = self.ev[eid]
        if e["cancelled"]:
            return "cancelled"
        if self.over(eid):
            return "completed"
        return "active" if boot.CLOCK.now() >= e["start"] else "far"

    def message(self, items, request_id=None):
        """items: (index, variant); creates or changes the VTN's events accordingly"""
        xs = []
        for i, variant in items:
            eid = f"Event-{i}"
            if eid not in self.ev:
                s, n, req, sig = KINDS[self.kinds[i]]
                self.ev[eid] = {"mod": 0, "cancelled": False, "start": boot.CLOCK.now() + s * MIN, "len": n, "req": req, "sig": sig}
            elif variant == "mod":
                self.ev[eid]["mod"] += 1
            elif variant == "back":            # the VTN was reset, or an older message arrives late
                self.ev[eid]["mod"] -= 1
            if variant == "cancel" and not self.ev[eid]["cancelled"]:
                if eid in self.known:
                    self.ev[eid]["mod"] += 1
                self.ev[eid]["cancelled"] = True
            e = self.ev[eid]
            xs.append(wire.event(eid, mod=e["mod"], status=self.status(eid), start=e["start"], duration=e["len"] * MIN,
                                 response_required=e["req"], signals=e["sig"]))
        return wire.distribute_event(xs, request_id=request_id or "rq")

    def expect(self, items, rid):
        """what the handlers must see and what must be answered; updates the model"""
        calls, answers = [], []
        for i, _ in items:
            eid = f"Event-{i}"
            e = self.ev[eid]
            k = self.known.get(eid)
            if k is None:
                calls.append(("event", eid, e["mod"]))
                raw = self.results.get(eid)
            elif k[0] != e["mod"]:
                if self.update:
                    calls.append(("update", eid, e["mod"]))
                    raw = self.results.get(eid)
                else:
                    raw = k[1]
            else:
                raw = k[1]
            self.known[eid] = [e["mod"], raw]
            opt = raw if isinstance(raw, str) and raw in ("optIn", "optOut") else "optOut"
            if e["req"] == "always" and (e["cancelled"] or not self.over(eid)):
                bad = any(n.startswith("x-") for n, _, _ in e["sig"])
                answers.append((eid, e["mod"], opt, "460" if bad else "200", rid))
        return calls, answers

    def deliver(self, items, mode, via="poll"):
        for (i, _), m in zip(items, mode):
            self.results[f"Event-{i}"] = RESULTS[m]
        self.nreq += 1
        rid = f"vtn-request-{self.nreq}"
        xml = self.message(items, rid)
        calls, answers = self.expect(items, rid)
        n0, c0 = len(self.net.log), len(self.calls)
        if via == "poll":
            self.vtn.polls.append(xml)
            self.loop.run(periodic(self.client, "poll")[0].fire())
        elif via == "start":
            self.vtn.override["oadrRequestEvent"] = xml
            start(self.loop, self.client)
            del self.vtn.override["oadrRequestEvent"]
        else:
            self.vtn.override["oadrRequestEvent"] = xml
            self.loop.run(self.client.sync_events())
            del self.vtn.override["oadrRequestEvent"]
        tag = f"{via} {items} {mode}"
        got = self.calls[c0:]
        if sorted(got) != sorted(calls):
            self.v.append(("handlers", f"{tag}: handlers called {got}, expected {calls}"))
        sent = [r for r in self.net.log[n0:] if r.type == "oadrCreatedEvent"]
        other = [r.type for r in self.net.log[n0:] if r.type not in ("oadrCreatedEvent", "oadrPoll", "oadrRequestEvent", "oadrQueryRegistration",
                                                                     "oadrCreatePartyRegistration", "oadrRegisterReport")]
        if other:
            self.v.append(("other-messages", f"{tag}: sent {other}"))
        if len(sent) != (1 if answers else 0):
            self.v.append(("number-of-responses", f"{tag}: {len(sent)} responses sent, {1 if answers else 0} expected"))
            return (got, None)
        if not sent:
            return (got, None)
        r = sent[0]
        if r.schema_error or r.service != "EiEvent":
            self.v.append(("response-form", f"{tag}: sent to {r.service}, {r.schema_error}"))
        n = r.node.find("eiCreatedEvent")
        if n.get("venID") != "ven1" or n.get("eiResponse/responseCode") != "200":
            self.v.append(("response-head", f"{tag}: venID {n.get('venID')} code {n.get('eiResponse/responseCode')}"))
        ans = [(a.get("qualifiedEventID/eventID"), int(a.get("qualifiedEventID/modificationNumber")), a.get("optType"), a.get("responseCode"), a.get("requestID"))
               for a in (n.find("eventResponses").all("eventResponse") if n.find("eventResponses") else [])]
        if sorted(ans) != sorted(answers):
            self.v.append(("answers", f"{tag}: answered {ans}, expected {answers}"))
        return (got, ans)

    def clean(self):
        self.loop.run(periodic(self.client, "clean")[0].fire())
        for eid in list(self.known):
            if self.ev[eid]["cancelled"] or self.over(eid):
                del self.known[eid]
        have = sorted(e["event_descriptor"]["event_id"] for e in self.client.received_events)
        if have != sorted(self.known):
            self.v.append(("memory", f"after clean-up the VEN knows {have}, expected {sorted(self.known)}"))
        return have

    def do(self, op):
        if op[0] == "msg":
            return self.deliver(op[1], op[2])
        if op[0] == "sync":
            return self.deliver(op[1], op[2], via="sync")
        if op[0] == "clean":
            return self.clean()
        if op[0] == "log":
            return self.loop.run(periodic(self.client, "log")[0].fire())
        if op[0] == "tick":
            boot.CLOCK.advance(op[1] * MIN)

    def canon(self):
        return (boot.CLOCK.us, evspec.snapshot(self.client.received_events), evspec.snapshot(self.client.responded_events), repr(self.ev), repr(self.known))


def ops(w, modes, pairs, ticks):
    out = []
    n = len(w.kinds)

    def variants(i):
        e = w.ev.get(f"Event-{i}")
        if e is None:
            return ["same"]
        return ["same"] + (["mod"] if e["mod"] < 2 and not e["cancelled"] else []) + (["back"] if e["mod"] and not e["cancelled"] else []) + (["cancel"] if not e["cancelled"] else [])
    for i in range(n):
        for v in variants(i):
            for m in modes:
                out.append(("msg", ((i, v),), (m,)))
    if pairs:
        for i in range(n):
            for j in range(n):
                if i != j and (i < j or pairs == "both"):
                    for v in variants(i):
                        for x in variants(j):
                            for m in modes:
                                for k in modes:
                                    if m == k or pairs == "both" or "raise" in (m, k):
                                        out.append(("msg", ((i, v), (j, x)), (m, k)))
    out += [("clean",), ("log",)]
    if boot.CLOCK.us < 100 * 60e6:
        out += [("tick", t) for t in ticks]
    return out


def run(param, hist):
    kinds, style, update, modes, pairs, ticks = param
    with World() as loop:
        w = Ven(loop, (kinds, style, update))
        start(loop, w.client)
        o = None
        for op in hist:
            o = w.do(op)
        if loop.errors:
            w.v.append(("loop-error", repr(loop.errors)[:500]))
        return Outcome(w.v, obs=(hist[-1] if hist else None, repr(o)), canon=w.canon(), ops=ops(w, modes, pairs, ticks), steps=max(1, len(hist)))


def run_single(case):
    """a first distribution (through start-up, poll or sync), then the same events again, then changed ones"""
    kinds, style, update, modes, via, again = case
    with World() as loop:
        w = Ven(loop, (tuple(kinds), style, update))
        items = tuple((i, "same") for i in range(len(kinds)))
        if via != "start":
            start(loop, w.client)
        o = [w.deliver(items, modes, via)]
        o.append(w.deliver(items, again))
        o.append(w.deliver(tuple((i, "mod") for i in range(len(kinds))), again[::-1], "sync"))
        o.append(w.clean())
        if loop.errors:
            w.v.append(("loop-error", repr(loop.errors)[:500]))
        return Outcome(w.v, obs=repr(o), steps=4)


def singles(tier):
    out = []
    names = list(KINDS)
    for style in ("sync", "async", "partial", "object"):
        for update in (True, False):
            for via in ("start", "poll", "sync"):
                for k in names:
                    for m in RESULTS:
                        for a in ("in", "raise"):
                            out.append(((k,), style, update, (m,), via, (a,)))
    for k in names:
        for k2 in names:
            for m in (("in", "out", "none", "raise") if tier == "quick" else RESULTS):
                for m2 in (("in", "raise") if tier == "quick" else RESULTS):
                    out.append(((k, k2), "sync", True, (m, m2), "poll", ("out", "in")))
    mset = ("in", "out", "word", "key")
    trip = [("plain", "never", "xsig"), ("plain", "plain", "plain"), ("over", "plain", "open"), ("two", "over", "never")]
    if tier == "thorough":
        import itertools
        trip = list(itertools.product(names, repeat=3))
        mset = ("in", "none", "raise")
    for t in trip:
        for a in mset:
            for b in mset:
                for c in mset:
                    out.append((t, "async", True, (a, b, c), "poll", ("in", "out", "raise")))
    return out


def crowd_cases(tier):
    names, res = list(KINDS), list(RESULTS)
    for n in (7, 12, 33, 101) if tier == "quick" else (7, 10, 12, 17, 33, 65, 101, 130, 257):
        for i in range(6):
            step = (1, 2, 3, 5, 7, 11)[i]
            yield (tuple(names[k * step % len(names)] for k in range(n)), ("sync", "async")[i % 2], i != 3, tuple(res[k * (i + 1) % len(res)] for k in range(n)),
                   ("poll", "start", "sync")[i % 3], tuple(res[(k + i) % len(res)] for k in range(n)))


# -- responses that the application sends itself ----------------------------------------------------------------------------------

def own_cases(tier):
    for known in ("unknown", "poll", "start"):
        for eid in ("ev0", "0", "a&b <c>", "ünï"):
            for rid in ("rq1", "007", "x" * 100, "a&b"):
                for opt in ("optIn", "optOut"):
                    for mod in (None, 0, 1, 10, 2 ** 31):
                        for first in ("one", "two"):
                            yield [known, eid, rid, opt, mod, first]


def run_own(case):
    known, eid, rid, opt, mod, first = case
    v = []
    with World() as loop:
        vtn = AutoVTN()
        net = Net(vtn)
        c = make_client(net)
        c.add_handler("on_event", lambda event: "optIn")
        xml = wire.distribute_event([wire.event(eid, start=boot.T0 + 5 * MIN)])
        if known == "start":
            vtn.override["oadrRequestEvent"] = lambda rec: xml
        start(loop, c)
        if known == "poll":
            vtn.polls.append(xml)
            loop.run(c._poll())
        kw = {} if mod is None else {"modification_number": mod}
        want = []
        n = len(net.log)
        for o in (opt,) if first == "one" else (opt, "optOut", opt):
            loop.run(c.created_event(rid, eid, o, **kw))
            want.append((eid, mod or 0, o))
        loop.settle()
        got = []
        for r in net.log[n:]:
            if r.type != "oadrCreatedEvent" or r.schema_error:
                v.append(("own-response", f"{case}: sent {r.type} {r.schema_error}"))
                continue
            m = wire.read_created_event(r.node)
            got += [(x["event_id"], x["mod"], x["opt"]) for x in m["responses"]]
            if m["ven_id"] != c.ven_id or len(m["responses"]) != 1 or m["response"][0] != 200 or any(
                    x["code"] != 200 or x["request_id"] != rid for x in m["responses"]):
                v.append(("own-response", f"{case}: sent {m}"))
        if got != want:
            v.append(("own-response", f"{case}: sent {got}, the application said {want}"))
        return Outcome(v, obs=case, steps=len(want) + 1)


def scenarios(tier):
    q = tier == "quick"
    cap = 60000 if q else 400000
    one = [((k,), st, up, ("in", "out", "none", "raise"), None, (35,)) for k, st, up in
           (("plain", "sync", True), ("plain", "async", False), ("xsig", "sync", True), ("never", "sync", True), ("later", "async", True), ("open", "sync", True))]
    two = [(("plain", k), st, up, ("in", "out", "raise"), True if q else "both", (35,)) for k, st, up in
           (("later", "sync", True), ("xsig2", "async", True), ("never", "sync", True), ("plain", "sync", False))]
    return [Product("first-contact", singles, run_single, "1-3 events of every kind × handler results × handler kinds × ways of delivery; repeated, then modified", chunk=32),
            Product("crowds", crowd_cases, run_single, "distributions of up to a hundred (257) events of all kinds, repeated, then modified", chunk=1),
            Product("own-responses", own_cases, run_own, "responses that the application sends itself, for events known or not", chunk=16),
            Histories("one-event", run, {"quick": 5, "thorough": 7}, one, "all histories of (re)deliveries, changes, cancellation, expiry and clean-up of one event", max_states=cap),
            Histories("two-events", run, {"quick": 3, "thorough": 4}, two, "the same for two events, together in one message or apart", max_states=cap)]
