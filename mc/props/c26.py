"""C26: a VTN and a VEN that talk to each other agree on the events."""
import asyncio
from datetime import timedelta
from fractions import Fraction

from .. import boot, sign, vtn, evspec
from ..core import Outcome, Histories
from ..vloop import World
from ..ven import Net, make_client, periodic

LEVEL = "model_checking"
ASSUMPTIONS = ["every message arrives (losses and failures are explored by C13 and C23)",
               "an event that the VEN has cleaned up because it is over or cancelled is a new one if the VTN lists it once more (see C05)",
               "an answer to a superseded version of an event is refused, and the VEN answers the next version"]


class Party:
    """a VEN with its handlers, and what the specification knows about it"""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.known = {}              # event id -> {mod, over, ok: statuses that it may show}
        self.calls, self.want = [], []
        self.client = None
        self.gate = None
        self.pending = None          # a poll whose handlers have not been awaited yet

    def start(self):
        sim = self.sim
        kw = {}
        if sim.signed:
            kw = dict(cert=sign.path(self.name), key=sign.path(self.name, "key"), vtn_fingerprint=sign.fingerprint("vtn"))
        self.client = make_client(Net(self.transport), self.name, self.name, **kw)
        for h in ("on_event", "on_update_event"):
            self.client.add_handler(h, self.handler(h))
        self.known = {}

    async def transport(self, net, rec):
        kw = dict(secure=True, der=sign.der(self.name)) if self.sim.signed else {}
        r = await vtn.send(self.sim.server, rec.data, rec.service, content_type=rec.content_type, **kw)
        if r.status != 200:
            self.sim.v.append(("http", f"{self.name}'s {rec.type} got HTTP {r.status}: {r.body[:200]}"))
        return r.status, r.body

    def handler(self, name):
        async def fn(event):
            i, m = event["event_descriptor"]["event_id"], event["event_descriptor"]["modification_number"]
            self.calls.append((name, i, m))
            e = self.sim.ev(self.name, i)
            if e is None:
                self.sim.v.append(("foreign", f"{self.name}'s {name} is given {i}, which is not its event"))
            else:
                for k, got, want in content(event, e):
                    if got != want and not (self.pending and k in ("status", "modification_number")):
                        self.sim.v.append((f"content:{k}", f"{self.name}'s {name} is given {i} ({e.kind}) with {k} {got!r}, added with {want!r}"))
            if self.gate is not None:
                g, self.gate = self.gate, None
                await g
            return choice(i, m)
        return fn

    # the specification of what a distribution does
    def receive(self, listed):
        """-> the answers: (event, modification number, opt)"""
        out = []
        for e in listed:
            st = e.status()
            k = self.known.get(e.id)
            if k is None or k["mod"] != e.mod:
                self.want.append(("on_event" if k is None else "on_update_event", e.id, e.mod))
                self.known[e.id] = {"mod": e.mod, "ok": {st}}
            out.append((e, e.mod, choice(e.id, e.mod)))
        return out

    def over(self, i):
        e = self.sim.ev(self.name, i)
        return self.known[i]["ok"] == {"cancelled"} or bool(e.duration) and boot.CLOCK.now() >= e.start + e.duration

    def check(self, what):
        v = self.sim.v
        if self.pending:
            if any(self.calls.count(c) > self.want.count(c) for c in self.calls):
                v.append(("handlers-stray", f"during {what}: handler calls at {self.name} {self.calls}, expected {self.want}"))
            return
        if sorted(self.calls) != sorted(self.want):
            more = [c for c in self.calls if self.calls.count(c) > self.want.count(c)]
            less = [c for c in self.want if self.want.count(c) > self.calls.count(c)]
            v.append(("handlers-" + ("repeated" if more and more[0] in self.want else "stray" if more else "missed"),
                      f"after {what}: handler calls at {self.name} {self.calls}, expected {self.want}"))
        got = {}
        for e in self.client.received_events:
            d = e["event_descriptor"]
            if d["event_id"] in got:
                v.append(("known-twice", f"after {what}: {self.name} has {d['event_id']} twice"))
            got[d["event_id"]] = (d["modification_number"], d["event_status"])
        want = {i: k["mod"] for i, k in self.known.items()}
        if {i: g[0] for i, g in got.items() if i in want or not self.was_over(i)} != want:
            v.append(("known", f"after {what}: {self.name} knows {got}, expected {want}"))
        for i, k in self.known.items():
            if i in got and got[i][1] not in k["ok"]:
                v.append((f"status", f"after {what}: {self.name} shows {i} as {got[i][1]}, expected {sorted(k['ok'])}"))

    def was_over(self, i):
        return i not in self.known

    def agree(self, what):
        """after a poll with nothing left to send: both sides have the same events"""
        sim = self.sim
        live = {e.id: (e.mod, e.status()) for e in sim.evs if e.ven == self.name and not e.gone and e.status() not in ("cancelled", "completed")}
        have = {}
        for e in self.client.received_events:
            d = e["event_descriptor"]
            if d["event_status"] != "cancelled" and not self.over_now(e):
                have[d["event_id"]] = d["modification_number"]
        if have != {i: m for i, (m, s) in live.items()}:
            sim.v.append(("disagree", f"after {what}: live at the VTN {live}, known to {self.name} {have}"))
        real = {}
        for e in sim.server.events.get(self.name, []):
            from openleadr import utils
            d = utils.getmember(e, "event_descriptor")
            real[utils.getmember(d, "event_id")] = utils.getmember(d, "modification_number")
        if {i: m for i, m in real.items() if i in live} != {i: m for i, (m, s) in live.items()}:
            sim.v.append(("disagree", f"after {what}: the VTN holds {real}, live are {live}"))

    @staticmethod
    def over_now(e):
        p = e["active_period"]
        return bool(p["duration"]) and boot.CLOCK.now() >= p["dtstart"] + p["duration"]


def choice(i, m):
    return "optIn" if (int(i[1:]) + m) % 2 == 0 else "optOut"


def content(event, e):
    p, s = event["active_period"], event["event_signals"]
    yield "start", p["dtstart"], e.start
    yield "duration", p["duration"], e.duration
    yield "ramp_up_period", p.get("ramp_up_period"), e.ramp
    yield "status", event["event_descriptor"]["event_status"], e.status()
    yield "modification_number", event["event_descriptor"]["modification_number"], e.mod
    yield "priority", event["event_descriptor"].get("priority") or 0, e.priority
    yield "market_context", event["event_descriptor"]["market_context"], "http://ctx/" + e.kind
    yield "response_required", event["response_required"], e.required
    yield "targets", event["targets"], [{"ven_id": e.ven}]
    yield "signals", [(x["signal_name"], x["signal_type"], [(i["dtstart"], i["duration"], Fraction(i["signal_payload"])) for i in x["intervals"]]) for x in s], \
        [("SIMPLE", "level", [(a, b, Fraction(c)) for a, b, c in e.ivs])]


class Sim:
    def __init__(self, loop, vens, signed=False, cb="sync"):
        self.loop, self.signed, self.cb = loop, signed, cb
        self.v, self.evs, self.calls, self.answers, self.futs = [], [], [], {}, {}
        self.late = {}
        kw = {}
        if signed:
            kw = dict(cert=sign.path("vtn"), key=sign.path("vtn", "key"),
                      ven_lookup=lambda ven_id: {"ven_id": ven_id, "ven_name": ven_id, "fingerprint": sign.fingerprint(ven_id), "registration_id": "reg_" + ven_id})
        self.server = vtn.make_server(**kw)
        self.server.add_handler("on_create_party_registration", lambda info: (info["ven_name"], "reg_" + info["ven_name"]))
        self.updated = {v: False for v in vens}
        self.parties = {v: Party(self, v) for v in vens}
        for p in self.parties.values():
            p.start()
            loop.run(p.client.run())

    def ev(self, ven, i):
        return next((e for e in self.evs if e.ven == ven and e.id == i), None)

    def callback(self, ven, i):
        if self.cb == "future":
            self.futs[ven, i] = self.loop.create_future()
            return self.futs[ven, i]

        def cb(ven_id, event_id, opt_type):
            self.calls.append((ven, i, ven_id, event_id, opt_type))
        return cb

    def list(self, ven):
        """what the VTN lists; completed events are listed for the last time"""
        out = [e for e in self.evs if e.ven == ven and not e.gone]
        for e in out:
            if e.status() == "completed":
                e.gone = True
                self.late[e.ven, e.id] = e.mod
        return out

    def answer(self, ven, answers):
        """the VEN's answers reach the VTN"""
        for e, mod, opt in answers:
            if e.required != "always" or bool(e.duration) and boot.CLOCK.now() >= e.start + e.duration and not (e.cancelled and e.mod == mod):
                continue
            if mod != e.mod or e.gone and e.cancelled:
                continue
            self.answers.setdefault((ven, e.id), opt)
            if e.cancelled:
                e.gone = True

    def check(self, what):
        got = sorted(((v, i), o) for v, i, vv, ii, o in self.calls) if self.cb != "future" else sorted((k, f.result()) for k, f in self.futs.items() if f.done())
        want = sorted(self.answers.items())
        if got != want:
            kind = "missed" if len(got) < len(want) else "repeated-or-stray" if len(got) > len(want) else "wrong"
            self.v.append((f"callbacks-{kind}", f"after {what}: callbacks at the VTN {got}, expected {want}"))
        if any((v, i) != (vv, ii) for v, i, vv, ii, o in self.calls):
            self.v.append(("callbacks-names", f"after {what}: callbacks with the ids of another event: {self.calls}"))
        for p in self.parties.values():
            p.check(what)


def poll(sim, p):
    return periodic(p.client, "poll")[0].fire()


def do(sim, op):
    k = op[0]
    if k == "tick":
        for p in sim.parties.values():
            before = {i: sim.ev(p.name, i).status() for i in p.known}
            for i in p.known:
                p.known[i]["ok"].add(before[i]) if "cancelled" not in p.known[i]["ok"] and not sim.ev(p.name, i).cancelled else None
        boot.CLOCK.advance(op[1] * evspec.MIN)
        for p in sim.parties.values():
            for i, kn in p.known.items():
                e = sim.ev(p.name, i)
                if kn["ok"] != {"cancelled"}:
                    kn["ok"].add(clock_status(e))
        return
    if k == "add":
        _, ven, kind, required = op
        e = evspec.Ev(f"e{sum(x.ven == ven for x in sim.evs)}", kind, ven)
        e.required = required
        sim.evs.append(e)
        add(sim, e)
        sim.updated[ven] = True
        return
    if k == "cancel":
        _, ven, i = op
        sim.server.cancel_event(ven, i)
        e = sim.ev(ven, i)
        if not e.gone:
            e.cancelled, e.mod = True, e.mod + 1
            sim.updated[ven] = True
        return
    p = sim.parties[op[1]]
    if k in ("poll", "begin"):
        listed = []
        if sim.updated[p.name]:
            listed = sim.list(p.name)
            sim.updated[p.name] = False
        answers = p.receive(listed)
        if k == "begin":
            p.gate = g = sim.loop.create_future()
            task = sim.loop.create_task(poll(sim, p))
            sim.loop.settle()
            if task.done():
                p.gate = None
            else:
                p.pending = (g, task, answers)
                return
        else:
            sim.loop.run(poll(sim, p))
        sim.answer(p.name, answers)
        p.agree(op)
        return
    if k == "end":
        g, task, answers = p.pending
        g.set_result(None)
        sim.loop.settle()
        p.pending = None
        if not task.done():
            sim.v.append(("stuck", "the poll did not come to an end"))
        sim.answer(p.name, answers)
        return
    if k == "clean":
        sim.loop.run(periodic(p.client, "clean")[0].fire())
        for i in [i for i in p.known if p.over(i)]:
            del p.known[i]
        return
    if k == "log":
        sim.loop.run(periodic(p.client, "log")[0].fire())
        for i, kn in p.known.items():
            if kn["ok"] != {"cancelled"}:
                kn["ok"] = {clock_status(sim.ev(p.name, i))}
        return
    if k == "restart":
        sim.loop.run(p.client.stop())
        p.start()
        answers = p.receive(sim.list(p.name))           # it synchronises first
        sim.answer(p.name, answers)
        if sim.updated[p.name]:
            answers = p.receive(sim.list(p.name))
            sim.updated[p.name] = False
        else:
            answers = []
        sim.loop.run(p.client.run())
        sim.answer(p.name, answers)
        p.agree(op)
        return
    raise AssertionError(op)


def clock_status(e):
    now = boot.CLOCK.now()
    if e.duration and now >= e.start + e.duration:
        return "completed"
    if now >= e.start:
        return "active"
    if e.ramp is not None and now >= e.start - e.ramp:
        return "near"
    return "far"


def add(sim, e):
    cb = sim.callback(e.ven, e.id) if e.required == "always" else None
    if e.required == "always":
        evspec.add(sim.server, e, callback=cb)
    else:
        sim.server.add_event(ven_id=e.ven, signal_name="SIMPLE", signal_type="level", intervals=[{"dtstart": s, "duration": d, "signal_payload": v} for s, d, v in e.ivs],
                             event_id=e.id, market_context="http://ctx/" + e.kind, ramp_up_period=e.ramp, response_required="never")


def ops(sim, kinds, maxe, tick, extra):
    out = []
    for ven, p in sim.parties.items():
        mine = [e for e in sim.evs if e.ven == ven]
        if len(sim.evs) < maxe:
            out += [("add", ven, k.rstrip("-"), "never" if k.endswith("-") else "always") for k in kinds]
        out += [("cancel", ven, e.id) for e in mine if e.mod < 1]
        if p.pending:
            out.append(("end", ven))
            continue
        out.append(("poll", ven))
        out += [(x, ven) for x in extra if x != "begin" or sim.updated[ven]]
    if boot.CLOCK.us < 60 * 60e6:
        out.append(("tick", tick))
    return out


def run(param, hist):
    vens, kinds, maxe, tick, extra, signed, cb = param
    with World() as loop:
        sim = Sim(loop, list(vens), signed, cb)
        sim.check("start")
        for op in hist:
            do(sim, op)
            sim.check(op)
        if loop.errors:
            sim.v.append(("loop-error", repr(loop.errors)[:500]))
        canon = (boot.CLOCK.us, evspec.server_state(sim.server), tuple(sorted(sim.updated.items())),
                 tuple((e.id, e.kind, e.ven, e.required, e.start, e.mod, e.cancelled, e.gone) for e in sim.evs), tuple(sorted(sim.answers.items())),
                 tuple((p.name, evspec.snapshot(p.client.received_events), evspec.snapshot(p.client.responded_events), evspec.snapshot(p.known), p.pending is not None and
                        tuple((e.id, m, o) for e, m, o in p.pending[2])) for p in sim.parties.values()))
        seen = {}
        return Outcome(sim.v, obs=(hist[-1] if hist else None, tuple(sorted((p.name, len(p.calls), len(p.known)) for p in sim.parties.values())), len(sim.answers)),
                       canon=rename(canon, seen), ops=ops(sim, kinds, maxe, tick, extra))


def rename(x, seen):
    """generated ids by order of appearance"""
    import re
    return re.sub(r"abc00000-0000-4000-8000-[0-9a-f]{12}", lambda m: seen.setdefault(m.group(), f"id{len(seen)}"), repr(x))


def scenarios(tier):
    one, two = ("ven1",), ("ven1", "ven2")
    more = 60000 if tier == "quick" else 400000
    out = [Histories("one-ven", run, {"quick": 6, "thorough": 8}, [(one, ("A", "F"), 2, 15, ("clean", "log", "restart"), False, "sync")],
                     "active and far events: add, cancel, clock, poll, clean-up, status log, restart", max_states=more),
           Histories("kinds", run, {"quick": 5, "thorough": 7}, [(one, ("P", "M", "O"), 2, 15, ("clean", "log", "restart"), False, "future"),
                                                               (one, ("A-", "F-", "A"), 2, 15, ("clean", "restart"), False, "sync")],
                     "past, two-interval and open-ended events, with futures as callbacks; events that require no response", max_states=more),
           Histories("slow-handlers", run, {"quick": 6, "thorough": 8}, [(one, ("A", "F"), 2, 15, ("begin",), False, "sync")],
                     "the VEN's handler takes its time while the VTN adds and cancels events and the clock moves", max_states=more),
           Histories("two-vens", run, {"quick": 5, "thorough": 6}, [(two, ("A",), 2, 15, ("clean", "restart"), False, "sync")], "two VENs with events of the same ids", max_states=more),
           Histories("signed", run, {"quick": 4, "thorough": 6}, [(one, ("A", "F"), 2, 15, ("clean", "restart"), True, "sync")], "both sides sign and check signatures over TLS", max_states=more)]
    return out
