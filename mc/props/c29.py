"""C29: hooks see every message exactly as it passes, and change nothing."""
import asyncio
import functools
import itertools

from lxml import etree

from .. import boot, wire, sign, evspec, vtn
from ..core import Outcome, Product
from ..sec import Vtn, messages
from ..vloop import World
from ..ven import AutoVTN, Net, make_client, periodic, start
from .c13 import ALL, fault

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["hooks raise Exceptions only and leave what they are given unchanged; a body that is not UTF-8 is shown to no hook",
               "the hooks of the VTN are coroutine functions; they are added before its first message",
               "what the parser makes of a message is C06's business: hooks must get what it made"]
POINTS = ["before_send_xml", "after_receive_xml", "before_schema_validation", "before_parse_xml", "after_parse_xml"]
KINDS = ["sync", "async", "slow", "raise", "araise", "object", "method", "partial"]


class Object:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    async def method(self, *a):
        await asyncio.sleep(0)
        return self.f(*a)


def make_hook(log, point, n, kind):
    def f(*a):
        log.append(("in", point, n, a))
        if kind == "raise":
            raise ValueError("hook")
        log.append(("out", point, n))
        return "junk"

    async def af(*a):
        log.append(("in", point, n, a))
        await asyncio.sleep(0.3 if kind == "slow" else 0)
        if kind == "araise":
            raise KeyError("hook")
        log.append(("out", point, n))
        return "junk"
    return {"sync": f, "raise": f, "async": af, "slow": af, "araise": af, "object": Object(f), "method": Object(f).method, "partial": functools.partial(f)}[kind]


def text(x):
    return x.decode() if isinstance(x, (bytes, bytearray)) else x


def valid(body):
    try:
        return wire.schema().validate(etree.fromstring(body.encode()))
    except etree.XMLSyntaxError:
        return False


def show(entries):
    return [(e[0], e[1].type) if e[0] == "sent" else tuple(str(x)[:400] for x in e) for e in entries]


class Session:
    """A VEN with hooks at work; what its hooks, the network and the handlers see goes into one log."""

    def __init__(self, loop, hooks, faults, signed=False):
        self.loop, self.hooks, self.faults, self.log, self.n, self.good = loop, hooks, faults, [], 0, set()
        self.vtn = AutoVTN(report_requests=[wire.report_request("rr1", "s1", ["a"], "PT10S", "PT10S")])
        self.signed = signed
        kw = dict(cert=sign.path("ven1"), key=sign.path("ven1", "key"), vtn_fingerprint=sign.fingerprint("vtn")) if signed else {}
        self.net = Net(self.answer)
        self.client = c = make_client(self.net, **kw)
        c.add_handler("on_event", lambda e: self.handler("event", e))
        c.add_handler("on_update_event", lambda e: self.handler("update", e))
        c.add_report(lambda: 1.0, resource_id="dev", measurement="voltage", report_specifier_id="s1", r_id="a", sampling_rate=evspec.timedelta(seconds=10),
                     report_name="TELEMETRY_USAGE")
        for n, (p, k) in enumerate(hooks):
            c.add_hook(p, make_hook(self.log, p, n, k))

    def handler(self, what, e):
        self.log.append(("handler", e["event_descriptor"]["event_id"]))
        return "optIn"

    def answer(self, net, rec):
        k, self.n = self.n, self.n + 1
        a = fault(self.faults[k]) if k in self.faults else self.vtn(net, rec)
        if self.signed and isinstance(a, str) and valid(a) and not (k in self.faults and k % 2):
            a = sign.sign(a, "vtn", nonce=f"n{k}")
            self.good.add(text(a))
        self.log.append(("sent", rec, a))
        return a

    def poll(self, *msgs):
        self.vtn.polls += msgs
        for _ in msgs or [0]:
            for j in periodic(self.client, "poll"):
                self.loop.run(j.fire())
                self.loop.run_for(20)

    def perform(self):
        w, t0 = wire, boot.T0
        from datetime import timedelta as td
        try:
            start(self.loop, self.client)
        except Exception:        # noqa   C12 judges what a faulty start does
            pass
        self.loop.run_for(20)
        self.poll(w.distribute_event([w.event("é1", start=t0, duration=td(hours=1)), w.event("e2", start=t0, duration=td(hours=1))]))
        self.poll()
        for j in [j for j in self.client.scheduler.jobs if j.trigger == "cron"]:
            boot.CLOCK.advance(10)
            self.loop.run(j.fire())
            self.loop.run_for(20)
        self.poll(w.distribute_event([w.event("e2", mod=1, start=t0, duration=td(hours=1))]), w.create_report([]), w.cancel_report("rr1"))
        self.poll(w.request_reregistration("ven1"))
        self.poll()

    # what the log should be

    def block(self, rec, a):
        """-> the entries around one exchange"""
        out = []

        def at(point, *args):
            for n, (p, k) in enumerate(self.hooks):
                if p == point:
                    out.append(("in", p, n, args))
                    if k not in ("raise", "araise"):
                        out.append(("out", p, n))
        at("before_send_xml", text(rec.data))
        out.append(("sent", rec, a))
        if isinstance(a, BaseException):
            return out
        if isinstance(a, boot.FakeResponse):
            if a._read_error is not None:
                return out
            a = (a.status, a._body)
        status, body = a if isinstance(a, tuple) else (200, a)
        try:
            body = text(body)
        except UnicodeDecodeError:
            return out
        at("after_receive_xml", body)
        if status != 200 or not body:
            return out
        at("before_schema_validation", body)
        if not valid(body) or self.signed and body not in self.good:
            return out
        at("before_parse_xml", body)
        from openleadr.messaging import parse_message
        try:
            got = parse_message(body)
        except Exception:        # noqa
            return out
        at("after_parse_xml", *got)
        return out

    def judge(self, v, what):
        want = [x for e in self.log if e[0] == "sent" for x in self.block(e[1], e[2])]
        got = [e for e in self.log if e[0] != "handler"]
        if got != want:
            i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b))
            name = want[i][1] if i < len(want) and want[i][0] != "sent" else got[i][1] if i < len(got) and got[i][0] != "sent" else "sending"
            v.append((f"hooks-{name}", f"{what}: entry {i} of the log is {show(got[i:i + 1])}, expected {show(want[i:i + 1])}"))
        # handlers run after the message went through all of the hooks
        points = {p for p, _ in self.hooks}
        if "after_parse_xml" in points:
            seen = set()
            for e in self.log:
                if e[0] == "in" and e[1] == "after_parse_xml" and e[3][0] == "oadrDistributeEvent" and "events" in e[3][1]:
                    seen |= {ev["event_descriptor"]["event_id"] for ev in e[3][1]["events"]}
                if e[0] == "handler" and e[1] not in seen:
                    v.append(("handler-first", f"{what}: the handler got event {e[1]} before the hook did"))


def run_ven(case):
    hooks, faults, signed = case
    v = []
    with World() as loop:
        s = Session(loop, [tuple(h) for h in hooks], {int(k): f for k, f in faults}, signed)
        s.perform()
        s.judge(v, case)
        if loop.errors:
            v.append(("task-error", f"{case}: {loop.errors[0]!r}"[:500]))
            loop.errors.clear()
        if not faults and sum(e[0] == "handler" for e in s.log) != 3:
            v.append(("handlers", f"{case}: {sum(e[0] == 'handler' for e in s.log)} handler calls"))
        return Outcome(v, obs=tuple(e[0] if e[0] != "in" else e[1] for e in s.log), steps=s.n)


def ven_cases(tier):
    for signed in (False, True):
        yield [[], [], signed]
        for p in POINTS:
            for k in KINDS:
                yield [[[p, k]], [], signed]
            for k, m in itertools.product(KINDS, repeat=2):
                yield [[[p, k], [p, m]], [], signed]
        for (p, q), (k, m) in itertools.product(itertools.permutations(POINTS, 2), itertools.product(KINDS if tier == "thorough" else ["async", "raise", "slow"], repeat=2)):
            yield [[[p, k], [q, m]], [], signed]
        for k, m in itertools.product(KINDS, repeat=2):
            yield [[[p, x] for p in POINTS for x in (k, m)], [], signed]
            yield [[[p, x] for x in (k, m, "sync") for p in reversed(POINTS)], [], signed]


FULL = [[p, k] for k in ("async", "raise", "sync") for p in POINTS]


def fault_cases(tier):
    for k in range(16):
        for f in ALL:
            if "hang" in f:
                continue
            for signed in (False, True):
                yield [FULL, [[k, f]], signed]
    if tier == "thorough":
        for (a, b) in itertools.combinations(range(16), 2):
            for f in ALL:
                if "hang" not in f:
                    for g in ("text:http-500", "msg:no-events", "exc:connector", "text:bad-schema"):
                        yield [FULL, [[a, f], [b, g]], False]


# -- the VTN ------------------------------------------------------------------------------------------------------------------

VTN_POINTS = ["before_parse", "before_handle", "after_handle", "before_respond"]
_EARS = []                # the logs that are listening


def install():
    """the VTN's hooks are those of the process (World starts without any)"""
    from openleadr import hooks

    def make(point, n, kind):
        def f(*a):
            for log in _EARS:
                log.append((point, n, evspec.snapshot(a)))

            async def later():
                await asyncio.sleep(0)
                if kind == "raise":
                    raise ValueError("hook")
            return later()
        return f
    for p in VTN_POINTS:
        for n, kind in enumerate(("plain", "raise", "plain")):
            hooks.register(p, make(p, n, kind))


BODIES = ["plain", "bad-schema", "not-xml", "empty", "bytes", "other-vtn"]


def vtn_cases(tier):
    for style in ("sync", "async"):
        for poll in ("external", "internal"):
            for name in messages():
                for endpoint in (None, "OadrPoll", "EiEvent", "EiReport", "EiRegisterParty"):
                    for ct in ("application/xml", "text/plain"):
                        for body in BODIES:
                            yield [style, poll, name, endpoint, ct, body, "ven1", None]
                for ven in ("ven1", "stranger"):
                    for fail in ("handler", "lookup"):
                        yield [style, poll, name, None, "application/xml", "plain", ven, fail]


def run_vtn(case):
    style, poll, name, endpoint, ct, how, ven, fail = case
    v, log, plain = [], [], None
    with World() as loop:
        install()
        for listening in (False, True):
            boot.IDS.reset()
            a = Vtn("ven" if ven else "", style, poll=poll)
            if fail == "handler":
                def boom(*a, **k):
                    raise ValueError("handler")
                for h in ("on_poll", "on_request_event", "on_created_event", "on_create_party_registration", "on_cancel_party_registration", "on_created_report",
                          "on_update_report"):
                    if h != "on_poll" or poll == "external":
                        a.server.add_handler(h, boom)
            elif fail == "lookup":
                def lost(*x, **k):
                    raise ValueError("lookup")
                for s in a.server.services.values():
                    s.ven_lookup = lost
            home, xml = messages(ven)[name]
            data = {"plain": xml, "bytes": xml.encode(), "bad-schema": xml.replace("oadrSignedObject>", "oadrSigned>"), "not-xml": "<a", "empty": "",
                    "other-vtn": xml.replace("</oadr:oadrSignedObject>", "</oadr:oadrSignedObject><!-- é -->")}[how]
            if listening:
                _EARS.append(log)
            try:
                r = loop.run(vtn.send(a.server, data, endpoint or home, content_type=ct))
                loop.settle()
            finally:
                _EARS.clear()
            loop.errors.clear()        # the failing hooks
            if not listening:
                plain = r
        what = f"{case}"
        if (r.status, strip(r)) != (plain.status, strip(plain)):
            v.append(("answer", f"{what}: with hooks the answer is {r.summary()}, without {plain.summary()}"))
        raw = data.encode() if isinstance(data, str) else data
        want = []
        from openleadr.messaging import parse_message
        if ct == "application/xml":
            want += [("before_parse", (raw,))]
        got = {p: [e for e in log if e[0] == p] for p in VTN_POINTS}
        n = 3
        for p, args in want:
            if [e[1:] for e in got[p]] != [(i, evspec.snapshot(args)) for i in range(n)]:
                v.append((f"vtn-{p}", f"{what}: the {p} hooks were called with {str(got[p])[:400]}"))
        if ct != "application/xml" and got["before_parse"]:
            v.append(("vtn-before_parse", f"{what}: called for a message that is not XML"))
        body = r.body.decode()
        if [e[1] for e in got["before_respond"]] != [0, 1, 2] or any(e[2] not in [evspec.snapshot(x) for x in (((body,), (None,)) if not body else ((body,),))] for e in got["before_respond"]):
            v.append(("vtn-before_respond", f"{what}: the before_respond hooks were called with {str(got['before_respond'])[:400]}; the answer is {body[:200]}"))
        if r.status == 400 and (got["before_handle"] or got["after_handle"]):
            v.append(("vtn-before_handle", f"{what}: a message that was not understood was handled"))
        if a.calls and not got["before_handle"] or got["before_handle"] and [e[1] for e in got["before_handle"]] != [0, 1, 2]:
            v.append(("vtn-before_handle", f"{what}: the before_handle hooks were called {[e[1] for e in got['before_handle']]}"))
        if got["before_handle"]:
            t, p = parse_message(raw)
            if any(e[2] != evspec.snapshot((t, p)) for e in got["before_handle"]):
                v.append(("vtn-before_handle", f"{what}: the before_handle hooks were called with {str(got['before_handle'])[:400]}"))
        ok = r.status == 200 and not fail and got["before_handle"] and r.body and (r.resp() or (200,))[0] == 200
        if ok and [e[1] for e in got["after_handle"]] != [0, 1, 2]:
            v.append(("vtn-after_handle", f"{what}: the after_handle hooks were called {[e[1] for e in got['after_handle']]}"))
        for e in got["after_handle"]:
            if body and r.status == 200 and r.type and not e[2][0] == r.type and fail is None:
                v.append(("vtn-after_handle", f"{what}: the after_handle hooks were called with {e[2][0]}, the answer is {r.type}"))
        order = [e[0] for e in log]
        if order != sorted(order, key=VTN_POINTS.index):
            v.append(("vtn-order", f"{what}: the hooks were called in the order {order}"))
        return Outcome(v, obs=(r.status, tuple(order)), steps=1)


def strip(r):
    if r.status != 200 or not r.body or r.node is None:
        return r.body
    return norm(r.node)


def norm(node):
    if node.children:
        return (node.tag, tuple(norm(c) for c in node.children))
    return (node.tag, "*" if node.tag in ("requestID", "createdDateTime", "reportRequestID") else node.text)


def scenarios(tier):
    return [Product("ven", ven_cases, run_ven, "every hook point x every kind of hook, pairs of them, and all points together, in a VEN's session", chunk=8),
            Product("ven-faults", fault_cases, run_ven, "hooks at all points x every fault at every exchange of the session", chunk=16),
            Product("vtn", vtn_cases, run_vtn, "hooks at all points of the VTN x every message at every endpoint, malformed ones and failing handlers", chunk=32)]
