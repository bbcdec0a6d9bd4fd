"""C13: no fault of the network or the VTN stops the VEN."""
import asyncio
import itertools
import re
from datetime import timedelta

from .. import boot, wire, evspec
from ..core import Outcome, Product
from ..vloop import World
from ..ven import Net, AutoVTN, make_client, start, periodic, closed

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["a faulty answer to a poll did not take anything off the VTN's queue: the VTN repeats the message at the next poll",
               "within a re-registration only its survival is judged, since a lost answer legitimately changes what is registered",
               "a VTN that takes a request but never answers is a fault like any other: a request of the VEN ends by itself (within an hour)",
               "user hooks may raise any Exception, return anything and be plain functions or coroutines; they do not raise BaseExceptions",
               "answers that the protocol defines (events, report requests, cancellations, re-registration) are not faults"]
MIN = timedelta(minutes=1)


# -- the faults --------------------------------------------------------------------------------------------------------------

def _exc(name):
    import aiohttp
    return {"connector": lambda: aiohttp.ClientConnectorError(_Key(), OSError(111, "refused")),
            "dns": lambda: aiohttp.ClientConnectorError(_Key(), OSError(-2, "unknown name")),
            "disconnected": lambda: aiohttp.ServerDisconnectedError(),
            "timeout": lambda: asyncio.TimeoutError(),
            "server-timeout": lambda: aiohttp.ServerTimeoutError("read"),
            "hang-connect": lambda: boot.Hang("connect"), "hang": lambda: boot.Hang("read"),
            "payload": lambda: aiohttp.ClientPayloadError("incomplete"),
            "os": lambda: OSError(104, "reset"),
            "ssl": lambda: __import__("ssl").SSLError("handshake"),
            "runtime": lambda: RuntimeError("Session is closed"),
            "value": lambda: ValueError("bad header")}[name]()


class _Key:
    host, port, ssl, is_ssl = "vtn", 443, None, True


def _opt(tag, code):
    return wire.payload(tag, wire.response(code, "OK" if code == 200 else "ERROR", "rq1") + "<ei:optID>o1</ei:optID>")


def _texts():
    ok = wire.oadr_response("ven1")
    ev = wire.distribute_event([wire.event("evil", start=boot.CLOCK.now())])
    return {
        "http-500": (500, b"oops"), "http-500-bin": (500, b"\xff\xfe\x80"), "http-404": (404, b"<html>"), "http-403": (403, b""), "http-302": (302, b""),
        "http-204": (204, b""), "http-201": (201, ok.encode()), "http-503-event": (503, ev.encode()),
        "empty": (200, b""), "space": (200, b" "), "bin": (200, b"\xff\xfe\x80\x00"), "html": (200, b"<html><body>busy</body></html>"),
        "json": (200, b"{}"), "cut": (200, ev.encode()[:len(ev) // 2]), "cut-1": (200, ev.encode()[:-1]), "twice": (200, (ok + ok).encode()),
        "utf16": (200, ok.replace('encoding="utf-8"', 'encoding="utf-16"').encode("utf-16")),
        "latin1": (200, ok.replace('encoding="utf-8"', 'encoding="iso-8859-1"').replace(">ven1<", ">vén1<").encode("latin-1")),
        "bad-schema": ev.replace("<ei:modificationNumber>0</ei:modificationNumber>", ""),
        "bad-value": ev.replace("<ei:modificationNumber>0<", "<ei:modificationNumber>none<"),
        "no-payload": '<?xml version="1.0"?><a xmlns="http://openadr.org/oadr-2.0b/2012/07"/>',
        "entity": '<?xml version="1.0"?><!DOCTYPE a [<!ENTITY x "y">]><a>&x;</a>',
    }


def _messages():
    rd = [wire.report_description("r1")]
    return {
        "response-452": wire.oadr_response("ven1", 452, "INVALID ID"), "response-500": wire.oadr_response("ven1", 500, "ERROR"),
        "response-other-ven": wire.oadr_response("somebody"), "response-no-description":
            wire.oadr_response("ven1", 463).replace("<ei:responseDescription>OK</ei:responseDescription>", ""),
        "no-events": wire.distribute_event([]), "no-events-error": wire.distribute_event([], code=452),
        "no-events-bare": wire.distribute_event([], with_response=False),
        "poll": wire.poll("ven1"), "request-event": wire.request_event("ven1"), "created-event": wire.created_event("ven1", [("e1", 0, "optIn")]),
        "query": wire.query_registration(), "create-registration": wire.create_party_registration(),
        "created-registration-error": wire.created_party_registration(None, None, code=463, ids_tags=False),
        "canceled-registration-452": wire.canceled_party_registration("other", "ven1", code=452),
        "registered-report-none": wire.registered_report([], code=452), "created-report": wire.created_report(["rr1"], "ven1"),
        "canceled-report": wire.canceled_report([], "ven1"), "canceled-report-own": wire.canceled_report(["rr1"], "ven1"),
        "updated-report": wire.updated_report("ven1", code=452),
        "register-report": wire.register_report([("vs1", "METADATA_TELEMETRY_USAGE", rd)], "ven1"),
        "register-report-empty": wire.register_report([], "ven1"),
        "update-report": wire.update_report([{"request_id": "rr1", "intervals": [(boot.CLOCK.now(), "v", 1)]}], "ven1"),
        "update-report-empty": wire.update_report([], "ven1"),
        "cancel-report-unknown": wire.cancel_report("nobody"), "cancel-report-unknown-2": wire.cancel_report(["nobody", "noone"]),
        "cancel-registration-other": wire.cancel_party_registration("other", "ven1"),
        "create-opt": None, "created-opt": _opt("oadrCreatedOpt", 200), "canceled-opt": _opt("oadrCanceledOpt", 452),
    }


EXC = ["connector", "dns", "disconnected", "timeout", "server-timeout", "payload", "os", "ssl", "runtime", "value", "hang-connect", "hang"]
READ = ["read:payload", "read:timeout", "read:disconnected", "read:os", "read:hang"]
TEXTS = list(_texts())
MSGS = [m for m, x in _messages().items() if x is not None]
ALL = ["exc:" + x for x in EXC] + READ + ["text:" + x for x in TEXTS] + ["msg:" + x for x in MSGS]
FEW = ["exc:connector", "exc:timeout", "exc:hang", "read:payload", "text:http-500", "text:empty", "text:cut", "text:bad-schema", "msg:response-452", "msg:created-report"]


def fault(name):
    kind, what = name.split(":")
    if kind == "exc":
        return _exc(what)
    if kind == "read":
        return boot.FakeResponse(200, b"", read_error=_exc(what))
    return (_texts() if kind == "text" else _messages())[what]


# -- the session --------------------------------------------------------------------------------------------------------------

NOISE = re.compile(r"^(requestID|createdDateTime|eiReportID)$")


def norm(node):
    if node.children:
        return (node.tag, tuple(norm(c) for c in node.children))
    return (node.tag, "*" if NOISE.match(node.tag) else node.text)


class Session:
    def __init__(self, loop, faults, hooks=None):
        self.loop = loop
        self.vtn = AutoVTN(report_requests=[wire.report_request("rr1", "s1", ["a", "b"], "PT10S", "PT20S"),
                                            wire.report_request("rr2", "s2", ["c"], "PT10S", "PT10S")])
        self.faults, self.n, self.hit, self.armed = dict(faults), 0, [], False
        self.net = Net(self.answer)
        self.client = make_client(self.net)
        self.calls, self.trail, self.v, self.kinds = [], [], [], []
        c = self.client
        c.add_handler("on_event", lambda e: self.called("event", e))
        c.add_handler("on_update_event", lambda e: self.called("update", e))
        n = [0]

        def sample(r):
            def f():
                n[0] += 1
                return float(n[0])
            return f
        for spec, r in (("s1", "a"), ("s1", "b"), ("s2", "c"), ("s3", "d")):
            c.add_report(sample(r), resource_id="dev", measurement="voltage", report_specifier_id=spec, r_id=r,
                         sampling_rate=timedelta(seconds=10), report_name="TELEMETRY_USAGE")
        if hooks:
            hooks(c)
        start(loop, c)
        loop.settle()
        self.net.log.clear()
        self.armed = True

    def called(self, what, e):
        d = e["event_descriptor"]
        self.calls.append((what, d["event_id"], d["modification_number"], d["event_status"]))
        return "optOut" if d["event_id"] == "e2" else "optIn"

    def answer(self, net, rec):
        if self.armed:
            k = self.n
            self.n += 1
            self.kinds.append(rec.type)
            f = self.faults.get(k, self.faults.get(str(k)))
            if f:
                self.hit.append((rec.type, f))
                return fault(f)
        return self.vtn(net, rec)

    # -- what the VEN knows
    def knows(self):
        c = self.client
        rr = c.report_requests
        return (c.ven_id, c.registration_id, c.poll_frequency, evspec.snapshot(c.received_events), evspec.snapshot(c.responded_events),
                evspec.snapshot([{k: v for k, v in r.items() if k != "job"} for r in rr] if rr is not None else None),
                evspec.snapshot(c.incomplete_reports), evspec.snapshot(c.reports), evspec.snapshot(c.opts), sorted(map(str, c.report_callbacks)),
                tuple((j.trigger, evspec.snapshot(j.trig_args)) for j in c.scheduler.jobs), c.scheduler.running, closed(c))

    def fire(self, coro, what):
        try:
            self.loop.run(coro)
            self.loop.settle()
        except Exception as e:
            from ..core import exc_key
            self.v.append((f"escaped:{exc_key(e)}", f"{what}: {type(e).__name__}: {e} escaped the periodic work; faults {self.hit}"))
        if self.loop.errors:
            self.v.append(("task-error", f"{what}: {self.loop.errors[0]!r}"[:600]))
            self.loop.errors.clear()

    def poll(self, message=None):
        """one poll, repeated until its answer gets through"""
        if message is not None:
            self.vtn.polls.append(message)
        for _ in range(8):
            before, hits, sent = self.knows(), len(self.hit), len(self.net.log)
            jobs = periodic(self.client, "poll")
            if len(jobs) != 1:
                self.v.append(("polling-stopped", f"{len(jobs)} poll jobs after faults {self.hit}"))
                return
            first = len(self.hit)
            self.fire(jobs[0].fire(), "poll")
            if len(self.hit) > first and self.hit[first][0] == "oadrPoll":
                after = self.knows()
                if after != before:
                    d = [i for i in range(len(before)) if before[i] != after[i]]
                    self.v.append((f"knowledge-changed-{d[0]}", f"the answer {self.hit[first]} to a poll changed what the VEN knows: "
                                   f"{[(before[i], after[i]) for i in d]}"[:1500]))
                # the attempt itself is not part of the comparison
                del self.net.log[sent:]
                continue
            return

    def jobs(self, n):
        cron = [j for j in self.client.scheduler.jobs if j.trigger == "cron"]
        for j in cron[:n]:
            self.fire(j.fire(), "sampling")

    def step(self, name):
        c, now = self.client, boot.CLOCK.now()
        self.net.log.clear()
        self.calls.clear()
        w = wire
        t0 = boot.T0
        if name == "events":
            self.poll(w.distribute_event([w.event("e1", start=t0, duration=60 * MIN), w.event("e2", start=t0 + 30 * MIN, duration=60 * MIN, ramp_up=5 * MIN)]))
        elif name == "nothing":
            self.poll()
        elif name == "sample":
            boot.CLOCK.advance(10)
            self.jobs(99)
        elif name == "update":
            self.poll(w.distribute_event([w.event("e1", mod=1, start=t0, duration=50 * MIN), w.event("e2", start=t0 + 30 * MIN, duration=60 * MIN, ramp_up=5 * MIN)]))
        elif name == "status":
            boot.CLOCK.advance(26 * MIN)
            for j in periodic(c, "log"):
                self.fire(j.fire(), "status log")
        elif name == "clean":
            for j in periodic(c, "clean"):
                self.fire(j.fire(), "clean-up")
        elif name == "create-report":
            self.poll(w.create_report([w.report_request("rr3", "s3", ["d"], "PT10S", "PT10S")]))
        elif name == "cancel-report":
            self.poll(w.cancel_report("rr2"))
        elif name == "cancel-event":
            self.poll(w.distribute_event([w.event("e2", mod=1, status="cancelled", start=t0 + 30 * MIN, duration=60 * MIN)]))
        elif name == "reregister":
            self.poll(w.request_reregistration("ven1"))
        elif name == "direct":
            self.fire(c.created_event("rqx", "e1", "optOut", 1), "created_event")
        elif name == "new-event":
            self.poll(w.distribute_event([w.event("e3", start=boot.CLOCK.now(), duration=60 * MIN)]))
        self.trail.append((name, tuple(norm(r.node) for r in self.net.log), tuple(self.calls), self.knows()))


SCRIPT = ["events", "nothing", "sample", "update", "sample", "status", "create-report", "sample", "direct", "cancel-report", "sample", "cancel-event",
          "clean", "new-event", "sample", "sample", "nothing"]
REREG = ["events", "sample", "reregister", "sample", "new-event", "reregister", "update", "sample", "nothing"]


def perform(loop, script, faults, hooks=None):
    s = Session(loop, faults, hooks)
    for name in script:
        s.step(name)
    return s


_ref = {}


def reference(which):
    if which not in _ref:
        with World() as loop:
            s = perform(loop, SCRIPT if which == "work" else REREG, {})
            assert not s.v, s.v
            _ref[which] = (s.trail, s.kinds)
    return _ref[which]


def compare(s, trail, skip=lambda msg: False):
    for (name, sent, calls, knows), (_, rsent, rcalls, rknows) in zip(s.trail, trail):
        for what, a, b in (("messages", sent, rsent), ("handler calls", calls, rcalls), ("knowledge", knows, rknows)):
            if a != b:
                s.v.append((f"{what.replace(' ', '-')}-differ", f"step {name!r} after faults {s.hit}: {what} differ from a run without faults\n"
                            f" with: {a}\n without: {b}"[:3000]))
                return


def run(case):
    which, faults = case
    script = SCRIPT if which == "work" else REREG
    trail, _ = reference(which)
    with World() as loop:
        s = perform(loop, script, {int(k): f for k, f in faults})
        if which == "work":
            compare(s, trail)
        else:
            survived(s)
        return Outcome(s.v, obs=(s.hit, [len(t[1]) for t in s.trail]), steps=s.n)


def survived(s):
    """after the last fault the VEN is registered, polls, samples, answers events and re-registers"""
    c = s.client
    if not c.registration_id or closed(c) or not c.scheduler.running:
        s.v.append(("stopped", f"after faults {s.hit} in a re-registration: registration {c.registration_id}, session closed "
                    f"{closed(c)}, scheduler running {c.scheduler.running}"))
        return
    last = s.trail[REREG.index("new-event")]
    if [x[:3] for x in last[2]] != [("event", "e3", 0)] or not any(m[0] == "oadrCreatedEvent" for m in last[1]):
        late = [x for t in s.trail for x in t[2] if x[1] == "e3"]
        if len(late) != 1:
            s.v.append(("event-lost", f"after faults {s.hit} the new event got {last[2]} and {[m[0] for m in last[1]]}"))
    types = [m[0] for t in s.trail[-4:] for m in t[1]]
    if "oadrUpdateReport" not in types:
        s.v.append(("reports-stopped", f"after faults {s.hit} no report was sent any more: {types}"))


def single_cases(tier):
    for which in ("work", "rereg"):
        n = len(reference(which)[1])
        for k in range(n):
            for f in ALL:
                yield [which, [[k, f]]]


def multi_cases(tier):
    for which in ("work", "rereg"):
        n = len(reference(which)[1])
        for length in ((2, 3) if tier == "quick" else (2, 3, 4, 5)):
            for k in range(n):
                for f in (FEW if tier == "quick" else ALL):
                    yield [which, [[k + i, f] for i in range(length)]]
        few = ["exc:connector", "text:empty", "msg:response-452"] if tier == "quick" else FEW
        if tier == "quick":
            continue
        for a, b in itertools.combinations(range(n + 1), 2):
            for f, g in itertools.product(few, repeat=2):
                yield [which, [[a, f], [b, g]]]


# -- faulty hooks -------------------------------------------------------------------------------------------------------------

POINTS = ["before_send_xml", "after_receive_xml", "before_schema_validation", "before_parse_xml", "after_parse_xml"]
BAD = ["raise", "araise", "wrong-args", "return", "areturn", "not-callable", "key", "stop", "cancelled-future"]


def bad_hook(kind):
    def boom(*a, **k):
        raise RuntimeError("hook")

    async def aboom(*a, **k):
        await asyncio.sleep(0)
        raise RuntimeError("hook")

    async def aret(*a, **k):
        await asyncio.sleep(0)
        return "junk"

    def key(*a, **k):
        raise KeyError("events")

    def stop(*a, **k):
        raise StopIteration

    async def tmo(*a, **k):
        raise asyncio.TimeoutError
    return {"raise": boom, "araise": aboom, "wrong-args": (lambda: None), "return": (lambda *a, **k: {"x": 1}), "areturn": aret,
            "not-callable": 5, "key": key, "stop": stop, "cancelled-future": tmo}[kind]


def hook_cases(tier):
    for p in POINTS:
        for b in BAD:
            for after in (False, True):
                yield [[[p, b]], after]
    for p, q in itertools.product(POINTS, repeat=2):
        yield [[[p, "raise"], [q, "araise"]], True]
    yield [[[p, b] for p in POINTS for b in BAD], True]


def run_hooks(case):
    hooks, after = case
    trail, _ = reference("work")
    heard = {p: 0 for p in POINTS}

    def install(c):
        for p, b in hooks:
            c.add_hook(p, bad_hook(b))

        def ear(p):
            def f(*a):
                heard[p] += 1
            return f
        for p in POINTS:          # a good hook after the bad one must still be called
            c.add_hook(p, ear(p))
    with World() as loop:
        s = perform(loop, SCRIPT, {}, install)
        compare(s, trail)
        if len(set(heard.values())) != 1:
            # answers without content stop before validation, none are sent in this script
            s.v.append(("hook-skipped", f"hooks {hooks}: good hooks were called {heard} times"))
        return Outcome(s.v, obs=tuple(heard.values()), steps=s.n)


def scenarios(tier):
    return [Product("one-fault", single_cases, run, "every exchange of a session x every fault", chunk=16),
            Product("more-faults", multi_cases, run, "outages of consecutive exchanges and pairs of faults", chunk=16),
            Product("hooks", hook_cases, run_hooks, "every hook point x every faulty hook", chunk=8)]
