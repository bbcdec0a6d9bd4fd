"""C23: with its own poll handler the application decides what is delivered."""
import itertools
from dataclasses import asdict
from datetime import timedelta

from .. import boot, wire
from ..core import Outcome, Product
from ..vloop import World
from ..vtn import make_server, send
from fractions import Fraction

LEVEL = "model_checking"
ASSUMPTIONS = ["handlers return events whose status agrees with the clock",
               "an empty list of events may be answered as an empty distribution or as an empty response"]

MIN = timedelta(minutes=1)


def event(n, form):
    from openleadr import objects
    start = boot.CLOCK.now() + (n * 5 + 1) * MIN
    ev = objects.Event(event_descriptor=objects.EventDescriptor(f"ev{n}", n, f"http://m/{n}", "far", priority=n),
                       event_signals=[objects.EventSignal(signal_name="LOAD_CONTROL", signal_type="x-loadControlCapacity", signal_id=f"s{n}",
                                                          intervals=[objects.Interval(start, 10 * MIN, n + 0.5)])],
                       targets=[objects.Target(ven_id="ven1"), objects.Target(group_id="g")],
                       response_required="never" if n % 2 else "always")
    return ev if form == "object" else asdict(ev)


def expect(n):
    start = boot.CLOCK.now() + (n * 5 + 1) * MIN
    return {"event_id": f"ev{n}", "mod": n, "status": "far", "market_context": f"http://m/{n}", "priority": n, "start": start,
            "duration": 10 * MIN, "response_required": "never" if n % 2 else "always",
            "targets": [("groupID", "g"), ("venID", "ven1")]}


def report_request():
    return {"report_request_id": "rr1", "report_specifier": {"report_specifier_id": "rs1", "granularity": timedelta(seconds=10),
                                                             "report_back_duration": timedelta(seconds=30),
                                                             "specifier_payloads": [{"r_id": "r1", "reading_type": "Direct Read"}]}}


# name -> (make the handler's result, message type expected, events expected)
def results(form):
    return {
        "none": (lambda: None, "oadrResponse", []),
        "one": (lambda: event(1, form), "oadrDistributeEvent", [1]),
        "list1": (lambda: [event(2, form)], "oadrDistributeEvent", [2]),
        "list3": (lambda: [event(0, form), event(1, form), event(2, form)], "oadrDistributeEvent", [0, 1, 2]),
        "empty-list": (lambda: [], None, []),
        "msg-events": (lambda: ("oadrDistributeEvent", {"events": [event(1, form), event(3, form)]}), "oadrDistributeEvent", [1, 3]),
        "msg-response": (lambda: ("oadrResponse", {}), "oadrResponse", []),
        "msg-none-payload": (lambda: ("oadrResponse", None), "oadrResponse", []),
        "msg-create-report": (lambda: ("oadrCreateReport", {"report_requests": [report_request()]}), "oadrCreateReport", None),
        "msg-cancel-report": (lambda: ("oadrCancelReport", {"report_request_id": "rr1", "report_to_follow": False}), "oadrCancelReport", None),
        "msg-rereg": (lambda: ("oadrRequestReregistration", {}), "oadrRequestReregistration", None),
        "msg-register-report": (lambda: ("oadrRegisterReport", {"reports": []}), "oadrRegisterReport", None),
        "msg-cancel-reg": (lambda: ("oadrCancelPartyRegistration", {"registration_id": "reg7"}), "oadrCancelPartyRegistration", None),
    }


REQ = ("none", "one", "list1", "list3", "empty-list")


def cases(tier):
    names = list(results("dict"))
    for form in ("dict", "object"):
        for mode in ("sync", "async"):
            for n in names:
                yield ["poll", form, mode, [n]]
            for n in REQ:
                yield ["req", form, mode, [n]]
            for a, b in itertools.product(names, repeat=2):
                yield ["poll", form, mode, [a, b]]
            for a, b in itertools.product(REQ, repeat=2):
                yield ["req", form, mode, [a, b]]
            if tier == "thorough":
                for seq in itertools.product(names, repeat=3):
                    yield ["poll", form, mode, list(seq)]
                for seq in itertools.product(REQ, repeat=4):
                    yield ["req", form, mode, list(seq)]


def check_reply(v, tag, r, want_type, want_events, ven):
    if r.status != 200:
        v.append((f"{tag}-http", f"{tag}: HTTP {r.status}"))
        return
    if r.schema_error:
        v.append((f"{tag}-schema", f"{tag}: {r.schema_error}"))
        return
    if want_type is None:
        if not (r.type == "oadrResponse" or (r.type == "oadrDistributeEvent" and not r.events())):
            v.append((f"{tag}-wrong", f"{tag}: got {r.summary()}"))
        return
    if r.type != want_type:
        v.append((f"{tag}-wrong", f"{tag}: got {r.type}, expected {want_type}"))
        return
    if want_type == "oadrDistributeEvent":
        got = sorted(r.events(), key=lambda e: e["event_id"])
        if [g["event_id"] for g in got] != [f"ev{n}" for n in want_events]:
            v.append((f"{tag}-wrong-events", f"{tag}: got {[g['event_id'] for g in got]}, expected {want_events}"))
        else:
            for g, n in zip(got, want_events):
                bad = {k: (g[k], w) for k, w in expect(n).items() if g[k] != w}
                if bad or [(s["name"], [i[2] for i in s["intervals"]]) for s in g["signals"]] != [("LOAD_CONTROL", [Fraction(n) + Fraction(1, 2)])]:
                    v.append((f"{tag}-content", f"{tag}: {bad} {g['signals']}"))
    else:
        if r.node.get("venID") not in (ven,):
            v.append((f"{tag}-ven", f"{tag}: the answer to {ven} names {r.node.get('venID')!r}"))
    if want_type == "oadrCreateReport":
        got = [wire.read_report_request(n) for n in r.node.all("oadrReportRequest")]
        if [(g["request_id"], g["specifier_id"], g["granularity"], g["back"], g["r_ids"]) for g in got] != \
                [("rr1", "rs1", timedelta(seconds=10), timedelta(seconds=30), ["r1"])]:
            v.append((f"{tag}-content", f"{tag}: {got}"))
    if want_type == "oadrCancelReport" and r.node.get("reportRequestID") != "rr1":
        v.append((f"{tag}-content", f"{tag}: cancels {r.node.get('reportRequestID')}"))
    if want_type == "oadrCancelPartyRegistration" and r.node.get("registrationID") != "reg7":
        v.append((f"{tag}-content", f"{tag}: cancels {r.node.get('registrationID')}"))


def run(case):
    kind, form, mode, seq = case
    with World() as loop:
        server = make_server()
        table = results(form)
        queue = [table[n] for n in seq]
        asked = []

        def give(ven_id):
            asked.append(ven_id)
            return queue.pop(0)[0]() if queue else None

        async def agive(ven_id):
            return give(ven_id)
        h = agive if mode == "async" else give
        # the built-in queue must play no part: fill it first
        server.add_event(ven_id="ven1", signal_name="SIMPLE", signal_type="level", event_id="builtin",
                         intervals=[{"dtstart": boot.CLOCK.now(), "duration": 10 * MIN, "signal_payload": 1}],
                         callback=lambda ven_id, event_id, opt_type: builtin.append(event_id))
        builtin = []
        other = []
        server.add_handler("on_poll", h if kind == "poll" else (lambda ven_id: other.append(ven_id)))
        server.add_handler("on_request_event", h if kind == "req" else (lambda ven_id: other.append(ven_id)))
        v, obs, vens = [], [], []
        for i, n in enumerate(list(seq) + ["none"]):
            ven = f"ven{1 + i % 2}"
            vens.append(ven)
            if i == 1:
                server.add_event(ven_id=ven, signal_name="SIMPLE", signal_type="level", event_id="builtin2",
                                 intervals=[{"dtstart": boot.CLOCK.now(), "duration": 10 * MIN, "signal_payload": 1}])
            r = loop.run(send(server, wire.poll(ven) if kind == "poll" else wire.request_event(ven)))
            _, t, evs = table[n]
            check_reply(v, f"{kind}:{n}", r, t, evs, ven)
            obs.append(r.summary())
        if asked != vens:
            v.append((f"{kind}-handler-calls", f"handler asked for {asked}, requests came from {vens}"))
        if other:
            v.append((f"{kind}-other-handler", f"the other handler was called: {other}"))
        return Outcome(v, obs=tuple(map(repr, obs)))


# event responses with an own handler
def resp_cases(tier):
    r = [("e1", 0, "optIn"), ("e2", 3, "optOut"), ("builtin", 0, "optIn")]
    for mode in ("sync", "async"):
        for n in range(0, 4):
            for p in itertools.permutations(r, n):
                yield [mode, list(p)]
        yield [mode, None]


def run_resp(case):
    mode, resps = case
    with World() as loop:
        server = make_server()
        got, builtin = [], []
        server.add_event(ven_id="ven1", signal_name="SIMPLE", signal_type="level", event_id="builtin",
                         intervals=[{"dtstart": boot.CLOCK.now(), "duration": 10 * MIN, "signal_payload": 1}],
                         callback=lambda ven_id, event_id, opt_type: builtin.append(event_id))
        server.add_handler("on_poll", lambda ven_id: None)

        async def acb(ven_id, event_id, opt_type):
            got.append((ven_id, event_id, opt_type))

        def cb(ven_id, event_id, opt_type):
            got.append((ven_id, event_id, opt_type))
        server.add_handler("on_created_event", acb if mode == "async" else cb)
        r = loop.run(send(server, wire.created_event("ven1", resps)))
        v = []
        if r.status != 200 or r.type != "oadrResponse" or r.resp()[0] != 200:
            v.append(("response-reply", f"{resps}: {r.summary()}"))
        want = [("ven1", e, o) for e, m, o in (resps or [])]
        if got != want:
            v.append(("response-handler", f"{resps}: handler called {got}"))
        if builtin:
            v.append(("builtin-callback", f"the built-in queue's callback was called for {builtin}"))
        return Outcome(v, obs=tuple(got))


def failing_resp_cases(tier):
    r = [("e1", 0, "optIn"), ("e2", 3, "optOut"), ("e3", 0, "optIn")]
    for mode in ("sync", "async"):
        for n in range(1, 4):
            for p in itertools.permutations(r, n):
                for k in range(1, n + 1):
                    for fails in itertools.combinations([e[0] for e in p], k):
                        yield [mode, list(p), list(fails)]


def run_failing_resp(case):
    """a response handler that fails for one event still gets the others"""
    mode, resps, fails = case
    with World() as loop:
        server = make_server()
        got = []
        server.add_handler("on_poll", lambda ven_id: None)

        def cb(ven_id, event_id, opt_type):
            got.append((ven_id, event_id, opt_type))
            if event_id in fails:
                raise RuntimeError("application error")

        async def acb(ven_id, event_id, opt_type):
            cb(ven_id, event_id, opt_type)
        server.add_handler("on_created_event", acb if mode == "async" else cb)
        r = loop.run(send(server, wire.created_event("ven1", resps)))
        v = []
        if got != [("ven1", e, o) for e, m, o in resps]:
            v.append(("response-handler", f"{resps}, the handler fails for {fails}: called {got}"))
        return Outcome(v, obs=(tuple(got), r.summary()))


def run_shared(case):
    """a handler that keeps its message as a constant serves several VENs"""
    name, mode = case
    with World() as loop:
        server = make_server()
        const = results("dict")[name][0]()

        async def agive(ven_id):
            return const
        server.add_handler("on_poll", agive if mode == "async" else (lambda ven_id: const))
        v, obs = [], []
        for ven in ("ven1", "ven2", "ven1"):
            r = loop.run(send(server, wire.poll(ven)))
            _, t, evs = results("dict")[name]
            check_reply(v, f"shared:{name}", r, t, evs, ven)
            obs.append(r.summary())
        return Outcome(v, obs=repr(obs))


def scenarios(tier):
    return [Product("handler-results", cases, run, "kinds of results x dict/object x sync/async, in sequences, for polls and event requests", chunk=64),
            Product("responses", resp_cases, run_resp, "event responses in every order and number"),
            Product("failing-responses", failing_resp_cases, run_failing_resp, "a response handler that fails for some of the events"),
            Product("constant-results", lambda t: [(n, m) for n in results("dict") for m in ("sync", "async")], run_shared,
                    "the same result object for several VENs")]
