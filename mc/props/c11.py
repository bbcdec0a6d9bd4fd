"""C11: every request to the VTN gets a well-formed, matching answer."""
import copy
import itertools
from datetime import timedelta

from lxml import etree

from .. import boot, wire, evspec
from ..core import Outcome, Product, Histories, Schedules
from ..vloop import World
from ..vtn import make_server, Reply
from .. import vtn

LEVEL = "model_checking"
ASSUMPTIONS = ["opt messages (EiOpt) and reports that a VTN would offer itself are not implemented, so their own endpoint is not judged",
               "oadrPoll, oadrCreatedEvent, oadrCreatedReport and the other confirmations carry no request id of their own to echo",
               "a schema-valid message with meaningless content may be answered with an OpenADR error instead of the prescribed message"]
ENDPOINTS = ("EiRegisterParty", "EiEvent", "EiReport", "OadrPoll")
# message type -> (own endpoint, prescribed answers)
OWN = {"oadrPoll": ("OadrPoll", {"oadrResponse", "oadrDistributeEvent"}),
       "oadrRequestEvent": ("EiEvent", {"oadrDistributeEvent", "oadrResponse"}),
       "oadrCreatedEvent": ("EiEvent", {"oadrResponse"}),
       "oadrQueryRegistration": ("EiRegisterParty", {"oadrCreatedPartyRegistration"}),
       "oadrCreatePartyRegistration": ("EiRegisterParty", {"oadrCreatedPartyRegistration"}),
       "oadrCancelPartyRegistration": ("EiRegisterParty", {"oadrCanceledPartyRegistration"}),
       "oadrCanceledPartyRegistration": ("EiRegisterParty", {"oadrResponse"}),
       "oadrRegisterReport": ("EiReport", {"oadrRegisteredReport"}),
       "oadrUpdateReport": ("EiReport", {"oadrUpdatedReport"}),
       "oadrCreatedReport": ("EiReport", {"oadrResponse"}),
       "oadrRegisteredReport": ("EiReport", {"oadrResponse"}),
       "oadrCanceledReport": ("EiReport", {"oadrResponse"})}
ECHO = {"oadrRequestEvent", "oadrQueryRegistration", "oadrCreatePartyRegistration", "oadrCancelPartyRegistration", "oadrRegisterReport",
        "oadrUpdateReport"}
RIDS = ["rq1", "0", "17", "007", "1e3", "true", "None", "P1D", "2030-01-01T00:00:00Z", "a&b<c>\"d'", "ünï-☃", "", "x" * 300, "{{ 7*7 }}", "-1", "1.50"]
VENS = ["ven1", "0", "12", "01", "v&<1>", "vén ☃", "None"]


async def send(server, xml, endpoint=None, **kw):
    """as vtn.send; what escapes from the handler becomes HTTP 500 in the web server"""
    try:
        return await vtn.send(server, xml, endpoint, **kw)
    except Exception:
        return Reply(500, b"", {})


class App:
    """A VTN with an application whose handlers record their calls and behave as told."""

    def __init__(self, style="sync", lookup=None, poll="internal", loop=None, gated=False, on_query=False):
        self.calls, self.behave, self.loop, self.gates, self.gated = [], {}, loop, [], gated
        self.style = style
        kw = {}
        if lookup:
            kw["ven_lookup"] = self.fn("lookup", lambda ven_id: None if ven_id == "nobody" else
                                       {"ven_id": ven_id, "ven_name": "n", "fingerprint": None, "registration_id": None if ven_id == "unregistered" else "reg_1"},
                                       lookup)
        self.server = make_server(**kw)
        if style == "none":
            return
        add = self.server.add_handler
        add("on_create_party_registration", self.fn("on_create_party_registration", lambda info: ("ven_granted", "reg_granted")))
        add("on_cancel_party_registration", self.fn("on_cancel_party_registration", lambda p: None))
        if on_query:
            add("on_query_registration", self.fn("on_query_registration", lambda p: ("oadrCreatedPartyRegistration", {
                "profiles": [{"profile_name": "2.0b", "transports": [{"transport_name": "simpleHttp"}]}],
                "requested_oadr_poll_freq": timedelta(seconds=10)})))
        add("on_register_report", self.register_report())
        add("on_created_report", self.fn("on_created_report", lambda p: None))
        add("on_update_report", self.fn("on_update_report", lambda p: None))
        if poll == "external":
            add("on_poll", self.fn("on_poll", lambda ven_id: None))
            add("on_request_event", self.fn("on_request_event", lambda ven_id: None))
            add("on_created_event", self.fn("on_created_event", lambda ven_id, event_id, opt_type: None))

    def register_report(self):
        f = self.fn("on_register_report", lambda **kw: (self.fn("data", lambda v: None), timedelta(seconds=10)))
        if self.style == "async":
            async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                return await f(ven_id=ven_id)
        else:
            def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                return f(ven_id=ven_id)
        return on_register_report

    def event_callback(self):
        f = self.fn("event-callback", lambda **kw: None)
        if self.style == "async":
            async def event_callback(ven_id, event_id, opt_type):
                return await f(ven_id=ven_id, event_id=event_id, opt_type=opt_type)
        else:
            def event_callback(ven_id, event_id, opt_type):
                return f(ven_id=ven_id, event_id=event_id, opt_type=opt_type)
        return event_callback

    def fn(self, name, default, style=None):
        style = style or self.style

        def act(a, kw):
            self.calls.append((name, a, kw))
            b = self.behave.get(name)
            if b is None:
                return default(*a, **kw)
            if b[0] == "raise":
                raise failure(b[1])
            return weird(b[1])
        if style == "async":
            async def f(*a, **kw):
                if self.gated and name != "lookup":
                    g = self.loop.create_future()
                    self.gates.append((name, a, kw, g))
                    await g
                return act(a, kw)
        else:
            def f(*a, **kw):
                return act(a, kw)
        return f


FAILURES = {"oos": ("OutOfSequenceError", 450), "not-allowed": ("NotAllowedError", 451), "id": ("InvalidIdError", 452), "unrecognized": ("NotRecognizedError", 453),
            "data": ("InvalidDataError", 454), "compliance": ("ComplianceError", 459), "signal": ("SignalNotSupportedError", 460),
            "report": ("ReportNotSupportedError", 461), "target": ("TargetMismatchError", 462), "auth": ("NotRegisteredOrAuthorizedError", 463),
            "deployment": ("DeploymentError", 469)}
OTHERS = {"value": ValueError, "key": KeyError, "type": TypeError, "runtime": RuntimeError, "assert": AssertionError, "os": OSError, "stop": StopAsyncIteration,
          "attribute": AttributeError, "unicode": lambda m: UnicodeDecodeError("utf-8", b"x", 0, 1, m), "timeout": TimeoutError}


def failure(kind):
    from openleadr import errors
    if kind in FAILURES:
        return getattr(errors, FAILURES[kind][0])()
    if kind == "described":
        return errors.InvalidDataError("a <b> & c ünï")
    if kind.startswith("http-"):
        return errors.HTTPError(int(kind[5:]), "teapot")
    if kind == "rereg":
        return errors.RequestReregistration()
    if kind == "rereg-ven":
        return errors.RequestReregistration("ven1")
    return OTHERS[kind]("because <this> & that")


WEIRD = {"int": 5, "str": "x", "true": True, "object": object(), "list": [], "list-int": [1], "dict": {}, "tuple": (), "pair-none": (None, None), "pair-str": ("a", "b"),
         "pair-bad-type": ("oadrNothing", {}), "triple": (1, 2, 3), "float": 1.5, "bytes": b"x", "pair-ok-none": ("oadrResponse", None)}


def weird(kind):
    return copy.copy(WEIRD[kind]) if kind != "object" else WEIRD[kind]


# -- the requests ------------------------------------------------------------------------------------------------------------

def offer():
    return [("spec1", "METADATA_TELEMETRY_USAGE", [wire.report_description("r1"), wire.report_description("r2", measurement="powerReal", unit="W", desc="RealPower")]),
            ("spec2", "METADATA_TELEMETRY_STATUS", [wire.report_description("s1", measurement=None, report_type="x-resourceStatus", reading_type="x-notApplicable")])]


def data():
    return [{"request_id": "rr1", "specifier_id": "spec1", "intervals": [(boot.CLOCK.now(), "r1", 1.5), (boot.CLOCK.now(), "r2", 2)]}]


def messages(rid="rq1", ven="ven1"):
    """every message a VEN may send: {label: (type, ven named, xml)}"""
    m = {
        "poll": ("oadrPoll", ven, wire.poll(ven)),
        "request": ("oadrRequestEvent", ven, wire.request_event(ven, rid)),
        "request-limit": ("oadrRequestEvent", ven, wire.request_event(ven, rid, 1)),
        "created": ("oadrCreatedEvent", ven, wire.created_event(ven, [("e1", 0, "optIn")], rid)),
        "created-two": ("oadrCreatedEvent", ven, wire.created_event(ven, [("e1", 0, "optOut"), ("e2", 0, "optIn", 460)], rid)),
        "created-none": ("oadrCreatedEvent", ven, wire.created_event(ven, None, rid, 452)),
        "query": ("oadrQueryRegistration", None, wire.query_registration(rid)),
        "register": ("oadrCreatePartyRegistration", None, wire.create_party_registration("name", None, None, rid)),
        "reregister": ("oadrCreatePartyRegistration", ven, wire.create_party_registration("name", ven, "reg_1", rid)),
        "cancel": ("oadrCancelPartyRegistration", ven, wire.cancel_party_registration("reg_1", ven, rid)),
        "cancel-bare": ("oadrCancelPartyRegistration", None, wire.cancel_party_registration("reg_1", None, rid)),
        "canceled": ("oadrCanceledPartyRegistration", ven, wire.canceled_party_registration("reg_1", ven, rid)),
        "canceled-error": ("oadrCanceledPartyRegistration", ven, wire.canceled_party_registration("reg_1", ven, rid, 452)),
        "offer": ("oadrRegisterReport", ven, wire.register_report(offer(), ven, rid)),
        "offer-one": ("oadrRegisterReport", ven, wire.register_report(offer()[1:], ven, rid)),
        "offer-none": ("oadrRegisterReport", ven, wire.register_report([], ven, rid)),
        "offer-bare": ("oadrRegisterReport", None, wire.register_report(offer(), None, rid)),
        "update": ("oadrUpdateReport", ven, wire.update_report(data(), ven, rid)),
        "update-none": ("oadrUpdateReport", ven, wire.update_report([], ven, rid)),
        "update-bare": ("oadrUpdateReport", None, wire.update_report(data(), None, rid)),
        "report-created": ("oadrCreatedReport", ven, wire.created_report(["rr1"], ven, rid)),
        "report-created-none": ("oadrCreatedReport", ven, wire.created_report([], ven, rid)),
        "report-created-bare": ("oadrCreatedReport", None, wire.created_report(["rr1", "rr2"], None, rid)),
        "report-registered": ("oadrRegisteredReport", ven, wire.registered_report([], ven, rid)),
        "report-canceled": ("oadrCanceledReport", ven, wire.canceled_report(["rr1"], ven, rid)),
        "report-canceled-none": ("oadrCanceledReport", ven, wire.canceled_report([], ven, rid)),
    }
    return m


def foreign(rid="rq1", ven="ven1"):
    """messages that belong to no endpoint of a VTN (or to none it offers)"""
    now = boot.CLOCK.now()
    return {
        "distribute": ("oadrDistributeEvent", None, wire.distribute_event([wire.event("e9", start=now)], rid)),
        "created-registration": ("oadrCreatedPartyRegistration", ven, wire.created_party_registration(ven, "reg", request_id=rid)),
        "reregistration": ("oadrRequestReregistration", ven, wire.request_reregistration(ven)),
        "updated": ("oadrUpdatedReport", ven, wire.updated_report(ven, rid)),
        "create-report": ("oadrCreateReport", ven, wire.create_report([wire.report_request("rrq", "spec1", ["r1"])], ven, rid)),
        "cancel-report": ("oadrCancelReport", ven, wire.cancel_report("rr1", ven, False, rid)),
        "created-opt": ("oadrCreatedOpt", None, wire.created_opt("o1", rid)),
        "canceled-opt": ("oadrCanceledOpt", None, wire.canceled_opt("o1", rid)),
    }


def problems(app, reply, typ, ven, rid, allowed, code=None, own_ven=True):
    """What is wrong with the answer to this request, judged from outside."""
    if reply.status != 200:
        return [("http-status", f"HTTP {reply.status} instead of {sorted(allowed)}")]
    if not reply.body:
        return [("empty", f"an empty answer instead of {sorted(allowed)}")]
    try:
        t, node, err = reply.parsed()
    except Exception as ex:
        return [("not-xml", f"{type(ex).__name__}: {ex}")]
    bad = []
    if err:
        bad.append(("schema", f"the {t} is not valid: {err}"))
    if t not in allowed:
        bad.append(("type", f"{t} instead of {sorted(allowed)}"))
        return bad
    if reply.headers.get("Content-Type", "").split(";")[0] != "application/xml":
        bad.append(("content-type", reply.headers.get("Content-Type")))
    try:
        r = wire.resp(node)
    except Exception as ex:
        return bad + [("response", f"{type(ex).__name__}: {ex}")]
    if t == "oadrRequestReregistration":
        if (node.get("venID") or "") != (ven or ""):
            bad.append(("ven", f"addressed to {node.get('venID')!r}, not {ven!r}"))
        return bad
    if r is None:
        return bad + [("response", f"the {t} carries no eiResponse")]
    if code is not None and r[0] != code:
        bad.append(("code", f"{t} with code {r[0]} instead of {code}"))
    want = rid if typ in ECHO or (rid is not None and typ in ("oadrCreateReport", "oadrCancelReport", "oadrDistributeEvent")) else None
    if want is not None and r[2] != want:
        bad.append(("request-id", f"{t} in answer to request {want!r} echoes {r[2]!r}"))
    if typ not in ECHO and r[2] == "None" and rid != "None":
        bad.append(("request-id", f"{t} invents the request id 'None'"))
    if t == "oadrCreatedPartyRegistration":
        if own_ven and typ == "oadrCreatePartyRegistration" and app.style != "none" and code == 200 and node.get("venID") != "ven_granted":
            bad.append(("ven", f"registered as {node.get('venID')!r}"))
    elif t != "oadrDistributeEvent" and own_ven:
        if (node.get("venID") or "") != (ven or ""):
            bad.append(("ven", f"the {t} names VEN {node.get('venID')!r}, not {ven!r}"))
    if t in ("oadrCreatedPartyRegistration", "oadrDistributeEvent") and node.get("vtnID") != "TheVTN":
        bad.append(("vtn", f"the {t} names VTN {node.get('vtnID')!r}"))
    return bad


def prepare(loop, app, events=True):
    """events for ven1, so that there is something to answer with; with their callback"""
    if events:
        for ven in ("ven1",):
            evspec.add(app.server, evspec.Ev("e1", "A", ven), callback=app.event_callback(), delivery=app.fn("delivery", lambda: None))
            evspec.add(app.server, evspec.Ev("e2", "A", ven), callback=app.event_callback())


# -- 1. every message, every endpoint, every configuration -------------------------------------------------------------------------

CONFIGS = [dict(style=s, lookup=l, poll=p) for s in ("none", "sync", "async") for l in (None, "sync", "async") for p in ("internal", "external")
           if not (s == "none" and p == "external")]


def matrix_cases(tier):
    rids = [(r, "ven1") for r in RIDS] + [("rq1", v) for v in VENS[1:]]
    if tier == "thorough":
        rids = list(itertools.product(RIDS, VENS))
    for ci, c in enumerate(CONFIGS):
        for rid, ven in rids:
            yield [ci, rid, ven]


def run_matrix(case):
    ci, rid, ven = case
    conf = CONFIGS[ci]
    bad, n = [], 0
    with World() as loop:
        for label, (typ, named, xml) in list(messages(rid, ven).items()) + list(foreign(rid, ven).items()):
            for ep in ENDPOINTS:
                app = App(**conf, loop=loop)
                prepare(loop, app, ven == "ven1")
                calls0 = len(app.calls)
                n += 1
                reply = loop.run(send(app.server, xml, ep))
                where = f"{label} ({typ}, request {rid!r}, VEN {named!r}) at {ep}, {conf}"
                echo_rid = None if typ in ("oadrPoll",) else rid
                if typ in OWN and OWN[typ][0] == ep:
                    allowed, code = OWN[typ][1], 200
                    if named is None and conf["lookup"] and typ not in ("oadrQueryRegistration", "oadrCreatePartyRegistration"):
                        if reply.status == 200 and reply.body and reply.type == "oadrRequestReregistration":
                            continue            # a VEN that does not say who it is
                        app_calls = [c for c in app.calls[calls0:] if c[0] != "lookup"]
                        if app_calls:
                            bad.append(("matrix/unnamed", f"{where}: handled for an unknown VEN"))
                        if reply.status == 200 and reply.body and reply.type == "oadrResponse" and reply.resp()[0] in (452, 463):
                            continue
                    if typ == "oadrCreatedEvent" and ven != "ven1" and conf["poll"] == "internal" and label != "created-none":
                        code = 452          # there are no such events
                    if typ == "oadrRequestEvent" and ven == "ven1" and conf["poll"] == "internal":
                        allowed = {"oadrDistributeEvent"}
                    if typ == "oadrPoll" and ven == "ven1" and conf["poll"] == "internal":
                        allowed = {"oadrDistributeEvent"}
                    p = problems(app, reply, typ, named, echo_rid, allowed, code)
                elif typ in ("oadrCreateReport", "oadrCancelReport") and ep == "EiReport":
                    p = problems(app, reply, typ, named, echo_rid, {"oadrResponse", "oadrCreatedReport", "oadrCanceledReport"})
                else:
                    if named is None and conf["lookup"] and reply.status == 200 and reply.body and (
                            reply.type == "oadrRequestReregistration" or reply.type == "oadrResponse" and reply.resp()[0] in (452, 463)):
                        continue
                    p = problems(app, reply, typ, named, echo_rid, {"oadrResponse"}, 459)
                    extra = [c[0] for c in app.calls[calls0:] if c[0] != "lookup"]
                    if extra:
                        p.append(("handled-elsewhere", f"reached the application: {extra}"))
                bad += [(f"matrix/{k}", f"{where}: {m}") for k, m in p]
        for ep in ENDPOINTS:
            for code in (200, 452):
                app = App(**conf, loop=loop)
                n += 1
                reply = loop.run(send(app.server, wire.oadr_response(ven, code, request_id=rid), ep))
                if (reply.status, reply.body) != (200, b""):
                    bad.append(("matrix/response", f"oadrResponse at {ep}: {reply.summary()} instead of an empty HTTP 200"))
    return Outcome(bad, obs=case, steps=n)


# -- 2. malformed messages ---------------------------------------------------------------------------------------------------------

def cut_cases(tier):
    labels = ["poll", "request", "created", "query", "register", "cancel", "offer-one", "update", "report-created", "report-registered", "report-canceled", "canceled"]
    for label in labels:
        n = len(messages()[label][2].encode())
        step = 200
        for i in range(0, n, step):
            yield [label, i, min(i + step, n)]


def state_of(app):
    s = app.server
    return repr((sorted(s.registered_reports), sorted((k, len(v)) for k, v in s.events.items()), sorted(map(str, s.event_callbacks)), len(app.calls)))


def refused(app, loop, body, what, **kw):
    before = state_of(app)
    reply = loop.run(send(app.server, body, **kw))
    bad = []
    if reply.status != 400:
        bad.append(("status", f"{what}: {reply.summary()} instead of HTTP 400"))
    if state_of(app) != before:
        bad.append(("side-effect", f"{what}: refused with {reply.summary()}, but it reached the application"))
    return bad


def run_cut(case):
    label, a, b = case
    bad = []
    with World() as loop:
        app = App("sync", loop=loop)
        prepare(loop, app)
        typ, _, xml = messages()[label]
        full = xml.encode()
        for i in range(a, b):
            body = full[:i]
            if body.rstrip() == full.rstrip():
                continue
            bad += [("cut/" + k, m) for k, m in refused(app, loop, body, f"{label} cut after {i} of {len(full)} bytes", endpoint=OWN[typ][0])]
        r = loop.run(send(app.server, xml))
        bad += [("cut/afterwards/" + k, m) for k, m in problems(app, r, typ, messages()[label][1], "rq1", OWN[typ][1], 200)]
    return Outcome(bad, obs=case, steps=b - a)


JUNK = ["", "x", "-1", "99999999999999999999", "PT", "<", "2030-13-01T00:00:00Z", "200", "0"]


def mutants(xml):
    """single structural edits of a message: (name, tree bytes)"""
    root = etree.fromstring(xml.encode())
    elems = list(root.iter())

    def make(i, f):
        r = copy.deepcopy(root)
        e = list(r.iter())[i]
        f(e, r)
        return etree.tostring(r, xml_declaration=True, encoding="utf-8")
    for i in range(len(elems)):
        name = f"{i}:{etree.QName(elems[i]).localname}"
        if i:
            yield f"drop {name}", make(i, lambda e, r: e.getparent().remove(e))
            yield f"double {name}", make(i, lambda e, r: e.addnext(copy.deepcopy(e)))
        yield f"rename {name}", make(i, lambda e, r: setattr(e, "tag", "{" + (etree.QName(e).namespace or "") + "}nonsense"))
        yield f"other-namespace {name}", make(i, lambda e, r: setattr(e, "tag", "{urn:nowhere}" + etree.QName(e).localname))
        yield f"no-namespace {name}", make(i, lambda e, r: setattr(e, "tag", etree.QName(e).localname))
        yield f"attribute {name}", make(i, lambda e, r: e.set("nonsense", "1"))
        yield f"comment {name}", make(i, lambda e, r: e.insert(0, etree.Comment("c")))
        yield f"instruction {name}", make(i, lambda e, r: e.insert(0, etree.ProcessingInstruction("p", "q")))
        for a in elems[i].attrib:
            yield f"drop-attribute {name}", make(i, lambda e, r, a=a: e.attrib.pop(a))
        if len(elems[i]) == 0:
            for j in JUNK:
                if (elems[i].text or "") != j:
                    yield f"text {j!r} {name}", make(i, lambda e, r, j=j: setattr(e, "text", j))
        else:
            yield f"text-between {name}", make(i, lambda e, r: setattr(e, "text", "junk"))
            yield f"empty {name}", make(i, lambda e, r: [e.remove(c) for c in list(e)] and None)
            if len(elems[i]) > 1:
                yield f"swap {name}", make(i, lambda e, r: e.insert(0, e[-1]))


MUT = ["poll", "request-limit", "created-two", "query", "register", "reregister", "cancel", "canceled", "offer", "update", "report-created", "report-registered",
       "report-canceled"]
OTHER_MUT = ["offer-none", "offer-one", "cancel-bare", "update-bare", "created-none"]


def mutant_cases(tier):
    for label in MUT + (OTHER_MUT if tier == "thorough" else []):
        n = sum(1 for _ in mutants(messages()[label][2]))
        for a in range(0, n, 60):
            yield [label, a, a + 60]


def named_ven(node, typ):
    return node.get("venID") or node.get("eiRequestEvent/venID") or node.get("eiCreatedEvent/venID")


def top_rid(node):
    for p in ("requestID", "eiRequestEvent/requestID"):
        v = node.get(p)
        if v is not None:
            return v
    return None


def run_mutants(case):
    label, a, b = case
    typ = messages()[label][0]
    bad, n = [], 0
    with World() as loop:
        for name, body in itertools.islice(mutants(messages()[label][2]), a, b):
            app = App("sync", loop=loop)
            prepare(loop, app)
            n += 1
            tree = etree.fromstring(body)
            what = f"{label} with {name}"
            if not wire.schema().validate(tree):
                bad += [("mutant/invalid-" + k, m) for k, m in refused(app, loop, body, what, endpoint=OWN[typ][0])]
            else:
                reply = loop.run(send(app.server, body, endpoint=OWN[typ][0]))
                t, node, _ = wire.read(body)
                ven, rid = named_ven(node, t), top_rid(node)
                if name.startswith("comment") or name.startswith("instruction"):
                    ven, rid = messages()[label][1], (rid if rid is None else "rq1")
                if reply.status == 200 and reply.body and reply.type == "oadrResponse" and reply.resp()[0] != 200:
                    p = problems(app, reply, t, ven, None if rid is None else rid, {"oadrResponse"})
                else:
                    p = problems(app, reply, t, ven, rid, OWN[typ][1], 200)
                bad += [("mutant/valid-" + k, f"{what}: {m}") for k, m in p]
            r = loop.run(send(app.server, wire.request_event("ven1", "probe")))
            p = problems(app, r, "oadrRequestEvent", "ven1", "probe", {"oadrDistributeEvent"}, 200)
            bad += [("mutant/afterwards-" + k, f"after {what}: {m}") for k, m in p]
    return Outcome(bad, obs=case, steps=n)


def bodies(xml, typ):
    """whole-body malformations and encodings: (name, body, content type, accepted?)"""
    ok = "application/xml"
    b = xml.encode()
    decl = '<?xml version="1.0" encoding="utf-8"?>'
    bare = xml[xml.index("?>") + 2:] if xml.lstrip().startswith("<?xml") else xml
    u = bare
    yield "as it is", b, ok, True
    for ct in ("application/xml; charset=utf-8", "application/xml;charset=UTF-8", "APPLICATION/XML", "Application/Xml; charset=UTF-8"):
        yield f"content type {ct}", b, ct, True
    for ct in (None, "", "text/xml", "text/plain", "application/json", "application/octet-stream", "application", "xml", "text/application/xml", "application/soap+xml",
               "multipart/form-data; boundary=application/xml"):
        yield f"content type {ct}", b, ct, False
    yield "no declaration", bare.encode(), ok, True
    yield "white space after", b + b"\n \n", ok, True
    yield "comment after", b + b"<!-- x -->", ok, True
    yield "instruction before", (decl + "<?a b?>" + bare.lstrip()).encode(), ok, True
    yield "comment before", (decl + "<!-- x -->" + bare.lstrip()).encode(), ok, True
    yield "byte order mark", b"\xef\xbb\xbf" + b, ok, True
    yield "ascii", ('<?xml version="1.0" encoding="us-ascii"?>' + u.strip()).encode("ascii", "xmlcharrefreplace"), ok, True
    yield "latin-1", ('<?xml version="1.0" encoding="iso-8859-1"?>' + u.strip()).encode("latin-1", "xmlcharrefreplace"), ok, True
    yield "utf-16", ('<?xml version="1.0" encoding="utf-16"?>' + u.strip()).encode("utf-16"), ok, True
    yield "windows-1252", ('<?xml version="1.0" encoding="windows-1252"?>' + u.strip()).encode("cp1252"), ok, None
    yield "cdata", b.replace(b">rq1<", b"><![CDATA[rq1]]><"), ok, True
    yield "character references", b.replace(b">rq1<", b">&#114;q&#x31;<"), ok, True
    yield "white space around everything", b.replace(b"><", b">\n  <"), ok, True
    yield "carriage returns", b.replace(b"><", b">\r\n<"), ok, True
    yield "empty", b"", ok, False
    yield "white space", b" \n ", ok, False
    yield "white space before the declaration", b" " + (decl + bare.strip()).encode(), ok, False
    yield "nul", b + b"\0", ok, False
    yield "nul only", b"\0" * 10, ok, False
    yield "twice", b + b, ok, False
    yield "text after", b + b"x", ok, False
    yield "json", b'{"a": 1}', ok, False
    yield "html", b"<html><body>x</body></html>", ok, False
    yield "open html", b"<html><body>x<br></html>", ok, False
    yield "bad utf-8", b.replace(b">rq1<", b">\xff\xfe<").replace(b">ven1<", b">\xff\xfe<"), ok, False
    yield "wrong encoding name", ('<?xml version="1.0" encoding="nonsense"?>' + u.strip()).encode(), ok, False
    yield "unknown entity", b.replace(b">rq1<", b">&nope;<").replace(b">ven1<", b">&nope;<"), ok, False
    yield "version 9", ('<?xml version="9.0"?>' + u.strip()).encode(), ok, None
    yield "doctype", (decl + "<!DOCTYPE a>" + bare.lstrip()).encode(), ok, None
    yield "internal entity", (decl + '<!DOCTYPE a [<!ENTITY x "rq1">]>' + bare.lstrip()).encode().replace(b">rq1<", b">&x;<").replace(b">ven1<", b">&x;<"), ok, None
    yield "external entity", (decl + '<!DOCTYPE a [<!ENTITY x SYSTEM "file:///nowhere/nothing">]>' + bare.lstrip()).encode().replace(b">rq1<", b">&x;<").replace(b">ven1<", b">&x;<"), ok, None
    yield "entity bomb", (decl + '<!DOCTYPE a [<!ENTITY a "' + "x" * 50 + '">' + "".join(f'<!ENTITY {c} "&{p};&{p};&{p};&{p};&{p};&{p};&{p};&{p};&{p};&{p};">'
                          for p, c in zip("abcdefgh", "bcdefghi")) + "]>" + bare.lstrip()).encode().replace(b">rq1<", b">&i;<").replace(b">ven1<", b">&i;<"), ok, None
    yield "deep", b"<a>" * 3000 + b"</a>" * 3000, ok, False
    yield "payload without message", wire.payload("oadrPoll", "").replace('<oadr:oadrPoll ei:schemaVersion="2.0b"></oadr:oadrPoll>', "").encode(), ok, False
    yield "two messages", xml.replace("</oadr:oadrSignedObject>", "<oadr:oadrQueryRegistration><pyld:requestID>x</pyld:requestID></oadr:oadrQueryRegistration></oadr:oadrSignedObject>").encode(), ok, False


def body_cases(tier):
    for label in messages():
        yield [label]


def run_bodies(case):
    label = case[0]
    typ, named, xml = messages()[label]
    bad, n = [], 0
    with World() as loop:
        for name, body, ct, good in bodies(xml, typ):
            app = App("sync", loop=loop)
            prepare(loop, app)
            n += 1
            what = f"{label}: {name}"
            if good is True:
                reply = loop.run(send(app.server, body, endpoint=OWN[typ][0], content_type=ct))
                bad += [(f"body/good-{k}", f"{what}: {m}") for k, m in problems(app, reply, typ, named, "rq1", OWN[typ][1], 200)]
            elif good is False:
                bad += [(f"body/bad-{k}", m) for k, m in refused(app, loop, body, what, endpoint=OWN[typ][0], content_type=ct)]
            else:       # may be refused or understood, but nothing else
                before = state_of(app)
                reply = loop.run(send(app.server, body, endpoint=OWN[typ][0], content_type=ct))
                if reply.status == 400:
                    if state_of(app) != before:
                        bad.append(("body/side-effect", f"{what}: refused, but it reached the application"))
                elif problems(app, reply, typ, "x", None, OWN[typ][1] | {"oadrResponse"}) and reply.status != 200:
                    bad.append(("body/either", f"{what}: {reply.summary()}"))
            r = loop.run(send(app.server, wire.request_event("ven1", "probe")))
            p = problems(app, r, "oadrRequestEvent", "ven1", "probe", {"oadrDistributeEvent"}, 200)
            bad += [(f"body/afterwards-{k}", f"after {what}: {m}") for k, m in p]
    return Outcome(bad, obs=case, steps=n)


# -- 3. failures of the application --------------------------------------------------------------------------------------------------

# which request exercises which handler: (handler, message, configuration)
REACH = [("on_create_party_registration", "register", {}), ("on_create_party_registration", "reregister", {}), ("on_cancel_party_registration", "cancel", {}),
         ("on_query_registration", "query", {"on_query": True}), ("on_register_report", "offer", {}), ("on_created_report", "report-created", {}),
         ("on_update_report", "update", {}), ("on_poll", "poll", {"poll": "external"}), ("on_request_event", "request", {"poll": "external"}),
         ("on_created_event", "created", {"poll": "external"}), ("event-callback", "created", {}), ("delivery", "request", {}), ("delivery", "poll", {}),
         ("lookup", "poll", {"lookup": "sync"}), ("lookup", "request", {"lookup": "async"}), ("lookup", "offer", {"lookup": "async"}),
         ("lookup", "created", {"lookup": "sync"}), ("lookup", "update", {"lookup": "sync"}), ("lookup", "cancel", {"lookup": "sync"})]
KINDS = list(FAILURES) + ["described", "http-400", "http-418", "http-503", "rereg", "rereg-ven"] + list(OTHERS)


def failure_cases(tier):
    for i, (h, label, conf) in enumerate(REACH):
        for style in ("sync", "async"):
            for kind in KINDS:
                if kind == "stop" and style == "async":
                    continue            # the interpreter turns it into a RuntimeError
                yield [i, style, "raise", kind]
            for w in WEIRD:
                yield [i, style, "return", w]


PROBES = ["register", "query", "request", "created-none", "offer-one", "update", "report-created", "poll", "cancel"]


def run_failure(case):
    i, style, how, kind = case
    handler, label, conf = REACH[i]
    bad = []
    with World() as loop:
        app = App(style=style, loop=loop, **conf)
        prepare(loop, app, conf.get("poll") != "external")
        app.behave[handler] = (how, kind)
        typ, named, xml = messages("rq9")[label]
        reply = loop.run(send(app.server, xml))
        what = f"{handler} {'raises' if how == 'raise' else 'returns'} {kind} ({style}) for {label}"
        if not any(c[0] == handler for c in app.calls):
            bad.append(("failure/not-called", f"{what}: the handler was not called; {reply.summary()}"))
        if how == "raise":
            if kind in FAILURES or kind == "described":
                code = 454 if kind == "described" else FAILURES[kind][1]
                bad += [("failure/" + k, f"{what}: {m}") for k, m in problems(app, reply, typ, named, "rq9" if typ in ECHO else None, OWN[typ][1] | {"oadrResponse"}, code)]
                if kind == "described" and reply.status == 200 and reply.body and "a <b> & c ünï" not in reply.resp()[1]:
                    bad.append(("failure/description", f"{what}: reported as {reply.resp()}"))
            elif kind.startswith("http-"):
                if reply.status != int(kind[5:]):
                    bad.append(("failure/http", f"{what}: {reply.summary()}"))
            elif kind.startswith("rereg"):
                bad += [("failure/" + k, f"{what}: {m}") for k, m in
                        problems(app, reply, typ, "ven1" if kind == "rereg-ven" else named, None, {"oadrRequestReregistration"})]
            elif reply.status != 500:
                bad.append(("failure/other", f"{what}: {reply.summary()} instead of HTTP 500"))
        elif reply.status == 200 and reply.body:
            bad += [("failure/return-" + k, f"{what}: {m}") for k, m in problems(app, reply, typ, named, None, {reply.type}, own_ven=False)]
        elif reply.status != 500:
            bad.append(("failure/return-status", f"{what}: {reply.summary()}"))
        # nothing of it is left
        app.behave.clear()
        for rest in PROBES:
            t, nm, x = messages("probe-" + rest)[rest]
            if rest == "created-none":
                pass
            r = loop.run(send(app.server, x))
            p = problems(app, r, t, nm, "probe-" + rest, OWN[t][1], 200)
            bad += [("failure/afterwards-" + k, f"after {what}, {rest}: {m}") for k, m in p]
        if loop.errors:
            pass
    return Outcome(bad, obs=case, steps=len(PROBES) + 1)


# -- 4. histories ------------------------------------------------------------------------------------------------------------------------

def steps():
    m = messages()
    acts = {k: ("msg", k) for k in ("poll", "request", "register", "cancel", "offer", "update", "report-created", "query")}
    acts.update({"elsewhere": ("at", "poll", "EiReport"), "bad-type": ("type", "request"), "cut": ("cut", "offer"), "invalid": ("invalid", "created"),
                 "fail-register": ("fail", "register", "on_create_party_registration", "auth"), "crash-offer": ("fail", "offer", "on_register_report", "value"),
                 "crash-update": ("fail", "update", "on_update_report", "runtime"), "crash-delivery": ("fail", "request", "delivery", "key"),
                 "fail-callback": ("fail", "created", "event-callback", "target"), "rereg": ("fail", "cancel", "on_cancel_party_registration", "rereg"),
                 "wrong-vtn": ("vtn",), "unknown-event": ("unknown",), "nobody": ("nobody",)})
    return acts


def run_history(param, hist):
    conf = {"sync": dict(style="sync"), "lookup": dict(style="async", lookup="async")}[param]
    bad = []
    acts = steps()
    canon = []
    with World() as loop:
        app = App(**conf, loop=loop)
        prepare(loop, app)
        delivered = False
        for n, h in enumerate(hist):
            a = acts[h]
            rid = f"r{n}"
            ven = "ven1"
            app.behave.clear()
            if a[0] == "msg":
                typ, named, xml = messages(rid, ven)[a[1]]
                reply = loop.run(send(app.server, xml))
                allowed = OWN[typ][1]
                if a[1] == "poll":
                    allowed = {"oadrResponse"} if delivered else {"oadrDistributeEvent"}
                    delivered = True
                elif a[1] == "request":
                    allowed = {"oadrDistributeEvent"}
                p = problems(app, reply, typ, named, rid, allowed, 200)
                if a[1] == "request" and not p and sorted(e["event_id"] for e in reply.events()) != ["e1", "e2"]:
                    p.append(("events", f"{[e['event_id'] for e in reply.events()]}"))
            elif a[0] == "at":
                reply = loop.run(send(app.server, messages(rid)[a[1]][2], a[2]))
                p = problems(app, reply, "oadrPoll", ven, None, {"oadrResponse"}, 459)
            elif a[0] == "type":
                p = refused(app, loop, messages(rid)[a[1]][2], h, endpoint="EiEvent", content_type="text/plain")
            elif a[0] == "cut":
                p = refused(app, loop, messages(rid)[a[1]][2][:-30], h, endpoint="EiReport")
            elif a[0] == "invalid":
                p = refused(app, loop, messages(rid)[a[1]][2].replace("optIn", "optMaybe"), h, endpoint="EiEvent")
            elif a[0] == "fail":
                app.behave[a[2]] = ("raise", a[3])
                typ, named, xml = messages(rid, ven)[a[1]]
                reached = len(app.calls)
                reply = loop.run(send(app.server, xml))
                if a[2] == "on_update_report" and not any(c[0] == "on_update_report" for c in app.calls[reached:]):
                    p = problems(app, reply, typ, named, rid, OWN[typ][1], 200)     # data of reports nobody asked for
                elif a[2] == "event-callback" and not any(c[0] == "event-callback" for c in app.calls[reached:]):
                    p = problems(app, reply, typ, named, None, {"oadrResponse"}, 200)         # answered before
                elif a[3] == "rereg":
                    p = problems(app, reply, typ, named, None, {"oadrRequestReregistration"})
                elif a[3] in FAILURES:
                    p = problems(app, reply, typ, named, rid if typ in ECHO else None, OWN[typ][1] | {"oadrResponse"}, FAILURES[a[3]][1])
                else:
                    p = [] if reply.status == 500 else [("status", f"{reply.summary()} instead of HTTP 500")]
            elif a[0] == "unknown":
                reply = loop.run(send(app.server, wire.created_event(ven, [("zz", 0, "optIn")], rid)))
                p = problems(app, reply, "oadrCreatedEvent", ven, None, {"oadrResponse"}, 452)
            elif a[0] == "nobody":
                reply = loop.run(send(app.server, wire.poll("nobody")))
                p = problems(app, reply, "oadrPoll", "nobody", None, {"oadrRequestReregistration"} if param == "lookup" else {"oadrResponse"})
            else:
                x = wire.registered_report([], ven, rid)
                xml = wire.distribute_event([], rid, vtn_id="OtherVTN")
                reply = loop.run(send(app.server, xml, "EiEvent"))
                p = problems(app, reply, "oadrDistributeEvent", None, rid, {"oadrResponse"}, 452 if param != "lookup" else None)
                if param == "lookup" and reply.status == 200 and reply.type == "oadrRequestReregistration":
                    p = []
            bad += [(f"{h}/{k}", f"{m}") for k, m in p]
        s = app.server
        rs = s.services["report_service"]
        canon = repr((delivered, sorted(rs.registered_reports), bool(rs.report_callbacks), sorted(map(str, s.event_callbacks)),
                      {k: sorted(map(str, (getattr(e, "event_descriptor", None).event_id if hasattr(e, "event_descriptor") else e["event_descriptor"]["event_id"] for e in v)))
                       for k, v in s.events.items()}, sorted(map(str, rs.created_reports)), sorted(map(str, getattr(rs, "requested_reports", {})))))
    return Outcome(bad, obs=(param, hist), steps=len(hist), canon=canon if not bad else None, ops=list(acts))


# -- 5. requests in flight at the same time -----------------------------------------------------------------------------------------------------

TOGETHER = {
    "registrations": [("register", "ven1", None), ("reregister", "ven2", None), ("register", "ven3", "auth")],
    "reports": [("offer", "ven1", None), ("update", "ven2", None), ("offer", "ven3", "value")],
    "created": [("report-created", "ven1", None), ("report-created", "ven2", "data"), ("update", "ven3", None)],
    "polls": [("poll", "ven1", None), ("poll", "ven2", "target"), ("request", "ven3", None)],
    "cancel": [("cancel", "ven1", None), ("cancel", "ven2", "rereg"), ("poll", "ven3", None)],
    "same": [("cancel", "ven1", None), ("cancel", "ven1", "id"), ("register", "ven1", None)],
    "mixed": [("offer", "ven1", "runtime"), ("register", "ven2", None), ("created", "ven3", None)],
    "four": [("cancel", "ven1", None), ("register", "ven2", "compliance"), ("report-created", "ven3", None), ("poll", "ven4", "key")],
}
FOUR = ("four",)


def run_together(param, ch):
    from openleadr import errors     # noqa: F401
    reqs = TOGETHER[param]
    bad = []
    with World() as loop:
        app = App("async", loop=loop, gated=True, poll="external")
        pending = list(range(len(reqs)))
        tasks, judged = {}, set()
        fails = {}

        def judge():
            for i, t in tasks.items():
                if t.done() and i not in judged:
                    judged.add(i)
                    label, ven, fail = reqs[i]
                    typ, named, _ = messages(f"rq{i}", ven)[label]
                    reply = t.result()
                    what = f"{label} of {ven} ({fail or 'fine'}) among {param}"
                    rid = f"rq{i}"
                    if fail is None:
                        p = problems(app, reply, typ, named, rid, OWN[typ][1], 200)
                    elif fail in FAILURES:
                        p = problems(app, reply, typ, named, rid if typ in ECHO else None, OWN[typ][1] | {"oadrResponse"}, FAILURES[fail][1])
                    elif fail == "rereg":
                        p = problems(app, reply, typ, named, None, {"oadrRequestReregistration"})
                    else:
                        p = [] if reply.status == 500 else [("status", f"{reply.summary()}")]
                    bad.extend([(f"{k}", f"{what}: {m}") for k, m in p])
        owner = {}
        while True:
            opts = [("send", i) for i in pending[:1]] + [("open", g) for g in range(len(app.gates))]
            if not opts:
                break
            kind, x = ch.choose(opts)
            if kind == "send":
                pending.remove(x)
                label, ven, fail = reqs[x]
                known = len(app.gates)
                tasks[x] = loop.create_task(send(app.server, messages(f"rq{x}", ven)[label][2]))
                loop.settle()
                for g in app.gates[known:]:
                    owner[id(g[3])] = x
            else:
                name, a, kw, fut = app.gates.pop(x)
                i = owner[id(fut)]
                app.behave = {name: ("raise", reqs[i][2])} if reqs[i][2] else {}
                known = len(app.gates)
                fut.set_result(None)
                loop.settle()
                for g in app.gates[known:]:
                    owner[id(g[3])] = i
                app.behave = {}
            judge()
        if len(judged) != len(reqs):
            bad.append(("unanswered", f"{param}: {len(reqs) - len(judged)} requests were never answered"))
    return Outcome(bad, obs=param, steps=len(reqs))


def scenarios(tier):
    th = tier == "thorough"
    return [
        Product("matrix", matrix_cases, run_matrix, note="34 messages x 4 endpoints x request ids and VEN ids x 15 configurations (handlers none/sync/async, VEN look-up, "
                "internal/external polling): answer type, schema, code, request id, VEN"),
        Product("cut", cut_cases, run_cut, note="12 messages cut after every byte: HTTP 400, no effect"),
        Product("mutants", mutant_cases, run_mutants, note="every single edit (drop, double, rename, namespaces, attributes, texts, order) at every element of 13 messages, judged by an independent schema validation"),
        Product("bodies", body_cases, run_bodies, note="26 messages x 46 content types, encodings, entities and malformed bodies"),
        Product("failures", failure_cases, run_failure, chunk=8, note="19 handlers and look-ups x 27 failures and 15 unusual returned values x sync/async, then nine probes"),
        Histories("histories", run_history, depth={"quick": 3, "thorough": 6}, params=["sync", "lookup"], note="histories over 21 requests, good and bad"),
        Schedules("together", run_together, params=[p for p in TOGETHER if th or p not in FOUR], note="three or four requests in flight, all orders of starting and finishing their handlers"),
    ]
