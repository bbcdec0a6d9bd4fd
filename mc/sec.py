"""A VTN behind (simulated) TLS with signature checking, and what it does with a request."""
from datetime import timedelta

from . import boot, wire, sign, vtn, evspec
from .vtn import make_server, Reply


class Vtn:
    """records every call of the application's handlers"""

    def __init__(self, lookup="ven", style="sync", verify=True, vens=None, gate=None, poll="external", **kw):
        self.calls, self.style, self.gate = [], style, gate
        self.vens = vens if vens is not None else {v: {"fingerprint": sign.fingerprint(v), "registration_id": "reg_" + v} for v in ("ven1", "ven2")}
        if "ven" in lookup:
            kw["ven_lookup"] = self._wrap(self.ven_lookup)
        if "fp" in lookup:
            kw["fingerprint_lookup"] = self._wrap(self.fingerprint_lookup)
        self.server = make_server(verify_message_signatures=verify, **kw)
        add = self.server.add_handler
        add("on_create_party_registration", self.fn("register", lambda info: ("ven1", "reg_new")))
        add("on_cancel_party_registration", self.fn("cancel", lambda p: None))
        add("on_query_registration", self.fn("query", lambda p: ("oadrCreatedPartyRegistration", {
            "profiles": [{"profile_name": "2.0b", "transports": [{"transport_name": "simpleHttp"}]}], "requested_oadr_poll_freq": timedelta(seconds=10)})))
        f = self.fn("offer", lambda **kw: (self.fn("data", lambda v: None), timedelta(seconds=10)))
        if style == "async":
            async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                return await f(ven_id=ven_id, measurement=measurement)
        else:
            def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                return f(ven_id=ven_id, measurement=measurement)
        add("on_register_report", on_register_report)
        add("on_created_report", self.fn("report-created", lambda p: None))
        add("on_update_report", self.fn("update", lambda p: None))
        if poll == "external":
            add("on_poll", self.fn("poll", lambda ven_id: None))
            add("on_request_event", self.fn("request", lambda ven_id: None))
            add("on_created_event", self.fn("created", lambda ven_id, event_id, opt_type: None))

    def ven_lookup(self, ven_id):
        v = self.vens.get(ven_id)
        return None if v is None else {"ven_id": ven_id, "ven_name": ven_id, **v}

    def fingerprint_lookup(self, ven_id):
        return (self.vens.get(ven_id) or {}).get("fingerprint")

    def _wrap(self, f):
        if self.style != "async":
            return f

        async def lookup(ven_id):
            if self.gate:
                await self.gate("lookup")
            return f(ven_id)
        return lookup

    def fn(self, name, default):
        if self.style == "async":
            async def f(*a, **kw):
                self.calls.append((name, a, kw))
                return default(*a, **kw)
        else:
            def f(*a, **kw):
                self.calls.append((name, a, kw))
                return default(*a, **kw)
        return f

    async def post(self, body, der=None, secure=True, endpoint=None):
        try:
            return await vtn.send(self.server, body, endpoint, der=der, secure=secure)
        except Exception as ex:
            return Reply(500, repr(ex).encode(), {})

    def state(self):
        s = self.server
        rs = s.services["report_service"]
        return repr((len(self.calls), sorted(map(str, s.registered_reports)), sorted(map(str, rs.report_callbacks)), sorted(map(str, rs.created_reports)),
                     sorted(map(str, getattr(rs, "requested_reports", {})))))


def offer():
    return [("spec1", "METADATA_TELEMETRY_USAGE", [wire.report_description("r1")])]


def data():
    return [{"request_id": "rr1", "specifier_id": "spec1", "intervals": [(boot.CLOCK.now(), "r1", 1.5)]}]


def messages(ven="ven1", rid="rq1"):
    """what a registered VEN sends: label -> (endpoint, xml)"""
    return {
        "poll": ("OadrPoll", wire.poll(ven)), "request": ("EiEvent", wire.request_event(ven, rid)),
        "created": ("EiEvent", wire.created_event(ven, [("e1", 0, "optIn")], rid)),
        "register": ("EiRegisterParty", wire.create_party_registration("name", ven, "reg_" + str(ven), rid)),
        "cancel": ("EiRegisterParty", wire.cancel_party_registration("reg_" + str(ven), ven, rid)),
        "offer": ("EiReport", wire.register_report(offer(), ven, rid)), "update": ("EiReport", wire.update_report(data(), ven, rid)),
        "report-created": ("EiReport", wire.created_report(["rr1"], ven, rid)),
        "report-canceled": ("EiReport", wire.canceled_report([], ven, rid)),
        "canceled": ("EiRegisterParty", wire.canceled_party_registration("reg_" + str(ven), ven, rid)),
    }


def accepted(reply):
    """the VTN answered as if it had acted on the message"""
    if reply.status != 200:
        return False
    if not reply.body:
        return True
    if reply.type == "oadrRequestReregistration":
        return False
    r = reply.resp()
    return r is None or r[0] == 200


def refusal(reply):
    """'463', '403', '400', 'reregister', '452' or what else came back"""
    if reply.status != 200:
        return str(reply.status)
    if not reply.body:
        return "empty"
    if reply.type == "oadrRequestReregistration":
        return "reregister"
    r = reply.resp()
    return reply.type if r is None else str(r[0])
