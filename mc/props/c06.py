"""C06: messages survive the trip over the wire unchanged."""
import copy
import itertools
from datetime import timedelta, timezone
from fractions import Fraction

from .. import boot, wire
from ..core import Outcome, Product
from ..vloop import World

LEVEL = "model_checking"
ASSUMPTIONS = ["texts are not empty and hold only characters that XML 1.0 can carry", "numbers are finite, durations whole seconds",
               "request ids that look like whole numbers may be parsed into numbers (the test suite demands it), but must read the same"]

from openleadr import messaging, objects, enums  # noqa: E402

S_ = timedelta(seconds=1)
UTC = timezone.utc


class Slot:
    """A leaf of a message: its kind and the place of its text on the wire."""
    def __init__(self, kind, path, optional=False, values=None, base=None):
        self.kind, self.path, self.optional, self.values, self.base = kind, path, optional, values, base


class Lst:
    """A list: where its elements are on the wire, what one looks like, and its least length."""
    def __init__(self, path, item, least=0, extra=(), group=False):
        self.path, self.item, self.least, self.extra, self.group = path, item, least, tuple(extra), group


class Sub:
    """A nested dict that may be left out."""
    def __init__(self, item, optional=True, tags=()):
        self.item, self.optional, self.tags = item, optional, tags


def i(path, **k):
    return Slot("text", path, **k)


def e(path, *values, **k):
    return Slot("enum", path, values=list(values), **k)


RESPONSE = {"response_code": Slot("code", "eiResponse/responseCode"), "response_description": i("eiResponse/responseDescription"),
            "request_id": Slot("reqid", "eiResponse/requestID")}
RQ = Slot("reqid", "requestID")
VEN, OVEN = i("venID"), i("venID", optional=True)

REPORT_REQUEST = {"report_request_id": i("reportRequestID"),
                  "report_specifier": Sub({
                      "report_specifier_id": i("reportSpecifier/reportSpecifierID"),
                      "granularity": Slot("td", "reportSpecifier/granularity/duration"),
                      "report_back_duration": Slot("td", "reportSpecifier/reportBackDuration/duration"),
                      "report_interval": Sub({"dtstart": Slot("dt", "reportSpecifier/reportInterval/properties/dtstart/date-time"),
                                              "duration": Slot("td", "reportSpecifier/reportInterval/properties/duration/duration")}),
                      "specifier_payloads": Lst("reportSpecifier/specifierPayload", {
                          "r_id": i("rID"), "reading_type": e("readingType", *enums.READING_TYPE.values)}, least=1)}, optional=False)}

SOURCE = {"group_id": i("reportDataSource/groupID", optional=True), "group_name": i("reportDataSource/groupName", optional=True),
          "resource_id": i("reportDataSource/resourceID", optional=True), "ven_id": i("reportDataSource/venID", optional=True),
          "party_id": i("reportDataSource/partyID", optional=True)}
DESCRIPTION = {"r_id": i("rID"),
               "report_subject": Sub({"end_device_asset": Sub({"mrid": i("reportSubject/endDeviceAsset/mrid")}, optional=False)}),
               "report_data_source": Sub(SOURCE), "report_type": e("reportType", *enums.REPORT_TYPE.values),
               "reading_type": e("readingType", *enums.READING_TYPE.values), "market_context": Slot("uri", "marketContext", optional=True),
               "sampling_rate": Sub({"min_period": Slot("td", "oadrSamplingRate/oadrMinPeriod"), "max_period": Slot("td", "oadrSamplingRate/oadrMaxPeriod"),
                                     "on_change": Slot("bool", "oadrSamplingRate/oadrOnChange")}),
               "measurement": Slot("measure", "", optional=True)}
METADATA = [n for n in enums.REPORT_NAME.values if n.startswith("METADATA")]

SIGNAL = {"signal_name": e("signalName", *[n for n in enums.SIGNAL_NAME.values if n != "SIMPLE"], "x-Own & only", base="LOAD_CONTROL"),
          "signal_type": e("signalType", *enums.SIGNAL_TYPE.values), "signal_id": i("signalID"),
          "current_value": Slot("num", "currentValue/payloadFloat/value", optional=True),
          "measurement": Slot("measure", "", optional=True),
          "intervals": Lst("intervals/interval", {"dtstart": Slot("dt", "dtstart/date-time", optional=True),
                                                  "duration": Slot("td", "duration/duration", values=[600 * S_]),
                                                  "signal_payload": Slot("num", "signalPayload/payloadFloat/value")}, least=1, extra=["uid/text"]),
          "targets": Lst("eiTarget/endDeviceAsset", {"end_device_asset": Sub({"mrid": i("mrid")}, False)})}
EVENT = {"event_descriptor": Sub({"event_id": i("eiEvent/eventDescriptor/eventID"),
                                  "modification_number": Slot("int", "eiEvent/eventDescriptor/modificationNumber"),
                                  "modification_date_time": Slot("dt", "eiEvent/eventDescriptor/modificationDateTime", optional=True),
                                  "modification_reason": i("eiEvent/eventDescriptor/modificationReason", optional=True),
                                  "priority": Slot("int", "eiEvent/eventDescriptor/priority", optional=True),
                                  "market_context": Slot("uri", "eiEvent/eventDescriptor/eiMarketContext/marketContext"),
                                  "created_date_time": Slot("dt", "eiEvent/eventDescriptor/createdDateTime"),
                                  "event_status": e("eiEvent/eventDescriptor/eventStatus", "far", "near", "active", "completed", "cancelled", "none"),
                                  "test_event": Slot("bool", "eiEvent/eventDescriptor/testEvent", optional=True),
                                  "vtn_comment": i("eiEvent/eventDescriptor/vtnComment", optional=True)}, optional=False),
         "active_period": Sub({"dtstart": Slot("dt", "eiEvent/eiActivePeriod/properties/dtstart/date-time"),
                               "duration": Slot("td", "eiEvent/eiActivePeriod/properties/duration/duration", values=["sum"]),
                               "tolerance": Sub({"tolerate": Sub({"startafter": Slot("td", "eiEvent/eiActivePeriod/properties/tolerance/tolerate/startafter")}, False)}),
                               "notification_period": Slot("td", "eiEvent/eiActivePeriod/properties/x-eiNotification/duration", optional=True),
                               "ramp_up_period": Slot("td", "eiEvent/eiActivePeriod/properties/x-eiRampUp/duration", optional=True),
                               "recovery_period": Slot("td", "eiEvent/eiActivePeriod/properties/x-eiRecovery/duration", optional=True)}, optional=False),
         "event_signals": Lst("eiEvent/eiEventSignals/eiEventSignal", SIGNAL, least=1),
         "targets": Slot("targets", "eiEvent/eiTarget"),
         "response_required": e("oadrResponseRequired", "always", "never")}

UPDATE_INTERVAL = {"dtstart": Slot("dt", "dtstart/date-time"), "duration": Slot("td", "duration/duration", optional=True),
                   "report_payload": Sub({"r_id": i("oadrReportPayload/rID"), "value": Slot("num", "oadrReportPayload/payloadFloat/value"),
                                          "confidence": Slot("int", "oadrReportPayload/confidence", optional=True, values=[0, 1, 100]),
                                          "accuracy": Slot("num", "oadrReportPayload/accuracy", optional=True, values=[0, 1, 2.5, 1e-7, 1e16]),
                                          "data_quality": e("oadrReportPayload/oadrDataQuality", "Quality Good - Non Specific", "No Quality - No Value",
                                                            "x-7", optional=True)}, optional=False)}

MESSAGES = {
    "oadrCanceledOpt": {"response": Sub(RESPONSE, False), "opt_id": i("optID")},
    "oadrCreatedOpt": {"response": Sub(RESPONSE, False), "opt_id": i("optID")},
    "oadrCanceledPartyRegistration": {"response": Sub(RESPONSE, False), "registration_id": i("registrationID"), "ven_id": VEN},
    "oadrCanceledReport": {"response": Sub(RESPONSE, False), "ven_id": OVEN,
                           "pending_reports": Lst("oadrPendingReports/reportRequestID", {"report_request_id": i(".")})},
    "oadrCreatedReport": {"response": Sub(RESPONSE, False), "ven_id": OVEN,
                          "pending_reports": Lst("oadrPendingReports/reportRequestID", {"report_request_id": i(".")})},
    "oadrCancelOpt": {"request_id": RQ, "ven_id": VEN, "opt_id": i("optID")},
    "oadrCancelPartyRegistration": {"request_id": RQ, "ven_id": VEN, "registration_id": i("registrationID")},
    "oadrCancelReport": {"request_id": RQ, "ven_id": VEN, "report_request_id": i("reportRequestID"), "report_to_follow": Slot("bool", "reportToFollow")},
    "oadrCreatedEvent": {"response": Sub({"response_code": Slot("code", "eiCreatedEvent/eiResponse/responseCode"),
                                          "response_description": i("eiCreatedEvent/eiResponse/responseDescription")}, False),
                         "ven_id": i("eiCreatedEvent/venID"),
                         "event_responses": Lst("eiCreatedEvent/eventResponses/eventResponse", {
                             "response_code": Slot("code", "responseCode"), "response_description": i("responseDescription", optional=True),
                             "request_id": Slot("reqid", "requestID"), "event_id": i("qualifiedEventID/eventID"),
                             "modification_number": Slot("int", "qualifiedEventID/modificationNumber"), "opt_type": e("optType", "optIn", "optOut")},
                             least=1, extra=[])},
    "oadrCreateOpt": {"request_id": RQ, "ven_id": VEN, "opt_id": i("optID"), "opt_type": e("optType", "optIn", "optOut"),
                      "opt_reason": e("optReason", *enums.OPT_REASON.values), "created_date_time": Slot("dt", "createdDateTime"),
                      "event_id": i("qualifiedEventID/eventID"), "modification_number": Slot("int", "qualifiedEventID/modificationNumber"),
                      "targets": Slot("targets", "eiTarget"), "market_context": Slot("uri", "marketContext", optional=True)},
    "oadrCreatedPartyRegistration": {"response": Sub(RESPONSE, False), "registration_id": i("registrationID", optional="empty"),
                                     "ven_id": i("venID", optional="empty"), "vtn_id": i("vtnID"),
                                     "profiles": Lst("oadrProfiles/oadrProfile", {
                                         "profile_name": e("oadrProfileName", "2.0a", "2.0b"),
                                         "transports": Lst("oadrTransports/oadrTransport",
                                                           {"transport_name": e("oadrTransportName", "simpleHttp", "xmpp")}, least=1)}, least=1),
                                     "requested_oadr_poll_freq": Slot("td", "oadrRequestedOadrPollFreq/duration", optional=True)},
    "oadrCreatePartyRegistration": {"request_id": RQ, "registration_id": i("registrationID", optional=True), "ven_id": OVEN,
                                    "profile_name": e("oadrProfileName", "2.0a", "2.0b"), "transport_name": e("oadrTransportName", "simpleHttp", "xmpp"),
                                    "transport_address": i("oadrTransportAddress", optional=True), "report_only": Slot("bool", "oadrReportOnly"),
                                    "xml_signature": Slot("bool", "oadrXmlSignature"), "ven_name": i("oadrVenName"),
                                    "http_pull_model": Slot("bool", "oadrHttpPullModel")},
    "oadrCreateReport": {"request_id": RQ, "ven_id": VEN, "report_requests": Lst("oadrReportRequest", REPORT_REQUEST, least=1)},
    "oadrRegisteredReport": {"response": Sub(RESPONSE, False), "ven_id": OVEN, "report_requests": Lst("oadrReportRequest", REPORT_REQUEST)},
    "oadrPoll": {"ven_id": VEN},
    "oadrQueryRegistration": {"request_id": RQ},
    "oadrRequestEvent": {"request_id": Slot("reqid", "eiRequestEvent/requestID"), "ven_id": i("eiRequestEvent/venID"),
                         "reply_limit": Slot("int", "eiRequestEvent/replyLimit", optional=True)},
    "oadrRequestReregistration": {"ven_id": VEN},
    "oadrResponse": {"response": Sub(RESPONSE, False), "ven_id": VEN},
    "oadrUpdatedReport": {"response": Sub(RESPONSE, False), "ven_id": OVEN,
                          "cancel_report": Sub({"request_id": Slot("reqid", "oadrCancelReport/requestID"),
                                                "report_request_id": Lst("oadrCancelReport/reportRequestID", i("."), least=2),
                                                "report_to_follow": Slot("bool", "oadrCancelReport/reportToFollow"),
                                                "ven_id": i("oadrCancelReport/venID", optional=True)})},
    "oadrRegisterReport": {"request_id": RQ, "ven_id": OVEN,
                           "reports": Lst("oadrReport", {
                               "duration": Slot("td", "duration/duration", optional=True),
                               "report_descriptions": Lst("oadrReportDescription", DESCRIPTION, least=1),
                               "report_request_id": i("reportRequestID"), "report_specifier_id": i("reportSpecifierID"),
                               "report_name": e("reportName", *METADATA, "x-mine"), "created_date_time": Slot("dt", "createdDateTime")})},
    "oadrUpdateReport": {"request_id": RQ, "ven_id": OVEN,
                         "reports": Lst("oadrReport", {
                             "dtstart": Slot("dt", "dtstart/date-time", optional=True),
                             "intervals": Lst("intervals/interval", UPDATE_INTERVAL), "report_id": i("eiReportID"),
                             "report_descriptions": Lst("oadrReportDescription", {k: v for k, v in DESCRIPTION.items() if k != "measurement"}),
                             "report_request_id": i("reportRequestID"), "report_specifier_id": i("reportSpecifierID"),
                             "report_name": e("reportName", *enums.REPORT_NAME.values, optional=True), "created_date_time": Slot("dt", "createdDateTime")})},
    "oadrDistributeEvent": {"response": Sub(RESPONSE), "request_id": RQ, "vtn_id": i("vtnID"), "events": Lst("oadrEvent", EVENT)},
}
ALLOWED_EXTRA = {"oadrCreatedEvent": ["eiCreatedEvent/eiResponse/requestID"], "oadrDistributeEvent": ["components"]}

# -- alphabets ---------------------------------------------------------------------------------------------------------

TEXTS = ["A b", "x&y", "a<b>c", '"q"', "it's", "]]>", "&amp;", "&#65;", "<!-- c -->", "<x/>", "</ei:venID>", "{{ 7*7 }}", "{% raw %}", "{#",
         "123", "0123", "-5", "1.5", "1.50", "1.2.3", "1e5", ".", "-", "--", "true", "false", "True", "None", "null", "nan",
         "2030-01-01T00:00:00Z", "PT5M", "P1D", "é中😀", "line1\nline2", "l1\n  l2\n\nl3", "a  b", "tab\tx", "cr\rx", "cr\r\nlf", "%s", "@x", "#text",
         "ei:x", "http://x/?a=1&b=2", "a" * 300, "\\n", "u\u00a0x", "x\u2028y\u0085z", "TRUE", "+7", "٣", "1_000", "0x10", "Infinity"]
HARD = ["x&y", "a<b>c", "123", "1.2.3", "true", "line1\nline2", "{{ 7*7 }}", "2030-01-01T00:00:00Z"]
URIS = ["http://x/?a=1&b=2", "urn:x:1", "http://a/b#c", "oadr://programme", "123", "true", "1.5"]
DTS = [boot.real_datetime(2030, 3, 4, 12, 0, tzinfo=UTC), boot.real_datetime(2030, 3, 4, 12, 0, 1, 5, tzinfo=UTC),
       boot.real_datetime(2030, 12, 31, 23, 59, 59, 999999, tzinfo=UTC), boot.real_datetime(2031, 1, 1, 1, 0, tzinfo=timezone(timedelta(hours=2))),
       boot.real_datetime(2030, 3, 4, 12, 0, 0, 100000, tzinfo=timezone(timedelta(hours=-9, minutes=-30)))]
TDS = [timedelta(0), S_, 59 * S_, 60 * S_, 3599 * S_, 3600 * S_, 3661 * S_, 86400 * S_, 90061 * S_, 7 * 86400 * S_, 400 * 86400 * S_]
INTS = [0, 1, 7, 4294967295]
NUMS = [0, 1, -1, 3, 1.5, -0.25, 0.1, 1e-7, 1e22, 123456789.123, 2 ** 53 + 1, -273.15]
CODES = [200, 450, 451, 452, 453, 454, 459, 460, 461, 462, 463, 469]
TARGETS = [[("ven_id", "v1")], [("ven_id", "v1"), ("ven_id", "v2")], [("group_id", "g1"), ("group_name", "n1"), ("resource_id", "r1"), ("ven_id", "v1"), ("party_id", "p1")],
           [("party_id", "p1"), ("resource_id", "r1"), ("resource_id", "r2"), ("resource_id", "r3"), ("group_id", "g1")]] + \
          [[(k, t)] for k in ("group_id", "group_name", "resource_id", "ven_id", "party_id") for t in TEXTS] + \
          [[("ven_id", t), ("ven_id", "v2"), ("group_id", t)] for t in TEXTS]
TAG = {"group_id": "groupID", "group_name": "groupName", "resource_id": "resourceID", "ven_id": "venID", "party_id": "partyID"}


def measures():
    out = []
    for n in enums._MEASUREMENT_DESCRIPTIONS:
        for u in enums._ACCEPTABLE_UNITS[n][:2]:
            m = {"name": n, "description": enums._MEASUREMENT_DESCRIPTIONS[n], "unit": u, "scale": "none"}
            if n == "pulseCount":
                del m["scale"]
                m["pulse_factor"] = 20
            if n.startswith("power"):
                m["power_attributes"] = {"hertz": 60, "voltage": 110, "ac": False}
            out.append(m)
    base = {"name": "voltage", "description": "Voltage", "unit": "V"}
    out += [dict(base, scale=s) for s in enums.SI_SCALE_CODE.values]
    out += [dict(name="powerReal", description="RealPower", unit="W", scale="k", power_attributes={"hertz": h, "voltage": v, "ac": a})
            for h, v, a in ((50, 230, True), (0, 24, False), (16.7, 15000, True))]
    out += [{"name": "customUnit", "description": t, "unit": "furlong", "scale": "none"} for t in TEXTS]
    out += [{"name": "customUnit", "description": "mine", "unit": t, "scale": "none"} for t in TEXTS]
    return out


MEASURES = measures()


def alphabet(s):
    if s.values:
        return s.values
    if s.kind == "measure":
        return MEASURES
    return {"text": TEXTS, "reqid": TEXTS, "uri": URIS, "dt": DTS, "td": TDS, "int": INTS, "num": NUMS, "bool": [True, False], "code": CODES,
            "targets": TARGETS}[s.kind]


# -- building a payload from a definition ------------------------------------------------------------------------------
# A case is a tuple of (address, value); addresses are tuples of keys and list indices; value "ABSENT" drops an optional part,
# ("LEN", n) sets the length of a list.

class Build:
    def __init__(self, case):
        self.over = {tuple(a): tuple(o) if isinstance(o, list) else o for a, o in case}
        self.n = 0

    def go(self, d, addr=()):
        if isinstance(d, Slot):
            if addr in self.over:
                o = self.over[addr]
                return alphabet(d)[o[1]] if isinstance(o, tuple) else o
            self.n += 1
            if d.base is not None:
                return d.base
            if d.kind == "text":
                return f"{addr[-1] if isinstance(addr[-1], str) else 'x'}-{self.n}"
            if d.kind == "reqid":
                return f"rq-{self.n}"
            if d.kind == "uri":
                return f"http://ctx/{self.n}"
            if d.kind == "dt":
                return boot.real_datetime(2030, 5, 6, 7, self.n % 60, 9, tzinfo=UTC)
            if d.kind == "td":
                return d.values[0] if d.values else timedelta(minutes=self.n)
            if d.kind == "int":
                return d.values[1] if d.values else self.n
            if d.kind == "num":
                return d.values[1] if d.values else self.n + 0.5
            if d.kind == "bool":
                return bool(self.n % 2)
            if d.kind == "code":
                return 200
            if d.kind == "enum":
                return d.values[0]
            if d.kind == "targets":
                return [("ven_id", f"v{self.n}"), ("group_id", "g")]
            if d.kind == "measure":
                return {"name": "voltage", "description": "Voltage", "unit": "V", "scale": "none"}
            raise AssertionError(d.kind)
        if isinstance(d, Lst):
            n = max(d.least, 2)
            if addr in self.over:
                n = self.over[addr][1]
            return [self.go(d.item, addr + (k,)) for k in range(n)]
        if isinstance(d, Sub):
            if self.over.get(addr) == "ABSENT":
                return "ABSENT"
            return self.go(d.item, addr)
        return {k: self.go(v, addr + (k,)) for k, v in d.items()}


def finish(mtype, p):
    """fill in what depends on the rest of the payload"""
    if mtype == "oadrDistributeEvent":
        for ev in p["events"]:
            tot = sum((x["duration"] for x in ev["event_signals"][0]["intervals"]), timedelta(0))
            for s in ev["event_signals"]:      # keep the signals equally long
                s["intervals"][-1]["duration"] += tot - sum((x["duration"] for x in s["intervals"]), timedelta(0))
            ev["active_period"]["duration"] = tot
    return p


def strip(p):
    """the payload handed to the library: absent parts left out, targets as dicts"""
    if isinstance(p, dict):
        return {k: ([{a: b} for a, b in v] if k == "targets" and v and isinstance(v[0], tuple) else strip(v)) for k, v in p.items() if not (isinstance(v, str) and v == "ABSENT")}
    if isinstance(p, list):
        return [strip(x) for x in p]
    return copy.copy(p)


# -- comparing ---------------------------------------------------------------------------------------------------------

def same(kind, got, want):
    if kind in ("text", "reqid", "uri", "enum"):
        return got == want
    try:
        if kind == "dt":
            return wire.parse_when(got) == want
        if kind == "td":
            return wire.parse_dur(got) == want
        if kind in ("int", "code"):
            return int(got) == want
        if kind == "num":
            return float(got) == float(want)
        if kind == "bool":
            return got == ("true" if want else "false")
    except ValueError:
        return False


def leaves(n):
    return sum(leaves(c) for c in n.children) if n.children else 1


class Wire:
    """checks the composed message against the payload; counts the leaves that the payload accounts for"""
    def __init__(self):
        self.bad, self.count = [], 0

    def go(self, d, p, node, addr=()):
        if isinstance(d, Slot):
            self.slot(d, p, node, addr)
        elif isinstance(d, Lst):
            par, _, tag = d.path.rpartition("/")
            at = node.find(par) if par else node
            els = at.all(tag) if at is not None else []
            if len(els) != len(p):
                self.bad.append(f"{addr}: {len(els)} elements {tag} for {len(p)}")
                return
            if not p and at is not None and at is not node and not at.children:
                self.count += 1
            for k, (x, el) in enumerate(zip(p, els)):
                self.go(d.item, x, el, addr + (k,))
                for ex in d.extra:
                    if el.get(ex) != str(k):
                        self.bad.append(f"{addr + (k,)}: {ex} is {el.get(ex)}")
                    self.count += 1
        elif isinstance(d, Sub):
            if p == "ABSENT":
                for s in subslots(d.item):
                    if s.path and node.find(s.path) is not None:
                        self.bad.append(f"{addr}: {s.path} present though left out")
                return
            self.go(d.item, p, node, addr)
        else:
            for k, v in d.items():
                self.go(v, p[k], node, addr + (k,))

    def slot(self, d, p, node, addr):
        if d.kind == "targets":
            t = node.find(d.path)
            got = sorted((c.tag, c.text) for c in t.children) if t is not None else None
            if got != sorted((TAG[a], b) for a, b in p):
                self.bad.append(f"{addr}: targets {got} for {p}")
            self.count += len(p)
            return
        if d.kind == "measure":
            els = [c for c in node.children if c.find("itemUnits") is not None]
            if p == "ABSENT":
                if els:
                    self.bad.append(f"{addr}: a measurement though none was given")
                return
            if len(els) != 1:
                self.bad.append(f"{addr}: {len(els)} measurements")
                return
            m = els[0]
            got = {"name": m.tag, "description": m.get("itemDescription"), "unit": m.get("itemUnits")}
            if m.get("siScaleCode") is not None:
                got["scale"] = m.get("siScaleCode")
            if m.get("pulseFactor") is not None:
                got["pulse_factor"] = float(m.get("pulseFactor"))
            a = m.find("powerAttributes")
            if a is not None:
                got["power_attributes"] = {"hertz": float(a.get("hertz")), "voltage": float(a.get("voltage")), "ac": {"true": True, "false": False}.get(a.get("ac"))}
            if got != p:
                self.bad.append(f"{addr}: measurement {got} for {p}")
            self.count += leaves(m)
            return
        if d.path == ".":
            got = node.text
        elif p == "ABSENT":
            n = node.find(d.path)
            if d.optional == "empty" and n is not None:
                self.count += 1
                n = None if n.text == "" and not n.children else n
            if n is not None:
                self.bad.append(f"{addr}: {d.path} is {n.text!r} though nothing was given")
            return
        else:
            n = node.find(d.path)
            got = None if n is None or n.children else n.text
        self.count += 1
        if got is None or not same(d.kind, got, p):
            self.bad.append(f"{addr}: {d.path} is {got!r} on the wire for {p!r}")


def subslots(d):
    if isinstance(d, Slot):
        return [d]
    if isinstance(d, Lst):
        return []
    if isinstance(d, Sub):
        return subslots(d.item)
    return [s for v in d.values() for s in subslots(v)]


def by_type(ts):
    out = {}
    for k, v in ts:
        out.setdefault(k, []).append(v)
    return out


def parsed_diff(d, p, g, addr=(), out=None):
    """differences between what was parsed and the payload"""
    out = [] if out is None else out
    if isinstance(d, Sub):
        d = d.item
    if isinstance(d, Slot):
        if d.kind == "targets":
            if g != [{a: b} for a, b in p] and sorted(map(repr, g or [])) != sorted(repr({a: b}) for a, b in p):
                out.append(f"{addr}: parsed {g!r} for {p!r}")
        elif d.kind == "measure":
            if g != p:
                out.append(f"{addr}: parsed {g!r} for {p!r}")
        elif d.kind == "reqid":
            if str(g) != p:
                out.append(f"{addr}: parsed {g!r} for {p!r}")
        elif d.kind in ("text", "uri", "enum"):
            if type(g) is not str or g != p:
                out.append(f"{addr}: parsed {g!r} for {p!r}")
        elif d.kind == "bool":
            if g is not p:
                out.append(f"{addr}: parsed {g!r} for {p!r}")
        elif d.kind == "num":
            if isinstance(g, (str, bool)) or g != float(p):
                out.append(f"{addr}: parsed {g!r} for {p!r}")
        elif isinstance(g, (str, bool)) or g != p:
            out.append(f"{addr}: parsed {g!r} for {p!r}")
        return out
    if isinstance(d, Lst):
        if not p and not g:
            return out
        if not isinstance(g, list) or len(g) != len(p):
            out.append(f"{addr}: parsed {g!r} for a list of {len(p)}")
            return out
        for k, (x, y) in enumerate(zip(p, g)):
            parsed_diff(d.item, x, y, addr + (k,), out)
        return out
    if not isinstance(g, dict):
        out.append(f"{addr}: parsed {g!r} for {p!r}")
        return out
    known = set(d)
    for k, s in d.items():
        if isinstance(p[k], str) and p[k] == "ABSENT":
            if g.get(k) not in (None, [], {}):
                out.append(f"{addr + (k,)}: parsed {g.get(k)!r} though nothing was given")
        elif k not in g and not (isinstance(s, Lst) and not p[k]):
            out.append(f"{addr + (k,)}: missing after parsing (keys {sorted(g)})")
        else:
            parsed_diff(s, p[k], g.get(k), addr + (k,), out)
        if k == "targets" and isinstance(s, Lst):
            known.add("targets_by_type")
        if isinstance(s, Slot) and s.kind == "targets":
            known.add("targets_by_type")
            if g.get("targets_by_type") != by_type(g2l(g.get("targets"))) or sorted(map(repr, g2l(g.get("targets")))) != sorted(map(repr, p[k])):
                out.append(f"{addr}: targets_by_type {g.get('targets_by_type')!r}")
    for k in set(g) - known:
        if not (k == "uid" and g[k] == addr[-1]) and g[k] not in (None, {}, []) and k not in ("report_request_id",):
            out.append(f"{addr}: unknown {k} = {g[k]!r} after parsing")
    return out


def g2l(ts):
    return [(k, v) for t in (ts or []) for k, v in t.items()]


# -- object forms ------------------------------------------------------------------------------------------------------

def measure_obj(m):
    if m is None:
        return None
    m = dict(m)
    if m.get("power_attributes"):
        m["power_attributes"] = objects.PowerAttributes(**m["power_attributes"])
    return objects.Measurement(**m)


def as_objects(mtype, p):
    o = objects
    try:
        if mtype == "oadrDistributeEvent":
            evs = []
            for ev in p["events"]:
                ev["event_descriptor"].pop("modification_reason", None)
                status, created = ev["event_descriptor"]["event_status"], ev["event_descriptor"]["created_date_time"]
                x = o.Event(event_descriptor=o.EventDescriptor(**ev["event_descriptor"]), active_period=o.ActivePeriod(**ev["active_period"]),
                            event_signals=[o.EventSignal(**dict(s, intervals=[o.Interval(**dict(dict(dtstart=None), **v)) for v in s["intervals"]],
                                                                targets=[o.Target(**t) for t in s["targets"]],
                                                                measurement=measure_obj(s.get("measurement")))) for s in ev["event_signals"]],
                            targets=[o.Target(**t) for t in ev["targets"]], response_required=ev["response_required"])
                x.event_descriptor.event_status, x.event_descriptor.created_date_time = status, created
                evs.append(x)
            return dict(p, events=evs)
        if mtype in ("oadrRegisteredReport", "oadrCreateReport"):
            rrs = []
            for r in p["report_requests"]:
                s = dict(r["report_specifier"], specifier_payloads=[o.SpecifierPayload(**x) for x in r["report_specifier"]["specifier_payloads"]])
                if "report_interval" in s:
                    s["report_interval"] = o.Interval(signal_payload=None, **s["report_interval"])
                rrs.append(o.ReportRequest(report_request_id=r["report_request_id"], report_specifier=o.ReportSpecifier(**s)))
            return dict(p, report_requests=rrs)
        if mtype in ("oadrRegisterReport", "oadrUpdateReport"):
            reps = []
            for r in p["reports"]:
                r = dict(r)
                ds = []
                for d in r["report_descriptions"]:
                    d = dict(dict(report_subject=None, report_data_source=None, market_context=None, sampling_rate=None), **d)
                    if d["report_subject"]:
                        d["report_subject"] = o.Target(end_device_asset=o.EndDeviceAsset(**d["report_subject"]["end_device_asset"]))
                    if d["report_data_source"]:
                        d["report_data_source"] = o.Target(**d["report_data_source"])
                    if d["sampling_rate"]:
                        d["sampling_rate"] = o.SamplingRate(**d["sampling_rate"])
                    d["measurement"] = measure_obj(d.get("measurement"))
                    ds.append(o.ReportDescription(**d))
                r["report_descriptions"] = ds
                if "intervals" in r:
                    ivs = []
                    for v in r["intervals"]:
                        pl = dict(v["report_payload"])
                        dq = pl.pop("data_quality", None)
                        pl = o.ReportPayload(**pl)
                        if dq is not None:
                            pl.data_quality = dq
                        ivs.append(o.ReportInterval(**dict(v, report_payload=pl)))
                    r["intervals"] = ivs
                rid = r.pop("report_id", None)
                name = r.pop("report_name", None)
                x = o.Report(report_name=name, **r)
                x.report_id = rid
                reps.append(x)
            return dict(p, reports=reps)
    except Exception as exc:
        raise AssertionError(f"harness: {exc!r}")
    return None


HAS_OBJECTS = ("oadrDistributeEvent", "oadrRegisteredReport", "oadrCreateReport", "oadrRegisterReport", "oadrUpdateReport")
_pem = {}


def pem():
    if not _pem:
        base = boot.REPO + "/certificates/"
        for k, f in (("cert", "dummy_vtn.crt"), ("key", "dummy_vtn.key")):
            with open(base + f, "rb") as fh:
                _pem[k] = fh.read()
    return _pem


def run(case):
    mtype, form, changes = case
    d = MESSAGES[mtype]
    spec = finish(mtype, Build(changes).go(d))
    v = []
    tag = f"{mtype}" + (" as objects" if form == "object" else " signed" if form == "signed" else "") + f" with {changes!r}"
    with World():
        payload = strip(spec)
        kw = {}
        if form == "object":
            payload = as_objects(mtype, payload)
        if form == "signed":
            kw = pem()
        try:
            msg = messaging.create_message(mtype, **payload, **kw)
        except Exception as exc:
            return Outcome([(f"{mtype}-compose-fails", f"{tag}: {exc!r}")])
        try:
            rtype, node, err = wire.read(msg)
        except Exception as exc:
            return Outcome([(f"{mtype}-not-xml", f"{tag}: {exc!r}")])
        if err:
            v.append((f"{mtype}-schema", f"{tag}: {err}"))
        if rtype != mtype:
            v.append((f"{mtype}-type", f"{tag}: composed a {rtype}"))
        if form == "object":
            for ev in spec.get("events", []):
                ev["event_descriptor"]["modification_reason"] = "ABSENT"
                ed, ap = ev["event_descriptor"], ev["active_period"]
                ed["priority"] = 0 if ed["priority"] == "ABSENT" else ed["priority"]
                ed["test_event"] = False if ed["test_event"] == "ABSENT" else ed["test_event"]
                del ap
            # objects fill in some defaults themselves
            for ev in spec.get("events", []):
                if ev["event_descriptor"]["modification_date_time"] == "ABSENT":
                    ev["event_descriptor"]["modification_date_time"] = boot.CLOCK.now()
        w = Wire()
        w.go(d, spec, node)
        for path in ALLOWED_EXTRA.get(mtype, []):
            if mtype == "oadrCreatedEvent":
                w.count += 1
            else:
                w.count += sum(1 for x in node.all("oadrEvent") if x.find("eiEvent/eiActivePeriod/components") is not None)
        for b in w.bad[:3]:
            v.append((f"{mtype}-wire", f"{tag}: {b}"))
        total = leaves(node)
        if not w.bad and total != w.count:
            v.append((f"{mtype}-extra", f"{tag}: {total} values on the wire, {w.count} in the payload"))
        if form == "signed":
            try:
                messaging.validate_xml_signature(messaging.validate_xml_schema(msg))
            except Exception as exc:
                v.append((f"{mtype}-signature", f"{tag}: the signature does not verify: {exc!r}"))
        try:
            ptype, parsed = messaging.parse_message(msg)
        except Exception as exc:
            v.append((f"{mtype}-parse-fails", f"{tag}: {exc!r}"))
            return Outcome(v)
        if ptype != mtype:
            v.append((f"{mtype}-parsed-type", f"{tag}: parsed as {ptype}"))
        for b in parsed_diff(d, spec, parsed)[:3]:
            v.append((f"{mtype}-parsed", f"{tag}: {b}"))
    return Outcome(v, obs=(total, mtype, len(v)))


# -- enumeration -------------------------------------------------------------------------------------------------------

def places(d, addr=()):
    """(address, Slot/Lst/Sub) of every part of a definition, lists unrolled to their base length"""
    if isinstance(d, (Slot,)):
        yield addr, d
    elif isinstance(d, Lst):
        yield addr, d
        for k in range(max(d.least, 2)):
            yield from places(d.item, addr + (k,))
    elif isinstance(d, Sub):
        yield addr, d
        yield from places(d.item, addr)
    else:
        for k, v in d.items():
            yield from places(v, addr + (k,))


def options(d, hard=False):
    """the changes one place allows"""
    if isinstance(d, Slot):
        if d.kind in ("text", "reqid"):
            vals = HARD if hard else TEXTS
        elif d.kind == "td" and d.values:
            vals = []
        else:
            vals = alphabet(d)
            if hard:
                vals = vals[:2] + vals[-1:] if d.kind != "targets" else [TARGETS[0], TARGETS[3]]
        if d.kind in ("dt", "td", "measure", "targets"):      # by index: cases are plain data
            every = alphabet(d)
            vals = [("I", every.index(x)) for x in vals]
        return list(vals) + (["ABSENT"] if d.optional else [])
    if isinstance(d, Lst):
        return [("LEN", n) for n in range(d.least, 4 if not hard else 4) if n != max(d.least, 2)]
    return ["ABSENT"] if d.optional else []


def forms(t):
    return ("dict", "object") if t in HAS_OBJECTS else ("dict",)


def single(tier):
    out = []
    for t, d in MESSAGES.items():
        for f in forms(t) + ("signed",):
            out.append((t, f, ()))
            for a, s in places(d):
                deep = sum(isinstance(x, int) and x > 0 for x in a)
                if f != "dict" and deep and tier == "quick":
                    continue
                out += [(t, f, ((a, o),)) for o in options(s, hard=(f == "signed"))]
    return out


def related(a, b):
    return a[:len(b)] == b or b[:len(a)] == a


def pairs(tier):
    out = []
    for t, d in MESSAGES.items():
        pl = [(a, s) for a, s in places(d)]
        if tier == "quick":      # all structural pairs, text pairs on the first elements only
            pl = [(a, s) for a, s in pl if not any(isinstance(x, int) and x > 0 for x in a)]
        for (a, s), (b, r) in itertools.combinations(pl, 2):
            if related(a, b):
                continue
            big = isinstance(s, Slot) and isinstance(r, Slot)
            xs, ys = options(s, hard=True), options(r, hard=True)
            if tier == "quick" and big and t in HAS_OBJECTS:
                xs, ys = [x for x in xs if x in ("x&y", "true", "ABSENT")] or xs[:1], [y for y in ys if y in ("x&y", "true", "ABSENT")] or ys[:1]
            for f in forms(t) if tier == "thorough" else ("dict",):
                out += [(t, f, ((a, x), (b, y))) for x in xs for y in ys]
    return out


def lengths(tier):
    """every combination of list lengths 0..3 (0..4) in messages with nested lists"""
    out = []
    for t, d in MESSAGES.items():
        ls = [(a, s) for a, s in places(d) if isinstance(s, Lst)]
        top = [(a, s) for a, s in ls if not any(isinstance(x, int) for x in a)]
        for a, s in top:
            for n in range(s.least, 5 if tier == "thorough" else 4):
                inner = [(b, r) for b, r in ls if len(b) > len(a) and b[:len(a)] == a and b[len(a)] < n]
                inner = [(b, r) for b, r in inner if sum(isinstance(x, int) for x in b) == 1]
                for combo in itertools.islice(itertools.product(*[[(b, ("LEN", k)) for k in range(r.least, 4)] for b, r in inner]), 5000):
                    out.append((t, "dict", ((a, ("LEN", n)),) + combo))
        for a, s in ls:
            if sum(isinstance(x, int) for x in a) <= (2 if tier == "thorough" else 1):
                out += [(t, f, ((a, ("LEN", n)),)) for n in ((9, 10, 11, 33, 101) if tier == "quick" else (9, 10, 11, 16, 33, 64, 101, 256, 1001)) for f in forms(t)]
    return out


def scenarios(tier):
    return [Product("one-change", single, run, "every place of every message type × every value of its alphabet, left out, or list length; as dicts, "
                    "objects and signed", chunk=64),
            Product("two-changes", pairs, run, "every pair of places × hard values", chunk=128),
            Product("list-lengths", lengths, run, "every combination of list lengths 0..3 over nested lists, and single lists of up to 101 (1001) elements", chunk=128)]
