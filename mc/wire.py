"""
An independent, deliberately plain codec for OpenADR messages: string templates to write requests and answers,
lxml to read them. The code under test is not used here.
"""
import os
import re
from datetime import timedelta
from fractions import Fraction
from xml.sax.saxutils import escape as _esc

from lxml import etree

from . import boot

NS = {
    "oadr": "http://openadr.org/oadr-2.0b/2012/07",
    "ei": "http://docs.oasis-open.org/ns/energyinterop/201110",
    "pyld": "http://docs.oasis-open.org/ns/energyinterop/201110/payloads",
    "xcal": "urn:ietf:params:xml:ns:icalendar-2.0",
    "strm": "urn:ietf:params:xml:ns:icalendar-2.0:stream",
    "emix": "http://docs.oasis-open.org/ns/emix/2011/06",
    "power": "http://docs.oasis-open.org/ns/emix/2011/06/power",
    "scale": "http://docs.oasis-open.org/ns/emix/2011/06/siscale",
}
_HEAD = '<?xml version="1.0" encoding="utf-8"?>\n<oadr:oadrPayload ' + " ".join(
    f'xmlns:{k}="{v}"' for k, v in NS.items()) + '><oadr:oadrSignedObject oadr:Id="oadrSignedObject">'
_TAIL = "</oadr:oadrSignedObject></oadr:oadrPayload>"

SCHEMA_DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema")
_schema = None


def schema():
    global _schema
    if _schema is None:
        _schema = etree.XMLSchema(etree.parse(os.path.join(SCHEMA_DIR, "oadr_20b.xsd")))
    return _schema


def e(v):
    return _esc("" if v is None else str(v))


def dur(td):
    """ISO 8601 duration, in the plainest form."""
    if isinstance(td, str):
        return td
    s = int(td.total_seconds())
    sign = "-" if s < 0 else ""
    return f"{sign}PT{abs(s)}S"


def when(dt):
    if isinstance(dt, str):
        return dt
    return dt.astimezone(boot.UTC).strftime("%Y-%m-%dT%H:%M:%S.%f") + "Z"


def payload(tag, body, attrs=' ei:schemaVersion="2.0b"'):
    return f"{_HEAD}<oadr:{tag}{attrs}>{body}</oadr:{tag}>{_TAIL}"


def el(tag, v):
    return "" if v is None else f"<{tag}>{e(v)}</{tag}>"


def response(code=200, desc="OK", request_id="req"):
    return (f"<ei:eiResponse><ei:responseCode>{code}</ei:responseCode>"
            f"<ei:responseDescription>{e(desc)}</ei:responseDescription>"
            f"<pyld:requestID>{e(request_id)}</pyld:requestID></ei:eiResponse>")


# -- messages a VEN sends ----------------------------------------------------------------------------------------------

def poll(ven_id):
    return payload("oadrPoll", f"<ei:venID>{e(ven_id)}</ei:venID>")


def request_event(ven_id, request_id="rq1", reply_limit=None):
    return payload("oadrRequestEvent", f"<pyld:eiRequestEvent><pyld:requestID>{e(request_id)}</pyld:requestID>"
                   f"<ei:venID>{e(ven_id)}</ei:venID>" + el("pyld:replyLimit", reply_limit) + "</pyld:eiRequestEvent>")


def created_event(ven_id, responses=None, request_id="rq1", code=200):
    """responses: list of (event_id, modification_number, opt) or dicts"""
    rs = ""
    if responses is not None:
        for r in responses:
            ev, mod, opt = r[:3]
            rs += (f"<ei:eventResponse><ei:responseCode>{r[3] if len(r) > 3 else 200}</ei:responseCode>"
                   f"<ei:responseDescription>OK</ei:responseDescription>"
                   f"<pyld:requestID>{e(request_id)}</pyld:requestID>"
                   f"<ei:qualifiedEventID><ei:eventID>{e(ev)}</ei:eventID>"
                   f"<ei:modificationNumber>{mod}</ei:modificationNumber></ei:qualifiedEventID>"
                   f"<ei:optType>{opt}</ei:optType></ei:eventResponse>")
        rs = f"<ei:eventResponses>{rs}</ei:eventResponses>"
    return payload("oadrCreatedEvent", "<pyld:eiCreatedEvent>" + response(code, "OK", request_id) + rs +
                   f"<ei:venID>{e(ven_id)}</ei:venID></pyld:eiCreatedEvent>")


def query_registration(request_id="rq1"):
    return payload("oadrQueryRegistration", f"<pyld:requestID>{e(request_id)}</pyld:requestID>")


def create_party_registration(ven_name="ven", ven_id=None, registration_id=None, request_id="rq1", profile="2.0b",
                              transport="simpleHttp"):
    return payload("oadrCreatePartyRegistration",
                   f"<pyld:requestID>{e(request_id)}</pyld:requestID>" + el("ei:registrationID", registration_id) +
                   el("ei:venID", ven_id) +
                   f"<oadr:oadrProfileName>{profile}</oadr:oadrProfileName>"
                   f"<oadr:oadrTransportName>{transport}</oadr:oadrTransportName>"
                   "<oadr:oadrTransportAddress></oadr:oadrTransportAddress>"
                   "<oadr:oadrReportOnly>false</oadr:oadrReportOnly><oadr:oadrXmlSignature>false</oadr:oadrXmlSignature>"
                   f"<oadr:oadrVenName>{e(ven_name)}</oadr:oadrVenName>"
                   "<oadr:oadrHttpPullModel>true</oadr:oadrHttpPullModel>")


def cancel_party_registration(registration_id="reg1", ven_id=None, request_id="rq1"):
    return payload("oadrCancelPartyRegistration",
                   f"<pyld:requestID>{e(request_id)}</pyld:requestID>"
                   f"<ei:registrationID>{e(registration_id)}</ei:registrationID>" + el("ei:venID", ven_id))


def canceled_party_registration(registration_id="reg1", ven_id=None, request_id="rq1", code=200):
    return payload("oadrCanceledPartyRegistration", response(code, "OK" if code == 200 else "ERROR", request_id) +
                   f"<ei:registrationID>{e(registration_id)}</ei:registrationID>" + el("ei:venID", ven_id))


def report_description(r_id, resource_id="dev1", measurement="voltage", unit="V", desc="Voltage", ns="power",
                       min_period="PT10S", max_period="PT1H", report_type="reading", reading_type="Direct Read",
                       scale="none"):
    m = ""
    if measurement is not None:
        pa = ""
        if "power" in measurement:
            pa = ("<power:powerAttributes><power:hertz>50</power:hertz><power:voltage>230</power:voltage>"
                  "<power:ac>true</power:ac></power:powerAttributes>")
        m = (f"<{ns}:{measurement}><{ns}:itemDescription>{e(desc)}</{ns}:itemDescription>"
             f"<{ns}:itemUnits>{e(unit)}</{ns}:itemUnits><scale:siScaleCode>{scale}</scale:siScaleCode>{pa}"
             f"</{ns}:{measurement}>")
    src = f"<ei:reportDataSource><ei:resourceID>{e(resource_id)}</ei:resourceID></ei:reportDataSource>" \
        if resource_id is not None else ""
    return (f"<oadr:oadrReportDescription><ei:rID>{e(r_id)}</ei:rID>{src}<ei:reportType>{report_type}</ei:reportType>{m}"
            f"<ei:readingType>{reading_type}</ei:readingType>"
            f"<oadr:oadrSamplingRate><oadr:oadrMinPeriod>{dur(min_period)}</oadr:oadrMinPeriod>"
            f"<oadr:oadrMaxPeriod>{dur(max_period)}</oadr:oadrMaxPeriod><oadr:oadrOnChange>false</oadr:oadrOnChange>"
            "</oadr:oadrSamplingRate></oadr:oadrReportDescription>")


def register_report(reports, ven_id=None, request_id="rq1", report_request_id="0"):
    """reports: list of (report_specifier_id, report_name, [description xml])"""
    body = f"<pyld:requestID>{e(request_id)}</pyld:requestID>"
    for spec, name, descs in reports:
        body += ("<oadr:oadrReport><xcal:duration><xcal:duration>PT3600S</xcal:duration></xcal:duration>"
                 + "".join(descs) + f"<ei:reportRequestID>{e(report_request_id)}</ei:reportRequestID>"
                 f"<ei:reportSpecifierID>{e(spec)}</ei:reportSpecifierID><ei:reportName>{e(name)}</ei:reportName>"
                 f"<ei:createdDateTime>{when(boot.CLOCK.now())}</ei:createdDateTime></oadr:oadrReport>")
    return payload("oadrRegisterReport", body + el("ei:venID", ven_id))


def update_report(reports, ven_id=None, request_id="rq1", value_tag="payloadFloat"):
    """reports: list of dict(request_id, specifier_id, name, intervals=[(dt, r_id, value)] or None)"""
    body = f"<pyld:requestID>{e(request_id)}</pyld:requestID>"
    for r in reports:
        ivs = ""
        if r.get("intervals") is not None:
            for dt, r_id, value in r["intervals"]:
                ivs += (f"<ei:interval><xcal:dtstart><xcal:date-time>{when(dt)}</xcal:date-time></xcal:dtstart>"
                        f"<oadr:oadrReportPayload><ei:rID>{e(r_id)}</ei:rID><ei:{value_tag}><ei:value>{value}</ei:value>"
                        f"</ei:{value_tag}></oadr:oadrReportPayload></ei:interval>")
            ivs = f"<strm:intervals>{ivs}</strm:intervals>"
        if r.get("groups") is not None:          # [(dt, [(r_id, payload xml)])]: several payloads in one interval
            for dt, payloads in r["groups"]:
                ivs += (f"<ei:interval><xcal:dtstart><xcal:date-time>{when(dt)}</xcal:date-time></xcal:dtstart>" +
                        "".join(f"<oadr:oadrReportPayload><ei:rID>{e(i)}</ei:rID>{x}</oadr:oadrReportPayload>" for i, x in payloads) +
                        "</ei:interval>")
            ivs = f"<strm:intervals>{ivs}</strm:intervals>"
        body += ("<oadr:oadrReport>" + ivs + "<ei:eiReportID>rep1</ei:eiReportID>"
                 f"<ei:reportRequestID>{e(r['request_id'])}</ei:reportRequestID>"
                 f"<ei:reportSpecifierID>{e(r.get('specifier_id', 'spec'))}</ei:reportSpecifierID>"
                 f"<ei:reportName>{e(r.get('name', 'TELEMETRY_USAGE'))}</ei:reportName>"
                 f"<ei:createdDateTime>{when(boot.CLOCK.now())}</ei:createdDateTime></oadr:oadrReport>")
    return payload("oadrUpdateReport", body + el("ei:venID", ven_id))


def _pending(ids):
    return "<oadr:oadrPendingReports>" + "".join(f"<ei:reportRequestID>{e(i)}</ei:reportRequestID>" for i in ids) + \
        "</oadr:oadrPendingReports>"


def created_report(ids, ven_id=None, request_id="rq1", code=200):
    return payload("oadrCreatedReport", response(code, "OK", request_id) + _pending(ids) + el("ei:venID", ven_id))


def canceled_report(ids, ven_id=None, request_id="rq1", code=200):
    return payload("oadrCanceledReport", response(code, "OK", request_id) + _pending(ids) + el("ei:venID", ven_id))


def oadr_response(ven_id=None, code=200, desc="OK", request_id="rq1"):
    return payload("oadrResponse", response(code, desc, request_id) + f"<ei:venID>{e(ven_id)}</ei:venID>")


# -- messages a VTN sends ----------------------------------------------------------------------------------------------

def created_party_registration(ven_id=None, registration_id=None, vtn_id="TheVTN", code=200, poll_freq="PT10S",
                               request_id="rq1", desc="OK", ids_tags=True):
    body = response(code, desc, request_id)
    body += el("ei:registrationID", registration_id) if registration_id is not None else \
        ("<ei:registrationID/>" if ids_tags else "")
    body += el("ei:venID", ven_id) if ven_id is not None else ("<ei:venID/>" if ids_tags else "")
    body += f"<ei:vtnID>{e(vtn_id)}</ei:vtnID>"
    body += ("<oadr:oadrProfiles><oadr:oadrProfile><oadr:oadrProfileName>2.0b</oadr:oadrProfileName>"
             "<oadr:oadrTransports><oadr:oadrTransport><oadr:oadrTransportName>simpleHttp</oadr:oadrTransportName>"
             "</oadr:oadrTransport></oadr:oadrTransports></oadr:oadrProfile></oadr:oadrProfiles>")
    if poll_freq:
        body += ("<oadr:oadrRequestedOadrPollFreq><xcal:duration>" + dur(poll_freq) +
                 "</xcal:duration></oadr:oadrRequestedOadrPollFreq>")
    return payload("oadrCreatedPartyRegistration", body)


def request_reregistration(ven_id):
    return payload("oadrRequestReregistration", f"<ei:venID>{e(ven_id)}</ei:venID>")


def event(event_id, mod=0, status="far", start=None, duration=timedelta(minutes=10), response_required="always",
          signals=None, priority=0, ramp_up=None, market_context="http://ctx", ven_id="ven1", targets=None,
          ivs=None, created=None):
    """signals: list of (signal_name, signal_type, [(offset, duration, value)])"""
    start = start or boot.CLOCK.now()
    if signals is None:
        signals = [("SIMPLE", "level", [(timedelta(0), duration, 1)])]
    sx = ""
    for n, (name, typ, ivals) in enumerate(signals):
        ix = ""
        for j, (off, d, v) in enumerate(ivals):
            ix += (f"<ei:interval><xcal:dtstart><xcal:date-time>{when(start + off)}</xcal:date-time></xcal:dtstart>"
                   f"<xcal:duration><xcal:duration>{dur(d)}</xcal:duration></xcal:duration>"
                   f"<xcal:uid><xcal:text>{j}</xcal:text></xcal:uid>"
                   f"<ei:signalPayload><ei:payloadFloat><ei:value>{v}</ei:value></ei:payloadFloat></ei:signalPayload>"
                   "</ei:interval>")
        sx += (f"<ei:eiEventSignal><strm:intervals>{ix}</strm:intervals><ei:signalName>{e(name)}</ei:signalName>"
               f"<ei:signalType>{typ}</ei:signalType><ei:signalID>sig{n}</ei:signalID>"
               "<ei:currentValue><ei:payloadFloat><ei:value>0</ei:value></ei:payloadFloat></ei:currentValue>"
               "</ei:eiEventSignal>")
    ru = f"<ei:x-eiRampUp><xcal:duration>{dur(ramp_up)}</xcal:duration></ei:x-eiRampUp>" if ramp_up is not None else ""
    tx = "".join(f"<ei:{k}>{e(v)}</ei:{k}>" for k, v in (targets if targets is not None else [("venID", ven_id)]))
    return ("<oadr:oadrEvent><ei:eiEvent><ei:eventDescriptor>"
            f"<ei:eventID>{e(event_id)}</ei:eventID><ei:modificationNumber>{mod}</ei:modificationNumber>"
            f"<ei:priority>{priority}</ei:priority>"
            f"<ei:eiMarketContext><emix:marketContext>{e(market_context)}</emix:marketContext></ei:eiMarketContext>"
            f"<ei:createdDateTime>{when(created or boot.CLOCK.now())}</ei:createdDateTime>"
            f"<ei:eventStatus>{status}</ei:eventStatus></ei:eventDescriptor>"
            f"<ei:eiActivePeriod><xcal:properties><xcal:dtstart><xcal:date-time>{when(start)}</xcal:date-time></xcal:dtstart>"
            f"<xcal:duration><xcal:duration>{dur(duration)}</xcal:duration></xcal:duration>{ru}</xcal:properties>"
            f"<xcal:components/></ei:eiActivePeriod><ei:eiEventSignals>{sx}</ei:eiEventSignals><ei:eiTarget>{tx}</ei:eiTarget>"
            f"</ei:eiEvent><oadr:oadrResponseRequired>{response_required}</oadr:oadrResponseRequired></oadr:oadrEvent>")


def distribute_event(events, request_id="vtnreq1", vtn_id="TheVTN", code=200, with_response=True):
    return payload("oadrDistributeEvent", (response(code, "OK", request_id) if with_response else "") +
                   f"<pyld:requestID>{e(request_id)}</pyld:requestID><ei:vtnID>{e(vtn_id)}</ei:vtnID>" + "".join(events))


def report_request(request_id, specifier_id, r_ids, granularity="PT10S", back="PT10S", interval=None,
                   measurements=None):
    sp = ""
    for r in r_ids:
        m = (measurements or {}).get(r, "")
        sp += (f"<ei:specifierPayload><ei:rID>{e(r)}</ei:rID>{m}<ei:readingType>Direct Read</ei:readingType>"
               "</ei:specifierPayload>")
    iv = ""
    if interval is not None:
        iv = ("<ei:reportInterval><xcal:properties><xcal:dtstart><xcal:date-time>" + when(interval[0]) +
              "</xcal:date-time></xcal:dtstart><xcal:duration><xcal:duration>" + dur(interval[1]) +
              "</xcal:duration></xcal:duration></xcal:properties></ei:reportInterval>")
    return (f"<oadr:oadrReportRequest><ei:reportRequestID>{e(request_id)}</ei:reportRequestID><ei:reportSpecifier>"
            f"<ei:reportSpecifierID>{e(specifier_id)}</ei:reportSpecifierID>"
            f"<xcal:granularity><xcal:duration>{dur(granularity)}</xcal:duration></xcal:granularity>"
            + (f"<ei:reportBackDuration><xcal:duration>{dur(back)}</xcal:duration></ei:reportBackDuration>"
               if back is not None else "") + iv + sp + "</ei:reportSpecifier></oadr:oadrReportRequest>")


def registered_report(requests, ven_id="ven1", request_id="rq1", code=200):
    return payload("oadrRegisteredReport", response(code, "OK", request_id) + "".join(requests) + el("ei:venID", ven_id))


def create_report(requests, ven_id="ven1", request_id="vtnreq1"):
    return payload("oadrCreateReport", f"<pyld:requestID>{e(request_id)}</pyld:requestID>" + "".join(requests) +
                   el("ei:venID", ven_id))


def cancel_report(report_request_id, ven_id="ven1", to_follow=False, request_id="vtnreq1"):
    ids = report_request_id if isinstance(report_request_id, (list, tuple)) else [report_request_id]
    return payload("oadrCancelReport", f"<pyld:requestID>{e(request_id)}</pyld:requestID>" +
                   "".join(f"<ei:reportRequestID>{e(i)}</ei:reportRequestID>" for i in ids) +
                   f"<pyld:reportToFollow>{'true' if to_follow else 'false'}</pyld:reportToFollow>" + el("ei:venID", ven_id))


def updated_report(ven_id="ven1", request_id="rq1", code=200, cancel=None, to_follow=False):
    c = ""
    if cancel is not None:
        ids = cancel if isinstance(cancel, (list, tuple)) else [cancel]
        c = ("<oadr:oadrCancelReport><pyld:requestID>vtncancel1</pyld:requestID>" +
             "".join(f"<ei:reportRequestID>{e(i)}</ei:reportRequestID>" for i in ids) +
             f"<pyld:reportToFollow>{'true' if to_follow else 'false'}</pyld:reportToFollow>" + el("ei:venID", ven_id) +
             "</oadr:oadrCancelReport>")
    return payload("oadrUpdatedReport", response(code, "OK", request_id) + c + el("ei:venID", ven_id))


def created_opt(opt_id, request_id="rq1", code=200):
    return payload("oadrCreatedOpt", response(code, "OK", request_id) + f"<ei:optID>{e(opt_id)}</ei:optID>")


def canceled_opt(opt_id, request_id="rq1", code=200):
    return payload("oadrCanceledOpt", response(code, "OK", request_id) + f"<ei:optID>{e(opt_id)}</ei:optID>")


# -- reading -----------------------------------------------------------------------------------------------------------

class Node:
    __slots__ = ("tag", "text", "children")

    def __init__(self, elem):
        self.tag = etree.QName(elem).localname
        self.children = [Node(c) for c in elem if isinstance(c.tag, str)]
        self.text = elem.text or ""

    def find(self, path):
        n = self
        for p in path.split("/"):
            n = next((c for c in n.children if c.tag == p), None)
            if n is None:
                return None
        return n

    def all(self, tag):
        return [c for c in self.children if c.tag == tag]

    def get(self, path, default=None):
        n = self.find(path)
        return default if n is None else n.text

    def tree(self):
        return (self.tag, tuple(c.tree() for c in self.children)) if self.children else (self.tag, self.text)


def read(data):
    """bytes/str -> (message type, Node, schema error or None)"""
    if isinstance(data, str):
        data = data.encode("utf-8")
    root = etree.fromstring(data)
    err = None
    sch = schema()
    if not sch.validate(root):
        err = str(sch.error_log.last_error)
    so = next(c for c in root if isinstance(c.tag, str) and etree.QName(c).localname == "oadrSignedObject")
    kids = [c for c in so if isinstance(c.tag, str)]
    assert len(kids) == 1, "exactly one message per payload"
    return etree.QName(kids[0]).localname, Node(kids[0]), err


_DT = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?Z$")


def parse_when(s):
    m = _DT.match(s)
    if not m:
        raise ValueError(f"not a UTC instant: {s!r}")
    us = int(((m.group(7) or "") + "000000")[:6])
    return boot.real_datetime(*(int(g) for g in m.groups()[:6]), us, tzinfo=boot.UTC)


_DUR = re.compile(r"^(?P<sign>[+-])?P(?:(?P<w>\d+)W|(?:(?P<d>\d+)D)?(?:T(?:(?P<h>\d+)H)?(?:(?P<m>\d+)M)?(?:(?P<s>\d+)S)?)?)$")


def parse_dur(s):
    m = _DUR.match(s)
    if not m:
        raise ValueError(f"not a duration: {s!r}")
    g = {k: int(v or 0) for k, v in m.groupdict().items() if k != "sign"}
    td = timedelta(weeks=g["w"], days=g["d"], hours=g["h"], minutes=g["m"], seconds=g["s"])
    return -td if m.group("sign") == "-" else td


def resp(node):
    """(code, description, request id) of the message's eiResponse, or None"""
    r = node.find("eiResponse")
    if r is None:
        r = node.find("eiCreatedEvent/eiResponse")
    if r is None:
        return None
    return int(r.get("responseCode")), r.get("responseDescription"), r.get("requestID")


def read_event(n):
    """oadrEvent Node -> plain dict"""
    ev = n.find("eiEvent")
    d = ev.find("eventDescriptor")
    ap = ev.find("eiActivePeriod/properties")

    def per(tag):
        v = ap.get(tag + "/duration")
        return None if v is None else parse_dur(v)
    tol = ap.get("tolerance/tolerate/startafter")
    out = {"event_id": d.get("eventID"), "mod": int(d.get("modificationNumber")), "status": d.get("eventStatus"),
           "priority": None if d.get("priority") is None else int(d.get("priority")),
           "market_context": d.get("eiMarketContext/marketContext"),
           "created": parse_when(d.get("createdDateTime")),
           "test_event": d.get("testEvent"), "comment": d.get("vtnComment"),
           "start": parse_when(ap.get("dtstart/date-time")), "duration": parse_dur(ap.get("duration/duration")),
           "notification": per("x-eiNotification"), "ramp_up": per("x-eiRampUp"), "recovery": per("x-eiRecovery"),
           "tolerance": None if tol is None else parse_dur(tol),
           "response_required": n.get("oadrResponseRequired"), "signals": [], "targets": []}
    for s in ev.find("eiEventSignals").all("eiEventSignal"):
        ivs = []
        for i in s.find("intervals").all("interval"):
            st = i.get("dtstart/date-time")
            du = i.get("duration/duration")
            ivs.append((None if st is None else parse_when(st), None if du is None else parse_dur(du),
                        Fraction(i.get("signalPayload/payloadFloat/value"))))
        cv = s.get("currentValue/payloadFloat/value")
        tg = s.find("eiTarget")
        out["signals"].append({"name": s.get("signalName"), "type": s.get("signalType"), "id": s.get("signalID"),
                               "intervals": ivs, "current": None if cv is None else Fraction(cv),
                               "mrids": [] if tg is None else [c.get("mrid") for c in tg.children]})
    t = ev.find("eiTarget")
    if t is not None:
        out["targets"] = [(c.tag, c.text if not c.children else c.tree()) for c in t.children]
    return out


def read_events(node):
    return [read_event(x) for x in node.all("oadrEvent")]


def read_created_event(node):
    n = node.find("eiCreatedEvent")
    rs = []
    ers = n.find("eventResponses")
    for r in (ers.all("eventResponse") if ers is not None else []):
        rs.append({"code": int(r.get("responseCode")), "event_id": r.get("qualifiedEventID/eventID"),
                   "mod": int(r.get("qualifiedEventID/modificationNumber")), "opt": r.get("optType"),
                   "request_id": r.get("requestID")})
    return {"response": resp(node), "ven_id": n.get("venID"), "responses": rs}


def read_report_request(n):
    s = n.find("reportSpecifier")
    back = s.get("reportBackDuration/duration")
    return {"request_id": n.get("reportRequestID"), "specifier_id": s.get("reportSpecifierID"),
            "granularity": parse_dur(s.get("granularity/duration")),
            "back": None if back is None else parse_dur(back),
            "r_ids": [p.get("rID") for p in s.all("specifierPayload")],
            "reading_types": [p.get("readingType") for p in s.all("specifierPayload")]}


def read_update_report(node):
    out = []
    for r in node.all("oadrReport"):
        ivs = []
        i = r.find("intervals")
        for iv in (i.all("interval") if i is not None else []):
            p = iv.find("oadrReportPayload")
            ivs.append((parse_when(iv.get("dtstart/date-time")), p.get("rID"),
                        p.get("payloadFloat/value")))
        st = r.get("dtstart/date-time")
        out.append({"request_id": r.get("reportRequestID"), "specifier_id": r.get("reportSpecifierID"),
                    "name": r.get("reportName"), "start": None if st is None else parse_when(st), "intervals": ivs})
    return {"request_id": node.get("requestID"), "ven_id": node.get("venID"), "reports": out}
