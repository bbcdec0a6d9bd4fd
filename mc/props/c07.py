"""C07: times, durations and booleans convert without loss."""
import itertools
import os
import re
import time
from datetime import timedelta, timezone

from .. import boot, wire
from ..core import Outcome, Product

LEVEL = "model_checking"
ASSUMPTIONS = ["durations are whole seconds (the schema has no fractions)",
               "instants carry the Z designator on the wire; years have four digits"]

from openleadr import utils, messaging, objects  # noqa: E402

STRICT = re.compile(r"^[+-]?P(?!$)(\d+Y)?(\d+M)?(\d+D)?(T(?=\d)(\d+H)?(\d+M)?(\d+S)?)?$")


def td_of(c):
    sign, d, h, m, s = c
    return sign * timedelta(days=d, hours=h, minutes=m, seconds=s)


def dur_cases(tier):
    ds = [0, 1, 2, 7, 30, 31, 365] if tier == "quick" else [0, 1, 2, 6, 7, 8, 14, 28, 29, 30, 31, 60, 364, 365, 366, 1000]
    hs = [0, 1, 9, 12, 23] if tier == "quick" else list(range(24))
    ms = [0, 1, 9, 30, 59] if tier == "quick" else [0, 1, 2, 5, 9, 10, 11, 15, 30, 45, 58, 59]
    ss = [0, 1, 9, 30, 59] if tier == "quick" else [0, 1, 2, 5, 9, 10, 11, 15, 30, 45, 58, 59]
    return itertools.product([1, -1], ds, hs, ms, ss)


def run_dur(c):
    td = td_of(c)
    text = utils.timedeltaformat(td)
    v = []
    if not STRICT.match(text):
        v.append(("invalid-notation", f"{td!r} is written as {text!r}"))
    else:
        try:
            meant = wire.parse_dur(text)
        except ValueError:
            meant = None
        if meant != td:
            v.append(("written-wrong", f"{td!r} is written as {text!r}, which means {meant!r}"))
    back = utils.parse_duration(text)
    if back != td:
        v.append(("round-trip", f"{td!r} -> {text!r} -> {back!r}"))
    return Outcome(v, obs=text)


def dur_texts(tier):
    nums = [None, "0", "1", "02", "10", "59", "90"] if tier == "quick" else [None, "0", "00", "1", "02", "9", "10", "59", "60", "90", "100"]
    signs = ["", "-", "+"]
    out = []
    for sg in signs:
        for w in ("0", "1", "02", "53"):
            out.append([sg, w, None, None, None, None, None, None])
        for y, mo in [(None, None), ("1", None), (None, "1"), ("2", "3")]:
            for d, h, m, s in itertools.product(nums, repeat=4):
                if (y, mo, d, h, m, s) == (None,) * 6:
                    continue
                if (y, mo) != (None, None) and (h, m) != (None, None):
                    if tier == "quick":
                        continue
                out.append([sg, None, y, mo, d, h, m, s])
    return out


def run_durtext(c):
    sg, w, y, mo, d, h, m, s = c
    n = lambda x: int(x or 0)
    text = sg + "P"
    if w is not None:
        text += w + "W"
    else:
        text += "".join(f"{x}{u}" for x, u in ((y, "Y"), (mo, "M"), (d, "D")) if x is not None)
        if any(x is not None for x in (h, m, s)):
            text += "T" + "".join(f"{x}{u}" for x, u in ((h, "H"), (m, "M"), (s, "S")) if x is not None)
    want = timedelta(weeks=n(w), days=n(d) + 365 * n(y) + 30 * n(mo), hours=n(h), minutes=n(m), seconds=n(s))
    if sg == "-":
        want = -want
    got = utils.parse_duration(text)
    v = [] if got == want else [("misread", f"{text!r} is read as {got!r}, means {want!r}")]
    return Outcome(v, obs=text)


def run_schema_weeks(text):
    """the notation the OpenADR schema itself allows for weeks: no leading P"""
    got = utils.parse_duration(text)
    want = timedelta(weeks=int(re.sub(r"\D", "", text)))
    return Outcome([] if got == want else [("misread-weeks", f"{text!r} is read as {got!r}, means {want!r}")], obs=text)


BAD = ["", "P1", "1D", "PT", "hello", "P1D ", "P1H1D", "PT1D", "P-1D", "--P1D", "PT1H2", "P1DT1HX", "T1H"]


def run_bad_dur(text):
    """something that is no duration must not be read as one (except the empty forms the schema allows)"""
    try:
        got = utils.parse_duration(text)
    except ValueError:
        return Outcome(obs="refused")
    if text == "PT":
        ok = got == timedelta(0)
    else:
        ok = False
    # 'PT1D' and 'P1H..' style mixtures allowed by the schema's optional T denote what their designators say
    return Outcome([] if ok else [("accepted-nonsense", f"{text!r} was read as {got!r}")], obs=repr(got))


# -- instants
ZONES = {"utc": 0, "+1": 60, "-5": -300, "+5:30": 330, "-3:30": -210, "+14": 840, "-12": -720}
TZS = ["UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30"]
MICROS = [0, 1, 10, 100000, 120000, 123456, 999999]


def dt_cases(tier):
    dates = [(2030, 3, 4), (2030, 12, 31), (2028, 2, 29), (2030, 1, 1), (2030, 3, 31), (2030, 10, 27), (2030, 11, 3), (1999, 12, 31)]
    times = [(0, 0, 0), (1, 2, 3), (2, 30, 0), (12, 0, 59), (23, 59, 59)]
    if tier == "thorough":
        dates += [(2030, m, 1) for m in range(1, 13)] + [(2100, 2, 28), (2000, 2, 29), (1970, 1, 1)]
        times += [(h, 0, 0) for h in range(24)] + [(0, m, s) for m in (1, 9, 10, 59) for s in (0, 9, 10, 59)]
    micros = MICROS
    for d in dates:
        for t in times:
            for us in micros:
                for z in ZONES:
                    yield [list(d), list(t), us, z, None]
                for tz in TZS:
                    yield [list(d), list(t), us, None, tz]


def run_dt(c):
    d, t, us, z, tz = c
    if z is not None:
        x = boot.real_datetime(*d, *t, us, tzinfo=timezone(timedelta(minutes=ZONES[z])))
        want = x.astimezone(timezone.utc)
        v, obs = _dt(x, want)
        return Outcome(v, obs=obs)
    old = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        x = boot.real_datetime(*d, *t, us)        # naive: local time
        import calendar
        stamp = time.mktime((*d, *t, 0, 0, -1))
        want = None
        for dst in (0, 1):
            s = time.mktime((*d, *t, 0, 0, dst))
            if time.localtime(s)[:6] == (*d, *t):
                w = boot.real_datetime(*time.gmtime(s)[:6], us, tzinfo=timezone.utc)
                want = [w] if want is None else want + [w]
        if want is None:
            return Outcome(obs="no such local time")
        v, obs = _dt(x, want)
        return Outcome(v, obs=obs)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def _dt(x, want):
    want = want if isinstance(want, list) else [want]
    text = utils.datetimeformat(x)
    v = []
    try:
        meant = wire.parse_when(text)
        if meant not in want:
            v.append(("written-wrong", f"{x!r} is written as {text!r}"))
    except ValueError:
        v.append(("not-utc", f"{x!r} is written as {text!r}"))
    back = utils.parse_datetime(text)
    if isinstance(back, str) or back not in want or back.utcoffset() != timedelta(0):
        v.append(("round-trip", f"{x!r} -> {text!r} -> {back!r}"))
    return v, text


def dttext_cases(tier):
    fracs = ["", ".", ".0", ".1", ".01", ".001", ".5", ".12", ".123", ".1234", ".12345", ".123456", ".1234567", ".123456789",
             ".999999999", ".000001", ".0000001", ".100000"]
    dates = ["2030-03-04", "2030-12-31", "2028-02-29", "2030-01-01", "1999-10-10", "2030-10-09"]
    times = ["00:00:00", "01:02:03", "12:34:56", "23:59:59", "10:10:10", "08:09:07"]
    return itertools.product(dates, times, fracs)


def run_dttext(c):
    d, t, f = c
    text = f"{d}T{t}{f}Z"
    us = int((f[1:] + "000000")[:6]) if f else 0
    want = boot.real_datetime(*map(int, d.split("-")), *map(int, t.split(":")), us, tzinfo=timezone.utc)
    got = utils.parse_datetime(text)
    v = [] if got == want else [("misread", f"{text!r} is read as {got!r}, denotes {want!r}")]
    return Outcome(v, obs=text)


def bool_cases(tier):
    return [["fmt", True], ["fmt", False], ["fmt", "true"], ["fmt", "false"], ["parse", "true"], ["parse", "false"],
            ["msg", True, True, True], ["msg", True, False, True], ["msg", False, True, False], ["msg", False, False, False],
            ["msg", True, True, False], ["msg", False, False, True]]


def run_bool(c):
    if c[0] == "fmt":
        want = "true" if c[1] in (True, "true") else "false"
        got = utils.booleanformat(c[1])
        back = utils.parse_boolean(got)
        return Outcome([] if got == want and back is (want == "true") else
                       [("boolean", f"{c[1]!r} is written as {got!r} and read as {back!r}")], obs=got)
    if c[0] == "parse":
        got = utils.parse_boolean(c[1])
        return Outcome([] if got is (c[1] == "true") else [("boolean", f"{c[1]!r} is read as {got!r}")], obs=got)
    _, a, b, d = c
    with_clock()
    xml = messaging.create_message("oadrCreatePartyRegistration", request_id="rq", ven_name="v", ven_id=None, http_pull_model=a,
                                   xml_signature=b, report_only=d, profile_name="2.0b", transport_name="simpleHttp",
                                   transport_address=None, registration_id=None)
    _, p = messaging.parse_message(xml)
    got = [p["http_pull_model"], p["xml_signature"], p["report_only"]]
    return Outcome([] if got == [a, b, d] else [("boolean", f"sent {[a, b, d]}, read {got}")], obs=repr(got))


def with_clock():
    boot.reset_world()


# -- the same through complete messages: every field that carries a time or a duration
def msg_cases(tier):
    durs = [0, 1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 86401, 90061, 604800, 31536000]
    if tier == "thorough":
        durs += [s * k for s in (1, 60, 3600, 86400) for k in (2, 3, 5, 7, 11, 24, 25, 59, 61, 100)]
    for s in durs:
        yield ["poll_freq", s]
        yield ["sampling", s]
        yield ["granularity", s]
        yield ["event", s]
        yield ["opt", s]
        yield ["interval", s]
    for us in (0, 1, 1000, 123456, 999999):
        for z in ZONES:
            yield ["report_dt", us, z]
            yield ["event_dt", us, z]


def run_msg(c):
    boot.reset_world()
    kind = c[0]
    now = boot.CLOCK.now()
    if kind in ("report_dt", "event_dt"):
        z = timezone(timedelta(minutes=ZONES[c[2]]))
        x = (now + timedelta(microseconds=c[1])).astimezone(z)
        if kind == "report_dt":
            rep = objects.Report(report_specifier_id="s", report_name="TELEMETRY_USAGE", report_request_id="r", created_date_time=x, dtstart=x,
                                 intervals=[objects.ReportInterval(dtstart=x, report_payload=objects.ReportPayload(r_id="a", value=1.0))])
            xml = messaging.create_message("oadrUpdateReport", request_id="rq", ven_id="v", reports=[rep])
            t, n, err = wire.read(xml)
            u = wire.read_update_report(n)["reports"][0]
            _, p = messaging.parse_message(xml)
            r = p["reports"][0]
            got = [u["start"], u["intervals"][0][0], r["dtstart"], r["intervals"][0]["dtstart"], r["created_date_time"]]
        else:
            xml, p, ev = _event(x, timedelta(hours=1), x)
            got = [ev["start"], ev["created"], ev["signals"][0]["intervals"][0][0],
                   p["events"][0]["active_period"]["dtstart"], p["events"][0]["event_descriptor"]["created_date_time"],
                   p["events"][0]["event_signals"][0]["intervals"][0]["dtstart"]]
            err = wire.read(xml)[2]
        v = [("message-time", f"{kind}: {x!r} became {got!r}")] if any(g != x for g in got) else []
    else:
        td = timedelta(seconds=c[1])
        err = None
        if kind == "poll_freq":
            xml = messaging.create_message("oadrCreatedPartyRegistration", response={"response_code": 200, "response_description": "OK", "request_id": "r"},
                                           registration_id="x", ven_id="v", vtn_id="TheVTN", profiles=[], requested_oadr_poll_freq=td)
            got = [messaging.parse_message(xml)[1]["requested_oadr_poll_freq"]]
            err = None      # the schema demands a profile; not the subject here
            return _res(kind, td, got, None)
        if kind == "sampling":
            rd = objects.ReportDescription(r_id="a", market_context=None, reading_type="Direct Read", report_subject=None,
                                           report_data_source=objects.Target(resource_id="d"), report_type="reading",
                                           sampling_rate=objects.SamplingRate(min_period=td, max_period=td + timedelta(seconds=1)),
                                           measurement=objects.Measurement(name="voltage", description="Voltage", unit="V", scale="none"))
            rep = objects.Report(report_specifier_id="s", report_name="TELEMETRY_USAGE", report_request_id=0, report_descriptions=[rd], duration=td)
            xml = messaging.create_message("oadrRegisterReport", request_id="rq", ven_id="v", reports=[rep], report_request_id=0)
            p = messaging.parse_message(xml)[1]["reports"][0]
            sr = p["report_descriptions"][0]["sampling_rate"]
            got = [p["duration"], sr["min_period"], sr["max_period"] - timedelta(seconds=1)]
        elif kind == "granularity":
            rr = objects.ReportRequest(report_request_id="r", report_specifier=objects.ReportSpecifier(
                report_specifier_id="s", granularity=td, report_back_duration=td, specifier_payloads=[objects.SpecifierPayload("a", "Direct Read")],
                report_interval=objects.Interval(dtstart=now, duration=td, signal_payload=None)))
            xml = messaging.create_message("oadrRegisteredReport", ven_id="v", report_requests=[rr],
                                           response={"response_code": 200, "response_description": "OK", "request_id": "r"})
            p = messaging.parse_message(xml)[1]["report_requests"][0]["report_specifier"]
            got = [p["granularity"], p["report_back_duration"], p["report_interval"]["duration"]]
        elif kind == "opt":
            opt = dict(opt_id="o", opt_type="optIn", opt_reason="economic", request_id="r", ven_id="v", created_date_time=now,
                       targets=[{"ven_id": "v"}], vavailability={"components": [{"dtstart": now, "duration": td}]})
            xml = messaging.create_message("oadrCreateOpt", **opt)
            n = wire.read(xml)[1]
            got = [wire.parse_dur(n.get("vavailability/components/available/properties/duration/duration"))]
        elif kind == "interval":
            rep = objects.Report(report_specifier_id="s", report_name="TELEMETRY_USAGE", report_request_id="r", dtstart=now,
                                 intervals=[objects.ReportInterval(dtstart=now, duration=td, report_payload=objects.ReportPayload(r_id="a", value=1.0))])
            xml = messaging.create_message("oadrUpdateReport", request_id="rq", ven_id="v", reports=[rep])
            got = [messaging.parse_message(xml)[1]["reports"][0]["intervals"][0]["duration"]]
        else:
            xml, p, ev = _event(now, td, now, periods=td)
            ap = p["events"][0]["active_period"]
            got = [ev["duration"], ap["duration"], p["events"][0]["event_signals"][0]["intervals"][0]["duration"]]
            if td:
                got += [ev["ramp_up"], ev["notification"], ev["recovery"], ap["ramp_up_period"], ap["notification_period"], ap["recovery_period"]]
        err = wire.read(xml)[2]
        return _res(kind, td, got, err)
    if err:
        v.append(("schema", f"{kind} {c}: {err}"))
    return Outcome(v, obs=repr(got))


def _res(kind, td, got, err):
    v = [("message-duration", f"{kind}: {td!r} became {got!r}")] if any(g != td for g in got) else []
    if err:
        v.append(("schema", f"{kind} {td!r}: {err}"))
    return Outcome(v, obs=(kind, repr(got)))


def _event(x, td, created, periods=None):
    sig = objects.EventSignal(signal_name="SIMPLE", signal_type="level", signal_id="s",
                              intervals=[objects.Interval(dtstart=x, duration=td, signal_payload=1)])
    ev = objects.Event(event_descriptor=objects.EventDescriptor("e", 0, "http://m", "far", created_date_time=created, modification_date_time=created),
                       event_signals=[sig], targets=[{"ven_id": "v"}],
                       active_period=objects.ActivePeriod(dtstart=x, duration=td, ramp_up_period=periods, notification_period=periods,
                                                          recovery_period=periods))
    xml = messaging.create_message("oadrDistributeEvent", request_id="r", vtn_id="TheVTN", events=[ev],
                                   response={"response_code": 200, "response_description": "OK", "request_id": "r"})
    p = messaging.parse_message(xml)[1]
    return xml, p, wire.read_events(wire.read(xml)[1])[0]


def scenarios(tier):
    return [Product("duration-roundtrip", dur_cases, run_dur, "lattice of days x hours x minutes x seconds x sign", chunk=512),
            Product("duration-notations", dur_texts, run_durtext, "sign x weeks | years, months, days, hours, minutes, seconds", chunk=512),
            Product("duration-schema-weeks", lambda t: ["1W", "2W", "52W"], run_schema_weeks, "weeks as the schema spells them"),
            Product("duration-nonsense", lambda t: BAD, run_bad_dur, "texts that are no durations"),
            Product("instant-roundtrip", dt_cases, run_dt, "dates x times x microseconds x offsets and local zones (DST)", chunk=512),
            Product("instant-notations", dttext_cases, run_dttext, "dates x times x 18 fraction notations", chunk=512),
            Product("booleans", bool_cases, run_bool, "all"),
            Product("in-messages", msg_cases, run_msg, "every duration and time field of the messages that carry one")]
