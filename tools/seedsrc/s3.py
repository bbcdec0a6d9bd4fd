LATE_RESPONSES = '''
from lib import *

async def demo():
    calls = []
    async def answered(ven_id, event_id, opt_type):
        calls.append((event_id, opt_type))
        await asyncio.sleep(0.2)
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    server.add_event("ven1", "SIMPLE", "level", [{"dtstart": now(), "duration": timedelta(hours=1), "signal_payload": 1}],
                     callback=answered, event_id="e1")
    async with Vtn(server) as vtn:
        def response():
            return vtn.send("EiEvent", "oadrCreatedEvent", ven_id="ven1",
                            response={"response_code": 200, "response_description": "OK", "request_id": "r"},
                            event_responses=[{"response_code": 200, "response_description": "OK", "request_id": "r",
                                              "event_id": "e1", "modification_number": 0, "opt_type": "optIn"}])
        await asyncio.gather(response(), response(), response())
        await response()
    return calls == [("e1", "optIn")]
main(demo())
'''

SIGNED = '''
import datetime as _dt
from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.x509.oid import NameOID
from openleadr.utils import certificate_fingerprint

def keypair():
    key = rsa.generate_private_key(public_exponent=65537, key_size=2048)
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "TheVTN")])
    cert = (x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key()).serial_number(1)
            .not_valid_before(_dt.datetime(2020, 1, 1)).not_valid_after(_dt.datetime(2099, 1, 1)).sign(key, hashes.SHA256()))
    return (cert.public_bytes(serialization.Encoding.PEM),
            key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.TraditionalOpenSSL, serialization.NoEncryption()))
'''

SEEDS = [
 dict(id="c04-late-pop", property="C04",
  needs="a second response to the same event that arrives while the application's asynchronous callback is still handling the first one",
  breaks="the application's callback is called once per response instead of once",
  edits=[("openleadr/service/event_service.py", "event, callback = self.event_callbacks.pop((ven_id, event_id))", "event, callback = self.event_callbacks[(ven_id, event_id)]"),
         ("openleadr/service/event_service.py", "                            callback_errors.append(err)\n            if callback_errors:\n                raise callback_errors[0]\n            if invalid", "                            callback_errors.append(err)\n                    self.event_callbacks.pop((ven_id, event_id), None)\n            if callback_errors:\n                raise callback_errors[0]\n            if invalid")],
  demo=LATE_RESPONSES),
 dict(id="c08-unsigned-answer", property="C08",
  needs="an answer from the VTN that carries no signature at all, although the VEN was given the VTN's fingerprint",
  breaks="the VEN acts on unsigned messages; only wrong signatures are still refused",
  edits=[("openleadr/client.py", "            if self.vtn_fingerprint:\n", "            if self.vtn_fingerprint and len(tree) > 1:\n")],
  demo='''
from lib import *
''' + SIGNED + '''
async def demo():
    cert, key = keypair()
    seen = []
    c = make_client(lambda s, t, p: create_message("oadrDistributeEvent", cert=sign[0], key=sign[1], vtn_id="TheVTN", request_id="rq1",
                                                  response={"response_code": 200, "response_description": "OK", "request_id": "rq1"},
                                                  events=[event("e1")]) if t == "oadrPoll" else ok(),
                    vtn_fingerprint=certificate_fingerprint(cert.decode()))
    c.add_handler("on_event", lambda e: seen.append(e["event_descriptor"]["event_id"]) or "optIn")
    sign = (cert, key)
    await c._poll()
    first = list(seen)
    c.received_events.clear()
    sign = (None, None)
    await c._poll()
    return first == ["e1"] and seen == ["e1"]
main(demo())
'''),
 dict(id="c09-early-forget", property="C09",
  needs="a message that is sent again between four and five seconds after it was signed, after another signed message arrived in between",
  breaks="the message is accepted a second time, because its nonce was forgotten before the message was too old",
  edits=[("openleadr/messaging.py", "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n",
          "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp + REPLAY_PROTECT_MAX_TIME_DELTA <= datetime.now(timezone.utc) + timedelta(seconds=1):\n")],
  demo='''
from lib import *
''' + SIGNED + '''
from openleadr.messaging import validate_xml_schema, validate_xml_signature

async def demo():
    cert, key = keypair()
    def message():
        return create_message("oadrPoll", cert=cert, key=key, ven_id="ven1")
    def accepted(m):
        try:
            validate_xml_signature(validate_xml_schema(m))
            return True
        except ValueError:
            return False
    for attempt in range(3):
        first = message()
        sent = now()
        if not accepted(first) or accepted(first):
            return False
        await asyncio.sleep(4.2)
        if not accepted(message()):
            return False
        again = accepted(first)
        if now() - sent < timedelta(seconds=4.9):
            return not again
        if again:
            return False
    return True
main(demo())
'''),
 dict(id="c10-remembered", property="C10",
  needs="a VEN whose registration is withdrawn after the VTN has already served it",
  breaks="the VTN goes on serving a VEN that is no longer registered, because it remembers the result of an earlier look-up",
  edits=[("openleadr/service/vtn_service.py", "        self.handlers = {}\n", "        self.handlers = {}\n        self.known_vens = {}\n"),
         ("openleadr/service/vtn_service.py", "                result = await utils.await_if_required(self.ven_lookup(ven_id=message_payload['ven_id']))\n",
          "                result = self.known_vens.get(message_payload['ven_id'])\n                if result is None:\n                    result = await utils.await_if_required(self.ven_lookup(ven_id=message_payload['ven_id']))\n"),
         ("openleadr/service/vtn_service.py", "                    raise errors.RequestReregistration(message_payload['ven_id'])\n",
          "                    raise errors.RequestReregistration(message_payload['ven_id'])\n                self.known_vens[message_payload['ven_id']] = result\n")],
  demo='''
from lib import *

async def demo():
    vens = {"ven1": {"ven_id": "ven1", "registration_id": "reg1", "fingerprint": None}}
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False, ven_lookup=lambda ven_id: vens.get(ven_id))
    async with Vtn(server) as vtn:
        first = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        del vens["ven1"]
        second = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        vens["ven1"] = {"ven_id": "ven1", "registration_id": None}
        third = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
    return [first[0], second[0], third[0]] == ["oadrResponse", "oadrRequestReregistration", "oadrRequestReregistration"]
main(demo())
'''),
 dict(id="c11-crossed-request-id", property="C11",
  needs="two requests to the same service that overlap while the application's handler is busy",
  breaks="the answer to the first request carries the request id of the second one",
  edits=[("openleadr/service/vtn_service.py", "            handler = self.handlers[message_type]\n", "            handler = self.handlers[message_type]\n            self.request_id = message_payload.get('request_id', None)\n"),
         ("openleadr/service/vtn_service.py", "            response_payload['response'] = {'request_id': message_payload.get('request_id', None),\n",
          "            response_payload['response'] = {'request_id': self.request_id,\n")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    async def register(payload):
        await asyncio.sleep(0.3 if payload["ven_name"] == "a" else 0)
        return "ven_" + payload["ven_name"], "reg_" + payload["ven_name"]
    server.add_handler("on_create_party_registration", register)
    async with Vtn(server) as vtn:
        async def send(name, delay):
            await asyncio.sleep(delay)
            t, p = await vtn.send("EiRegisterParty", "oadrCreatePartyRegistration", request_id="rq_" + name, ven_name=name, profile_name="2.0b",
                                  transport_name="simpleHttp", transport_address=None, report_only=False, xml_signature=False, http_pull_model=True)
            return p["response"]["request_id"], p["ven_id"]
        got = await asyncio.gather(send("a", 0), send("b", 0.1))
    return got == [("rq_a", "ven_a"), ("rq_b", "ven_b")]
main(demo())
'''),
 dict(id="c12-unconfirmed", property="C12",
  needs="a cancellation by the VTN whose confirmation the VTN does not answer",
  breaks="the VEN keeps its registration id although it stopped everything that belongs to the registration",
  edits=[("openleadr/client.py", "        response_type, response_payload = await self._perform_request(service, message)\n        self.registration_id = None\n        logger.info(response_type, response_payload)\n",
          "        response_type, response_payload = await self._perform_request(service, message)\n        if response_type is not None:\n            self.registration_id = None\n        logger.info(response_type, response_payload)\n")],
  demo='''
from lib import *

async def demo():
    def answer(s, t, p):
        if t == "oadrPoll":
            return create_message("oadrCancelPartyRegistration", request_id="rq1", registration_id="reg1", ven_id="ven1", vtn_id="TheVTN")
        return 503, b""
    c = make_client(answer)
    await c._poll()
    sent = [t for t, p in c.client_session.sent]
    return sent == ["oadrPoll", "oadrCanceledPartyRegistration"] and c.registration_id is None
main(demo())
'''),
 dict(id="c13-not-text", property="C13",
  needs="an answer whose bytes are not valid UTF-8",
  breaks="the exception escapes from the VEN's poll instead of being handled as a failed exchange",
  edits=[("openleadr/client.py", "        except Exception as err:\n            logger.error(f\"Request error {err.__class__.__name__}:{err}\")\n",
          "        except (aiohttp.ClientError, asyncio.TimeoutError, OSError) as err:\n            logger.error(f\"Request error {err.__class__.__name__}:{err}\")\n")],
  demo='''
from lib import *

async def demo():
    bad = [True]
    c = make_client(lambda s, t, p: (200, b"\\xff\\xfe\\x00garbage") if bad[0] else ok())
    await c._poll()
    await c.request_event()
    bad[0] = False
    return (await c.poll())[0] == "oadrResponse"
main(demo())
'''),
 dict(id="c14-stop-at-unknown", property="C14",
  needs="a report request that names an unknown data point before a known one",
  breaks="the known data points that follow an unknown one are not reported",
  edits=[("openleadr/client.py", "                                        f\"inside report with report_specifier_id {report_specifier_id} \"\n                                        f\"was requested.\")\n                            continue\n",
          "                                        f\"inside report with report_specifier_id {report_specifier_id} \"\n                                        f\"was requested.\")\n                            break\n")],
  demo='''
from lib import *

async def demo():
    c = make_client()
    spec = c.add_report(lambda: 1.0, "res", "voltage", report_specifier_id="spec", r_id="a", sampling_rate=timedelta(seconds=10))
    c.add_report(lambda: 2.0, "res", "voltage", report_specifier_id="spec", r_id="b", sampling_rate=timedelta(seconds=10))
    await c.create_report({"request_id": "rq", "report_requests": [
        {"report_request_id": "rr1", "report_specifier": {"report_specifier_id": "spec", "granularity": timedelta(0),
         "report_back_duration": timedelta(0),
         "specifier_payloads": [{"r_id": r, "reading_type": "Direct Read"} for r in ("a", "nope", "b")]}}]})
    if c.pending_reports.empty():
        return False
    report = c.pending_reports.get_nowait()
    return sorted(i.report_payload.r_id for i in report.intervals) == ["a", "b"]
main(demo())
'''),
 dict(id="c15-one-job", property="C15",
  needs="two periodic requests for the same report that are in force at the same time",
  breaks="the second request takes the place of the first one, which is confirmed but never reported",
  edits=[("openleadr/client.py", "                        job = self.scheduler.add_job(func=callback,\n", "                        job = self.scheduler.add_job(func=callback, id=report_specifier_id, replace_existing=True,\n")],
  demo='''
from lib import *

async def demo():
    c = make_client()
    c.scheduler.start(paused=True)
    for r in ("a", "b"):
        c.add_report(lambda: 1.0, "res", "voltage", report_specifier_id="spec", r_id=r, sampling_rate=timedelta(seconds=10))
    for i, r in enumerate(("a", "b")):
        await c.create_report({"request_id": "rq", "report_requests": [
            {"report_request_id": f"rr{i}", "report_specifier": {"report_specifier_id": "spec", "granularity": timedelta(seconds=10),
             "report_back_duration": timedelta(seconds=10), "specifier_payloads": [{"r_id": r, "reading_type": "Direct Read"}]}}]})
    got = []
    for job in c.scheduler.get_jobs():
        await job.func(*job.args, **job.kwargs)
    while not c.pending_reports.empty():
        got.append(c.pending_reports.get_nowait().report_request_id)
    return sorted(got) == ["rr0", "rr1"]
main(demo())
'''),
 dict(id="c16-equal-times", property="C16",
  needs="a report with two values of one data point that carry the same time",
  breaks="the application's callback gets only the last of the values with equal times",
  edits=[("openleadr/service/report_service.py", "                    values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]\n",
          "                    values = list({ri['dtstart']: ri['report_payload']['value'] for ri in values}.items())\n")],
  demo='''
from lib import *
from dataclasses import asdict

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    got = []
    server.add_handler("on_register_report", lambda ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval:
                       (got.extend, min_sampling_interval))
    c = make_client()
    c.add_report(lambda: 1.0, "res", "voltage", report_specifier_id="spec", r_id="a", sampling_rate=timedelta(seconds=10))
    async with Vtn(server) as vtn:
        t, p = await vtn.send("EiReport", "oadrRegisterReport", ven_id="ven1", request_id="rq", reports=[asdict(r) | {"report_request_id": 0} for r in c.reports])
        rr = p["report_requests"][0]["report_request_id"]
        when = now().replace(microsecond=0)
        iv = lambda v: {"dtstart": when, "report_payload": {"r_id": "a", "value": v}}
        await vtn.send("EiReport", "oadrUpdateReport", ven_id="ven1", request_id="rq2", reports=[
            {"report_id": "x", "report_request_id": rr, "report_specifier_id": "spec", "report_name": "TELEMETRY_USAGE",
             "created_date_time": when, "dtstart": when, "intervals": [iv(1.0), iv(2.0), iv(3.0)]}])
    return got == [(when, 1.0), (when, 2.0), (when, 3.0)]
main(demo())
'''),
 dict(id="c17-newest-first", property="C17",
  needs="a VTN that is so slow in accepting a report that the next two reports are finished before it answers",
  breaks="the reports that wait to be sent are sent newest first",
  edits=[("openleadr/client.py", "        self.pending_reports = asyncio.Queue()  #", "        self.pending_reports = asyncio.LifoQueue()  #")],
  demo='''
from lib import *

async def demo():
    gate = asyncio.Event()
    async def slow():
        await gate.wait()
        return create_message("oadrUpdatedReport", ven_id="ven1", response={"response_code": 200, "response_description": "OK", "request_id": "r"})
    c = make_client(lambda s, t, p: slow() if t == "oadrUpdateReport" else ok())
    c.loop = asyncio.get_running_loop()
    values = iter(range(10))
    c.add_report(lambda: float(next(values)), "res", "voltage", report_specifier_id="spec", r_id="a", sampling_rate=timedelta(seconds=10))
    c.scheduler.start(paused=True)
    await c.create_report({"request_id": "rq", "report_requests": [
        {"report_request_id": "rr", "report_specifier": {"report_specifier_id": "spec", "granularity": timedelta(seconds=10),
         "report_back_duration": timedelta(seconds=10), "specifier_payloads": [{"r_id": "a", "reading_type": "Direct Read"}]}}]})
    worker = asyncio.ensure_future(c._report_queue_worker())
    for i in range(4):
        await c.update_report("rr")
        await asyncio.sleep(0.01)
    gate.set()
    await asyncio.sleep(0.3)
    worker.cancel()
    got = [p["reports"][0]["intervals"][0]["report_payload"]["value"] for t, p in c.client_session.sent if t == "oadrUpdateReport"]
    return got == [0.0, 1.0, 2.0, 3.0]
main(demo())
'''),
 dict(id="c18-jitter", property="C18",
  needs="a sampling interval of a minute or more",
  breaks="the samples of slow reports are taken up to five seconds before or after the instants they belong to",
  edits=[("openleadr/client.py", "                        job = self.scheduler.add_job(func=callback,\n", "                        job = self.scheduler.add_job(func=callback, jitter=5 if granularity >= timedelta(minutes=1) else None,\n")],
  demo='''
from lib import *

async def demo():
    for seconds in (10, 60, 300, 900):
        c = make_client()
        c.scheduler.start(paused=True)
        c.add_report(lambda: 1.0, "res", "voltage", report_specifier_id="spec", r_id="a", sampling_rate=timedelta(seconds=seconds))
        await c.create_report({"request_id": "rq", "report_requests": [
            {"report_request_id": "rr", "report_specifier": {"report_specifier_id": "spec", "granularity": timedelta(seconds=seconds),
             "report_back_duration": timedelta(seconds=seconds), "specifier_payloads": [{"r_id": "a", "reading_type": "Direct Read"}]}}]})
        job = c.scheduler.get_jobs()[0]
        t = None
        at = now()
        for i in range(20):
            n = job.trigger.get_next_fire_time(t, at)
            if n.microsecond or int(n.timestamp()) % seconds:
                return False
            t, at = n, n + timedelta(seconds=1)
        c.scheduler.shutdown(wait=False)
    return True
main(demo())
'''),
 dict(id="c19-shared-callbacks", property="C19",
  needs="two servers in one process, one of which asks for the data points of a report and the other one does not",
  breaks="the report callbacks of one server live in the other one: its on_update_report handler is no longer called",
  edits=[("openleadr/service/report_service.py", "class ReportService(VTNService):\n\n    def __init__", "class ReportService(VTNService):\n    report_callbacks = {}\n\n    def __init__"),
         ("openleadr/service/report_service.py", "        super().__init__(vtn_id)\n        self.report_callbacks = {}\n", "        super().__init__(vtn_id)\n")],
  demo='''
from lib import *
from dataclasses import asdict

async def demo():
    a = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    b = OpenADRServer(vtn_id="OtherVTN", show_fingerprint=False)
    whole = []
    a.add_handler("on_register_report", lambda ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval:
                  (print, min_sampling_interval))
    b.add_handler("on_update_report", lambda report: whole.append(report["report_specifier_id"]))
    c = make_client()
    c.add_report(lambda: 1.0, "res", "voltage", report_specifier_id="spec", r_id="a", sampling_rate=timedelta(seconds=10))
    when = now().replace(microsecond=0)
    async with Vtn(a) as vtn:
        await vtn.send("EiReport", "oadrRegisterReport", ven_id="ven1", request_id="rq", reports=[asdict(r) | {"report_request_id": 0} for r in c.reports])
    async with Vtn(b) as vtn:
        await vtn.send("EiReport", "oadrUpdateReport", ven_id="ven1", request_id="rq2", reports=[
            {"report_id": "x", "report_request_id": "rr", "report_specifier_id": "spec", "report_name": "TELEMETRY_USAGE", "created_date_time": when,
             "dtstart": when, "intervals": [{"dtstart": when, "report_payload": {"r_id": "a", "value": 1.0}}]}])
    return whole == ["spec"]
main(demo())
'''),
 dict(id="c21-same-name", property="C21",
  needs="two data points without a report id of their own that are declared for reports of the same name but different data collection modes",
  breaks="the data point that is collected as a whole joins the report whose values are sampled one by one",
  edits=[("openleadr/client.py", "                                   'report_name', report_name,\n                                   'data_collection_mode', data_collection_mode)\n",
          "                                   'report_name', report_name)\n")],
  demo='''
from lib import *

async def demo():
    c = make_client()
    def history(date_from, date_to, sampling_interval):
        return []
    s1, a = c.add_report(lambda: 1.0, "res", "voltage", r_id="a", sampling_rate=timedelta(seconds=10))
    s2, b = c.add_report(history, "res", "voltage", r_id="b", data_collection_mode="full", sampling_rate=timedelta(seconds=10))
    s3, d = c.add_report(lambda: 1.0, "res", "voltage", r_id="d", sampling_rate=timedelta(seconds=10))
    return s1 == s3 != s2 and [len(r.report_descriptions) for r in c.reports] == [2, 1]
main(demo())
'''),
 dict(id="c22-first-modification", property="C22",
  needs="an opt for an event whose modification number is 0 next to the event's id",
  breaks="the opt names an event without a modification number, so it is not valid and never acknowledged",
  edits=[("openleadr/client.py", "            modification_number=modification_number,\n            targets=targets,\n", "            modification_number=modification_number or '',\n            targets=targets,\n")],
  demo='''
from lib import *
from openleadr.messaging import validate_xml_schema

async def demo():
    c = make_client(lambda s, t, p: create_message("oadrCreatedOpt", opt_id=p["opt_id"], response={"response_code": 200, "response_description": "OK", "request_id": p["request_id"]}))
    raw = []
    async def hook(xml):
        raw.append(xml)
    c.add_hook("before_send_xml", hook)
    for n in (0, 1, 7):
        if await c.create_opt("optOut", "economic", [{"ven_id": "ven1"}], event_id="e1", modification_number=n, opt_id=f"o{n}") != f"o{n}":
            return False
        validate_xml_schema(raw[-1])
        if c.client_session.sent[-1][1]["modification_number"] != n:
            return False
    return True
main(demo())
'''),
 dict(id="c26-lost-update", property="C26",
  needs="an event that was cancelled while the VEN was asking for its events",
  breaks="an event that is cancelled before the VEN polled it is taken off the queue, and the VEN that synchronised before never hears of it",
  edits=[("openleadr/server.py", "        utils.increment_event_modification_number(event)\n        self.events_updated[ven_id] = True\n",
          "        utils.increment_event_modification_number(event)\n        if self.events_updated.get(ven_id):\n            # The VEN has not seen this event yet\n            utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)\n            return\n        self.events_updated[ven_id] = True\n")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    add = lambda i: server.add_event("ven1", "SIMPLE", "level", [{"dtstart": now() + timedelta(hours=1), "duration": timedelta(hours=1), "signal_payload": 1}],
                               callback=cb, event_id=i)
    add("e1")
    async with Vtn(server) as vtn:
        t, p = await vtn.send("EiEvent", "oadrRequestEvent", ven_id="ven1", request_id="rq")
        if [e["event_descriptor"]["event_id"] for e in p["events"]] != ["e1"]:
            return False
        server.cancel_event("ven1", "e1")
        t, p = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        return [(e["event_descriptor"]["event_id"], e["event_descriptor"]["event_status"]) for e in p.get("events", [])] == [("e1", "cancelled")]
main(demo())
'''),
 dict(id="c27-forget-callbacks", property="C27",
  needs="a VEN that registers its reports again while its earlier reports are still being sent",
  breaks="the values that the VEN reports under its earlier requests no longer reach the application",
  edits=[("openleadr/service/report_service.py", "        # Form the report request\n        oadr_report_requests = []\n",
          "        # Form the report request\n        for earlier in self.requested_reports.get(payload.get('ven_id'), []):\n            for point in earlier.report_specifier.specifier_payloads:\n                self.report_callbacks.pop((earlier.report_request_id, point.r_id), None)\n        oadr_report_requests = []\n"),
         ("openleadr/service/report_service.py", "        for i, report_request in enumerate(report_requests):\n            if report_request is None or len(report_request) == 0:\n                continue\n",
          "        for i, report_request in enumerate(report_requests):\n            if not report_request:\n                continue\n"),
         ("openleadr/service/report_service.py", "        response_type = 'oadrRegisteredReport'\n        response_payload = {'report_requests': oadr_report_requests}\n",
          "        response_payload = {'report_requests': oadr_report_requests}\n        response_type = 'oadrRegisteredReport'\n")],
  demo='''
from lib import *
from dataclasses import asdict

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    got = []
    server.add_handler("on_register_report", lambda ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval:
                       (got.extend, min_sampling_interval))
    c = make_client()
    c.add_report(lambda: 1.0, "res", "voltage", report_specifier_id="spec", r_id="a", sampling_rate=timedelta(seconds=10))
    async with Vtn(server) as vtn:
        async def register():
            t, p = await vtn.send("EiReport", "oadrRegisterReport", ven_id="ven1", request_id="rq", reports=[asdict(r) | {"report_request_id": 0} for r in c.reports])
            return p["report_requests"][0]["report_request_id"]
        rr = await register()
        again = await register()
        when = now().replace(microsecond=0)
        for i, r in enumerate((rr, again)):
            await vtn.send("EiReport", "oadrUpdateReport", ven_id="ven1", request_id="rq2", reports=[
                {"report_id": "x", "report_request_id": r, "report_specifier_id": "spec", "report_name": "TELEMETRY_USAGE",
                 "created_date_time": when, "dtstart": when, "intervals": [{"dtstart": when, "report_payload": {"r_id": "a", "value": float(i)}}]}])
    return got == [(when, 0.0), (when, 1.0)]
main(demo())
'''),
 dict(id="c06-zero-confidence", property="C06",
  needs="a reported value whose confidence or accuracy is 0",
  breaks="a confidence of 0 is left out of the message, so the receiver takes the value as fully trusted",
  edits=[("openleadr/templates/oadrUpdateReport.xml", "{% if interval.report_payload.confidence is defined and interval.report_payload.confidence is not none %}", "{% if interval.report_payload.confidence %}")],
  demo='''
from lib import *

async def demo():
    when = now().replace(microsecond=0)
    for value in (0, 50, 100):
        t, p = parse_message(create_message("oadrUpdateReport", ven_id="ven1", request_id="rq2", reports=[
            {"report_id": "x", "report_request_id": "rr", "report_specifier_id": "spec", "report_name": "TELEMETRY_USAGE", "created_date_time": when,
             "dtstart": when, "intervals": [{"dtstart": when, "report_payload": {"r_id": "a", "value": 1.0, "confidence": value, "accuracy": value}}]}]))
        payload = p["reports"][0]["intervals"][0]["report_payload"]
        if (payload.get("confidence"), payload.get("accuracy")) != (value, value):
            return False
    return True
main(demo())
'''),
]
