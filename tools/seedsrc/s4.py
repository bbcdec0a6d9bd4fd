PKI = '''
import datetime as _dt, ipaddress, ssl, tempfile
from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.x509.oid import NameOID
from openleadr.utils import certificate_fingerprint


def issue(cn, ca=None, is_ca=False):
    """-> (certificate, key); signed by ca or by itself"""
    key = rsa.generate_private_key(public_exponent=65537, key_size=2048)
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])
    issuer, signer = (ca[0].subject, ca[1]) if ca else (name, key)
    cert = (x509.CertificateBuilder().subject_name(name).issuer_name(issuer).public_key(key.public_key()).serial_number(x509.random_serial_number())
            .not_valid_before(_dt.datetime(2020, 1, 1)).not_valid_after(_dt.datetime(2099, 1, 1))
            .add_extension(x509.BasicConstraints(ca=is_ca, path_length=None), critical=True)
            .add_extension(x509.SubjectAlternativeName([x509.DNSName("localhost"), x509.IPAddress(ipaddress.ip_address("127.0.0.1"))]), critical=False)
            .sign(signer, hashes.SHA256()))
    return cert, key


def pem(pair):
    return (pair[0].public_bytes(serialization.Encoding.PEM),
            pair[1].private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.TraditionalOpenSSL, serialization.NoEncryption()))


class Files:
    """a scratch folder with a CA, and certificates that it issued"""
    def __enter__(self):
        self.dir = tempfile.TemporaryDirectory()
        self.ca = issue("CA", is_ca=True)
        self.write("ca.crt", pem(self.ca)[0])
        return self

    def __exit__(self, *a):
        self.dir.cleanup()

    def write(self, name, data):
        with open(os.path.join(self.dir.name, name), "wb") as f:
            f.write(data)
        return self.path(name)

    def path(self, name):
        return os.path.join(self.dir.name, name)

    def party(self, name):
        cert, key = pem(issue(name, self.ca))
        self.write(name + ".crt", cert), self.write(name + ".key", key)
        return cert, key

    def client(self, name=None):
        """the TLS settings of a client that shows this certificate"""
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.load_verify_locations(self.path("ca.crt"))
        if name:
            c.load_cert_chain(self.path(name + ".crt"), self.path(name + ".key"))
        return c
'''

SEEDS = [
 dict(id="c03-low-sentinel", property="C03",
  needs="an active event with a priority above 1000 next to an active event without a priority that started earlier",
  breaks="the event without a priority comes before one that has a (low) priority",
  edits=[("openleadr/utils.py", "            priority = float('inf')\n", "            priority = 1000\n")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    t = now().replace(microsecond=0)
    for eid, priority, start in (("none", 0, t - timedelta(minutes=20)), ("low", 4000, t - timedelta(minutes=10)), ("high", 2, t - timedelta(minutes=5))):
        server.add_raw_event("ven1", {"event_descriptor": {"event_id": eid, "modification_number": 0, "market_context": "http://m", "priority": priority,
                                                           "event_status": "far", "created_date_time": t},
                                      "active_period": {"dtstart": start, "duration": timedelta(hours=1)},
                                      "event_signals": [{"signal_name": "SIMPLE", "signal_type": "level", "signal_id": "s",
                                                         "intervals": [{"dtstart": start, "duration": timedelta(hours=1), "signal_payload": 1}]}],
                                      "targets": [{"ven_id": "ven1"}], "response_required": "always"},
                             callback=lambda ven_id, event_id, opt_type: None)
    async with Vtn(server) as vtn:
        t, p = await vtn.send("EiEvent", "oadrRequestEvent", request_id="rq", ven_id="ven1")
    return [e["event_descriptor"]["event_id"] for e in p["events"]] == ["high", "low", "none"]
main(demo())
'''),
 dict(id="c25-last-interval", property="C25",
  needs="an event whose intervals are not given in the order of time",
  breaks="the event counts as completed while its last interval is still running",
  edits=[("openleadr/utils.py", "    period_duration = max([i['dtstart'] + i['duration'] - period_start for i in intervals])",
          "    period_duration = intervals[-1]['dtstart'] + intervals[-1]['duration'] - period_start")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    t = now().replace(microsecond=0) - timedelta(minutes=12)
    ten = timedelta(minutes=10)
    server.add_event("ven1", "ENERGY_PRICE", "price", [{"dtstart": t + ten, "duration": ten, "signal_payload": 2}, {"dtstart": t, "duration": ten, "signal_payload": 1}],
                     callback=lambda ven_id, event_id, opt_type: None, event_id="e1")
    seen = []
    async with Vtn(server) as vtn:
        for i in range(2):
            _, p = await vtn.send("EiEvent", "oadrRequestEvent", request_id="rq", ven_id="ven1")
            seen.append([e["event_descriptor"]["event_status"] for e in p.get("events", [])])
    return seen == [["active"], ["active"]]
main(demo())
'''),
 dict(id="c09-bounded-memory", property="C09",
  needs="more than 250 other signed messages within the five seconds in which a message may be replayed",
  breaks="the VTN forgets the oldest messages it accepted while they are still fresh, and accepts them again",
  edits=[("openleadr/messaging.py", "        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n            NONCE_CACHE.remove(",
          "        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA \\\n                or len(NONCE_CACHE) > 250 and (timestamp, nonce) == min(NONCE_CACHE):\n            NONCE_CACHE.remove(")],
  demo='''
from lib import *
''' + PKI + '''
from openleadr import messaging
from openleadr.messaging import validate_xml_schema, validate_xml_signature

async def demo():
    cert, key = pem(issue("ven1"))
    real = messaging.datetime

    class Still(real):
        """the clock stands still, so that it does not matter how fast this machine is"""
        @classmethod
        def now(cls, tz=None):
            return moment.astimezone(tz) if tz else moment.replace(tzinfo=None)
    moment = real.now(timezone.utc)
    messaging.datetime = Still

    def accepted(m):
        try:
            validate_xml_signature(validate_xml_schema(m))
            return True
        except ValueError:
            return False
    first = create_message("oadrPoll", cert=cert, key=key, ven_id="ven1")
    if not accepted(first):
        return False
    # the timestamp of the message is that of the moment or of the real clock, whichever the library uses
    for i in range(300):
        moment += timedelta(milliseconds=3)
        if not accepted(create_message("oadrPoll", cert=cert, key=key, ven_id="ven1")):
            return False
    return not accepted(first)
main(demo())
'''),
 dict(id="c10-open-connection", property="C10",
  needs="a VEN that polls and then, over the connection it keeps open, sends a message in the name of another VEN",
  breaks="after a poll that was in order, messages on the same connection are not authenticated any more",
  edits=[("openleadr/service/vtn_service.py", "            if request.secure and 'ven_id' in message_payload:\n                if hasattr",
          "            if request.secure and 'ven_id' in message_payload and request.transport not in self.trusted:\n                if hasattr"),
         ("openleadr/service/vtn_service.py", "            # Pass the message off to the handler and get the response type and payload\n            try:",
          "            # Polls are frequent, don't authenticate the VEN anew every time\n            if request.secure and message_type == 'oadrPoll':\n                self.trusted.add(request.transport)\n\n            # Pass the message off to the handler and get the response type and payload\n            try:"),
         ("openleadr/service/vtn_service.py", "    verify_message_signatures = True\n", "    verify_message_signatures = True\n    trusted = weakref.WeakSet()\n"),
         ("openleadr/service/vtn_service.py", "import traceback\n", "import traceback\nimport weakref\n")],
  demo='''
from lib import *
''' + PKI + '''

async def demo():
    with Files() as f:
        f.party("vtn")
        keys = {v: f.party(v) for v in ("ven1", "ven2")}
        vens = {v: {"ven_id": v, "registration_id": "reg_" + v, "fingerprint": certificate_fingerprint(c)} for v, (c, _) in keys.items()}
        server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False, ven_lookup=lambda ven_id: vens.get(ven_id), http_cert=f.path("vtn.crt"),
                               http_key=f.path("vtn.key"), http_ca_file=f.path("ca.crt"))
        ts = TestServer(server.app, scheme="https")
        await ts.start_server(ssl=server.ssl_context)
        url = f"https://127.0.0.1:{ts.port}{PREFIX}"
        got = []
        async with aiohttp.ClientSession(connector=aiohttp.TCPConnector(ssl=f.client("ven2"), limit=1)) as session:
            for endpoint, kind, who, extra in (("OadrPoll", "oadrPoll", "ven2", {}),
                                               ("EiRegisterParty", "oadrCancelPartyRegistration", "ven1", {"request_id": "rq", "registration_id": "reg_ven1"})):
                c, k = keys["ven2"]
                async with session.post(f"{url}/{endpoint}", data=create_message(kind, cert=c, key=k, ven_id=who, **extra), headers={"content-type": "application/xml"}) as r:
                    t, p = parse_message(await r.read())
                    got.append(p["response"]["response_code"])
        await ts.close()
    return got == [200, 463]
main(demo())
'''),
 dict(id="c24-first-hundred", property="C24",
  needs="more than 100 events in the VEN's memory",
  breaks="the clean-up only looks at the first hundred events, so finished events behind them are kept",
  edits=[("openleadr/client.py", "for i in range(len(self.received_events)-1, -1, -1):", "for i in range(min(len(self.received_events), 100)-1, -1, -1):")],
  demo='''
from lib import *

async def demo():
    t = now().replace(microsecond=0)
    c = make_client()
    c.add_handler("on_event", lambda event: "optIn")
    events = []
    for i in range(102):
        start = t - timedelta(minutes=30) if i == 101 else t + timedelta(minutes=30)
        events.append({"event_descriptor": {"event_id": f"e{i}", "modification_number": 0, "event_status": "far"},
                       "active_period": {"dtstart": start, "duration": timedelta(minutes=10), "ramp_up_period": None},
                       "event_signals": [{"signal_name": "SIMPLE"}], "response_required": "never"})
    await c._on_event({"vtn_id": "TheVTN", "request_id": "rq", "events": events})
    await c._event_cleanup()
    return [e["event_descriptor"]["event_id"] for e in c.received_events] == [f"e{i}" for i in range(101)]
main(demo())
'''),
 dict(id="c23-same-object", property="C23",
  needs="a poll handler that returns the same list object for two polls of a VEN (the list being changed in between)",
  breaks="a result that the handler already returned to this VEN is taken for delivered, and the poll is answered with nothing",
  edits=[("openleadr/service/poll_service.py", "        if result is None:\n            return 'oadrResponse', {}\n        if isinstance(result, tuple):",
          "        if result is None or result is self.last_results.get(payload['ven_id']):\n            return 'oadrResponse', {}\n        self.last_results[payload['ven_id']] = result\n        if isinstance(result, tuple):"),
         ("openleadr/service/poll_service.py", "        self.report_requests = {}\n", "        self.report_requests = {}\n        self.last_results = {}\n")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    t = now().replace(microsecond=0) + timedelta(minutes=10)
    mine = []

    def event(eid):
        return {"event_descriptor": {"event_id": eid, "modification_number": 0, "market_context": "http://m", "event_status": "far", "created_date_time": now()},
                "active_period": {"dtstart": t, "duration": timedelta(minutes=10)},
                "event_signals": [{"signal_name": "SIMPLE", "signal_type": "level", "signal_id": "s",
                                   "intervals": [{"dtstart": t, "duration": timedelta(minutes=10), "signal_payload": 1}]}],
                "targets": [{"ven_id": "ven1"}], "response_required": "always"}
    server.add_handler("on_poll", lambda ven_id: mine)
    seen = []
    async with Vtn(server) as vtn:
        for eid in ("e1", "e2"):
            mine.append(event(eid))
            _, p = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
            seen.append([e["event_descriptor"]["event_id"] for e in p.get("events", [])])
    return seen == [["e1"], ["e1", "e2"]]
main(demo())
'''),
 dict(id="c28-optional-certificate", property="C28",
  needs="a client that connects to the VTN over TLS without a certificate of its own",
  breaks="the VTN talks to clients that show no certificate",
  edits=[("openleadr/server.py", "            self.ssl_context.verify_mode = ssl.CERT_REQUIRED\n", "            self.ssl_context.verify_mode = ssl.CERT_OPTIONAL\n")],
  demo='''
from lib import *
''' + PKI + '''

async def demo():
    with Files() as f:
        f.party("vtn"), f.party("ven1")
        server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False, http_cert=f.path("vtn.crt"), http_key=f.path("vtn.key"), http_ca_file=f.path("ca.crt"))
        ts = TestServer(server.app, scheme="https")
        await ts.start_server(ssl=server.ssl_context)
        got = []
        for name in ("ven1", None):
            try:
                async with aiohttp.ClientSession(connector=aiohttp.TCPConnector(ssl=f.client(name))) as session:
                    async with session.post(f"https://127.0.0.1:{ts.port}{PREFIX}/EiRegisterParty", data=create_message("oadrQueryRegistration", request_id="rq"),
                                            headers={"content-type": "application/xml"}) as r:
                        await r.read()
                        got.append("answered")
            except (aiohttp.ClientError, OSError, ssl.SSLError):
                got.append("refused")
        await ts.close()
    return got == ["answered", "refused"]
main(demo())
'''),
 dict(id="c29-failing-hook", property="C29",
  needs="two functions hooked to the same point of a VEN, the first of which raises an exception",
  breaks="a function that fails keeps the functions hooked after it from being called",
  edits=[("openleadr/client.py", """        for hook in self.hooks[hook_name]:
            try:
                await utils.await_if_required(hook(*args, **kwargs))
            except Exception as err:
                logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                             f"{err.__class__.__name__}: {err}")
""", """        hook = None
        try:
            for hook in self.hooks[hook_name]:
                await utils.await_if_required(hook(*args, **kwargs))
        except Exception as err:
            logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                         f"{err.__class__.__name__}: {err}")
""")],
  demo='''
from lib import *

async def demo():
    seen = []
    def fails(message):
        seen.append("first")
        raise ValueError("this one fails")
    async def second(message):
        seen.append("second")
    def third(message):
        seen.append("third")
    c = make_client(lambda s, t, p: ok())
    for hook in (second, fails, third, second):
        c.add_hook("before_parse_xml", hook)
    await c.poll()
    return seen == ["second", "first", "third", "second"]
main(demo())
'''),
]
