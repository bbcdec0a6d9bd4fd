"""In-memory access to a real OpenADRServer: requests go to the aiohttp application it built, without sockets."""
import asyncio
import weakref

from multidict import CIMultiDict, CIMultiDictProxy
from aiohttp import web
from aiohttp.http_parser import RawRequestMessage
from aiohttp.http_writer import HttpVersion11
from yarl import URL

from . import wire

PREFIX = "/OpenADR2/Simple/2.0b"
ENDPOINT = {"oadrPoll": "OadrPoll", "oadrRequestEvent": "EiEvent", "oadrCreatedEvent": "EiEvent",
            "oadrQueryRegistration": "EiRegisterParty", "oadrCreatePartyRegistration": "EiRegisterParty",
            "oadrCancelPartyRegistration": "EiRegisterParty", "oadrCanceledPartyRegistration": "EiRegisterParty",
            "oadrRegisterReport": "EiReport", "oadrUpdateReport": "EiReport", "oadrCreatedReport": "EiReport",
            "oadrRegisteredReport": "EiReport", "oadrCanceledReport": "EiReport", "oadrResponse": "EiReport"}


class _SSL:
    def __init__(self, der):
        self.der = der

    def getpeercert(self, binary_form=False):
        return self.der if binary_form else ({} if self.der else None)


class _Transport:
    def __init__(self, secure, der):
        self.secure, self.der = secure, der

    def get_extra_info(self, name, default=None):
        if name == "sslcontext":
            return object() if self.secure else default
        if name == "ssl_object":
            return _SSL(self.der) if self.secure else default
        if name == "peername":
            return ("127.0.0.1", 50000)
        return default

    def is_closing(self):
        return False


class _Protocol:
    def __init__(self, transport):
        self.transport = transport
        self.ssl_context = object() if transport.secure else None
        self.sockname = ("127.0.0.1", 8080)
        self.peername = ("127.0.0.1", 50000)
        self.writer = None


class _Payload:
    def __init__(self, data):
        self.data = data
        self.total_bytes = len(data)

    def set_read_chunk_size(self, n):
        pass

    async def readany(self):
        d, self.data = self.data, b""
        return d

    async def read(self, n=-1):
        return await self.readany()

    async def readchunk(self):
        return await self.readany(), True

    def at_eof(self):
        return not self.data

    def is_eof(self):
        return not self.data


_LINES = weakref.WeakKeyDictionary()


def line(app, secure, der):
    """the connection of the client that shows this certificate: it is kept open between requests"""
    lines = _LINES.setdefault(app, {})
    if (secure, der) not in lines:
        lines[secure, der] = _Protocol(_Transport(secure, der))
    return lines[secure, der]


def make_request(app, path, body, content_type="application/xml", secure=False, der=None, method="POST"):
    if isinstance(body, str):
        body = body.encode("utf-8")
    headers = CIMultiDict({"Host": "vtn", "Content-Length": str(len(body))})
    if content_type is not None:
        headers["Content-Type"] = content_type
    raw = tuple((k.encode(), v.encode()) for k, v in headers.items())
    msg = RawRequestMessage(method, path, HttpVersion11, CIMultiDictProxy(headers), raw, False, None, False, False,
                            URL(path))
    req = web.Request(msg, _Payload(body), line(app, secure, der), None, None, asyncio.get_event_loop(), client_max_size=1 << 24)
    req._match_info = None
    return req


class Reply:
    def __init__(self, status, body, headers):
        self.status, self.body, self.headers = status, body, headers
        self._parsed = None

    def parsed(self):
        if self._parsed is None:
            self._parsed = wire.read(self.body)
        return self._parsed

    @property
    def type(self):
        return self.parsed()[0]

    @property
    def node(self):
        return self.parsed()[1]

    @property
    def schema_error(self):
        return self.parsed()[2]

    def events(self):
        return wire.read_events(self.node)

    def resp(self):
        return wire.resp(self.node)

    def summary(self):
        if self.status != 200:
            return ("http", self.status)
        if not self.body:
            return ("empty",)
        return (self.type, self.resp())


async def send(server, xml, endpoint=None, **kw):
    """Deliver one request to the server and return its Reply."""
    if endpoint is None:
        endpoint = ENDPOINT[msg_type(xml)]
    prefix = kw.pop("prefix", PREFIX)
    req = make_request(server.app, f"{prefix}/{endpoint}", xml, **kw)
    if not server.app.frozen:
        server.app.freeze()
    resp = await server.app._handle(req)
    body = resp.body
    if body is None:
        body = b""
    elif not isinstance(body, (bytes, bytearray)):
        body = bytes(body._value) if hasattr(body, "_value") else bytes(body)
    return Reply(resp.status, bytes(body), resp.headers)


def msg_type(xml):
    import re
    if isinstance(xml, bytes):
        xml = xml.decode("utf-8", "replace")
    m = re.search(r"<(?:\w+:)?oadrSignedObject[^>]*>\s*<(?:\w+:)?(\w+)", xml)
    return m.group(1)


def make_server(vtn_id="TheVTN", **kw):
    from openleadr import OpenADRServer
    kw.setdefault("show_fingerprint", False)
    return OpenADRServer(vtn_id=vtn_id, **kw)
