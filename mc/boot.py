"""
Take ownership of every source of nondeterminism before the code under test is imported:
the clock, uuids, HTTP sessions. Then import openleadr from /repo's working tree.
"""
import datetime as _dtmod
import itertools
import logging
import os
import sys
import time as _time
import uuid as _uuid
import warnings

warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")

real_datetime = _dtmod.datetime
real_time = _time.time
real_monotonic = _time.monotonic
UTC = _dtmod.timezone.utc
timedelta = _dtmod.timedelta
T0 = real_datetime(2030, 3, 4, 12, 0, 0, tzinfo=UTC)   # an arbitrary Monday noon


class Clock:
    """The virtual clock: an aware UTC datetime that moves only when told to."""
    def __init__(self):
        self.us = 0                       # microseconds since T0

    def reset(self, start=None):
        self.us = 0 if start is None else int((start - T0) / timedelta(microseconds=1))

    def now(self):
        return T0 + timedelta(microseconds=self.us)

    def advance(self, delta):
        if not isinstance(delta, timedelta):
            delta = timedelta(seconds=delta)
        self.us += int(delta / timedelta(microseconds=1))

    def seconds(self):
        return self.us / 1e6


CLOCK = Clock()


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real_datetime)


class VirtualDatetime(real_datetime, metaclass=_Meta):
    @classmethod
    def _conv(cls, d):
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)

    @classmethod
    def now(cls, tz=None):
        d = CLOCK.now()
        if tz is None:
            d = d.astimezone().replace(tzinfo=None)
        else:
            d = d.astimezone(tz)
        return cls._conv(d)

    @classmethod
    def utcnow(cls):
        return cls._conv(CLOCK.now().replace(tzinfo=None))

    @classmethod
    def today(cls):
        return cls.now()


VirtualDatetime.__name__ = VirtualDatetime.__qualname__ = "datetime"


class Ids:
    def __init__(self):
        self.counter = itertools.count(1)

    def reset(self):
        self.counter = itertools.count(1)

    def uuid4(self):
        n = next(self.counter)
        # spread over the id space, deterministic, never purely numeric-looking
        return _uuid.UUID(int=(0xabc0 << 112) | (0x4 << 76) | (0x8 << 60) | n, version=4)


IDS = Ids()

_installed = False


OWNERS = []       # (client, transport) of this execution: a session belongs to the client that holds it


class FakeConnector:
    """Stands in for aiohttp.TCPConnector: remembers the TLS settings."""

    def __init__(self, *args, ssl=True, ssl_context=None, verify_ssl=True, **kwargs):
        self.ssl = ssl_context if ssl_context is not None else (ssl if verify_ssl else False)
        self.closed = False

    async def close(self):
        self.closed = True


class Hang(Exception):
    """The transport's way to say that there is no answer: not to the connection attempt ('connect'), not to the request ('read')"""

    def __init__(self, phase):
        super().__init__(phase)
        self.phase = phase

    async def endure(self, timeout):
        """what a real session does: it gives up after its time-out, if there is one (waiting takes no time here)"""
        import aiohttp
        which = ("total", "connect", "sock_connect") if self.phase == "connect" else ("total", "sock_read")
        limits = [getattr(timeout, x) for x in which] if hasattr(timeout, "total") else [timeout]
        limits = [x for x in limits if x]
        if not limits or min(limits) > 3600:
            import asyncio
            await asyncio.get_running_loop().create_future()
        raise aiohttp.ServerTimeoutError(f"Timeout during {self.phase}")


class FakeSession:
    """Stands in for aiohttp.ClientSession; every POST is answered by the transport of the client that holds the session:
    async callable(session, url, data, headers) -> (status, bytes); may raise"""

    def __init__(self, *args, connector=None, transport=None, **kwargs):
        self.headers = dict(kwargs.get("headers") or {})
        self.closed = False
        self.ssl = getattr(connector, "ssl", True)
        self.timeout = kwargs.get("timeout") or _default_timeout()
        self._transport = transport

    @property
    def transport(self):
        if self._transport is not None:
            return self._transport
        for client, transport in OWNERS:
            if getattr(client, "client_session", None) is self:
                return transport
        return OWNERS[0][1] if len(OWNERS) == 1 else None

    def post(self, url, data=None, headers=None, ssl=None, timeout=None, **kw):
        h = dict(self.headers)
        h.update(headers or {})
        if not any(k.lower() == "content-type" for k in h):
            h["content-type"] = "text/plain; charset=utf-8" if isinstance(data, str) else "application/octet-stream"
        if ssl is not None:
            self.ssl = ssl
        return _PostContext(self, str(url), data, h, timeout or self.timeout)

    def request(self, method, url, data=None, headers=None, **kw):
        assert method.upper() == "POST", method
        return self.post(url, data=data, headers=headers)

    async def close(self):
        self.closed = True


def _default_timeout():
    import aiohttp
    return aiohttp.ClientTimeout(total=300, sock_connect=30)


class _PostContext:
    def __init__(self, session, url, data, headers, timeout):
        self.args = (session, url, data, headers)
        self.timeout = timeout

    async def _go(self):
        session, url, data, headers = self.args
        if session.closed:
            raise RuntimeError("Session is closed")
        if session.transport is None:
            import aiohttp
            raise aiohttp.ClientConnectionError("no transport")
        try:
            r = await session.transport(session, url, data, headers)
        except Hang as h:
            await h.endure(self.timeout)
        r = r if isinstance(r, FakeResponse) else FakeResponse(*r)
        r._timeout = self.timeout
        return r

    async def __aenter__(self):
        return await self._go()

    async def __aexit__(self, *exc):
        return False

    def __await__(self):
        return self._go().__await__()


class FakeResponse:
    def __init__(self, status, body, headers=None, read_error=None):
        self.status = status
        self.ok = status < 400
        self.reason = str(status)
        self.headers = headers or {"Content-Type": "application/xml; charset=utf-8"}
        self._body = body if isinstance(body, bytes) else str(body).encode("utf-8")
        self._read_error = read_error

    async def read(self):
        if isinstance(self._read_error, Hang):
            await self._read_error.endure(self._timeout)
        if self._read_error:
            raise self._read_error
        return self._body

    async def text(self, encoding="utf-8", errors="strict"):
        return (await self.read()).decode(encoding, errors)

    def release(self):
        pass


def _cache_keys():
    """Loading a private key checks it, which takes longer than all the rest: do it once per key (a pure function)."""
    import functools
    from cryptography.hazmat.primitives import serialization
    import signxml.signer
    cached = functools.lru_cache(None)(serialization.load_pem_private_key)

    def load_pem_private_key(data, password, backend=None, **kw):
        if kw or type(data) is not bytes:
            return cached.__wrapped__(data, password, backend, **kw)
        return cached(data, password, backend)
    for m in (serialization, signxml.signer):
        if hasattr(m, "load_pem_private_key"):
            m.load_pem_private_key = load_pem_private_key


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import signxml  # noqa: F401  (third-party modules that must keep the real clock: certificate handling)
    import cryptography.x509  # noqa: F401
    import aiohttp
    import aiohttp.web  # noqa: F401
    import multiprocessing  # noqa: F401
    import concurrent.futures  # noqa: F401
    _dtmod.datetime = VirtualDatetime
    _time.time = lambda: CLOCK.now().timestamp()
    _uuid.uuid4 = IDS.uuid4
    aiohttp.ClientSession = FakeSession
    aiohttp.TCPConnector = FakeConnector
    _cache_keys()
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    import openleadr
    where = os.path.realpath(os.path.dirname(openleadr.__file__))
    if where != os.path.realpath(os.path.join(REPO, "openleadr")):
        raise SystemExit(f"openleadr imported from {where}, not from {REPO}")
    logging.getLogger().setLevel(logging.CRITICAL + 10)
    lg = logging.getLogger("openleadr")
    lg.setLevel(logging.CRITICAL + 10)
    lg.addHandler(logging.NullHandler())
    lg.propagate = False
    logging.raiseExceptions = False
    logging.getLogger("apscheduler").setLevel(logging.CRITICAL + 10)
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 10)


_pristine = []        # (container, saved content) of every module-level mutable of the code under test


def _snapshot_modules():
    """Remember module-level containers and the shared Measurement objects, so that no execution sees another's."""
    import copy
    import dataclasses
    for name, mod in sorted(sys.modules.items()):
        if name != "openleadr" and not name.startswith("openleadr."):
            continue
        for attr, val in sorted(vars(mod).items()):
            if attr.startswith("__"):
                continue
            if type(val) in (set, dict, list):
                _pristine.append((val, copy.copy(val) if attr != "HOOKS" else copy.deepcopy(val)))
            elif isinstance(val, type) and name == "openleadr.enums":
                for a, x in sorted(vars(val).items()):
                    if dataclasses.is_dataclass(x) and not isinstance(x, type):
                        _pristine.append((vars(x), copy.deepcopy(vars(x))))
            elif isinstance(val, type) and val.__module__ == name:
                for a, x in sorted(vars(val).items()):
                    if type(x) in (set, dict, list) and not a.startswith("__"):
                        _pristine.append((x, copy.copy(x)))


def reset_world(start=None):
    """Fresh clock, id sequence and module state for one execution."""
    CLOCK.reset(start)
    IDS.reset()
    OWNERS.clear()
    if not _pristine:
        _snapshot_modules()
    for cont, saved in _pristine:
        if cont != saved:
            cont.clear()
            if isinstance(cont, dict):      # HOOKS holds lists
                cont.update({k: list(x) if type(x) is list else x for k, x in saved.items()})
            else:
                (cont.extend if isinstance(cont, list) else cont.update)(saved)
