"""C28: over TLS, only parties that can prove who they are can talk (real handshakes between the settings of a real VTN and a real VEN)."""
import contextlib
import functools
import hashlib
import io
import itertools
import os
import re
import ssl
import sys
import warnings
from datetime import timedelta

from .. import boot, wire, vtn
from ..core import Outcome, Product
from ..vloop import World
from ..ven import Net, make_client, periodic

LEVEL = "model_checking"
ASSUMPTIONS = ["OpenSSL is right about certificates; it uses the real date, so the certificates are valid from 2020 to 2120, or 2001, or from 2110",
               "a VTN has all of its TLS settings (certificate, key and CA file) or none; a VEN has a certificate and its key, or neither",
               "a VEN without a certificate and a CA file has the TLS defaults of aiohttp (the CAs of the system, host names are checked)",
               "a certificate without alternative names is for the host in its common name (as Python has it)",
               "the connection is not tampered with"]
S = timedelta(seconds=1)
PKI = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pki")


def path(name):
    return os.path.join(PKI, name)


@functools.lru_cache(None)
def fingerprint(crt):
    """of the first certificate in the file"""
    text = open(path(crt)).read().split("-----END")[0] + "-----END CERTIFICATE-----\n"
    h = hashlib.sha256(ssl.PEM_cert_to_DER_cert(text)).hexdigest().upper()
    return ":".join(h[i:i + 2] for i in range(44, 64, 2))


# which certificates the holder of these CAs may accept (the purpose being right)
ISSUER = {"ca1": "ca1", "chain0": "ca1", "chain1": "ca1", "chain2": "ca1", "ca2": "ca2", "other": "ca1", "wild": "ca1", "cn": "ca1"}
NAMES = {"other": ["other.example"], "wild": ["vtn.example.org", "any.example.org"], "cn": ["vtn.example.org"]}


def accepted(crt, cas):
    return ISSUER.get(crt) in {"ca1": ["ca1"], "ca2": ["ca2"], "both": ["ca1", "ca2"], "none": []}[cas]


def named(crt, host):
    return host in NAMES.get(crt, ["localhost", "vtn.example.org", "127.0.0.1"])


# -- the connection -----------------------------------------------------------------------------------------------------------------------

class Closed(Exception):
    """the peer gave up"""


class Connection:
    """Two ends of a TLS connection, joined in memory."""

    def __init__(self, client_ctx, server_ctx, host):
        self.c_in, self.c_out = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.client = client_ctx.wrap_bio(self.c_in, self.c_out, server_hostname=host)
        self.s_in, self.s_out = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.server = server_ctx.wrap_bio(self.s_in, self.s_out, server_side=True)
        self.errors = {}

    def pump(self):
        a, b = self.c_out.read(), self.s_out.read()
        self.s_in.write(a)
        self.c_in.write(b)
        return bool(a or b)

    def step(self, who, f):
        """-> result or None"""
        if who in self.errors:
            return None
        try:
            return f()
        except (ssl.SSLWantReadError, ssl.SSLWantWriteError):
            return None
        except ssl.SSLError as e:
            self.errors[who] = e
            return None

    def handshake(self):
        done = {}
        for _ in range(20):
            for who, end in (("client", self.client), ("server", self.server)):
                if who not in done and who not in self.errors:
                    def go(end=end):
                        end.do_handshake()
                        return True
                    if self.step(who, go):
                        done[who] = True
            if not self.pump():
                break
        return done

    def transfer(self, sender, receiver, data):
        """-> what the receiver gets"""
        a, b = getattr(self, sender), getattr(self, receiver)
        got, off = b"", 0
        while True:
            if off < len(data):
                off += self.step(sender, lambda: a.write(data[off:off + 16384])) or 0
            moved = self.pump()
            part = self.step(receiver, lambda: b.read(65536))
            if part:
                got += part
            if sender in self.errors or receiver in self.errors or not moved and not part:
                return got


class Sim:
    def __init__(self, loop, case):
        self.loop, self.case, self.v = loop, case, []
        self.listening = []                  # (host, port, ssl) of every listening socket
        self.calls = []
        self.known = {}                      # ven_id -> registration
        self.requests = 0                    # requests that reached the VTN's application
        self.refused = []

    # the network

    async def create_server(self, factory, host=None, port=None, *, ssl=None, **kw):
        self.listening.append((host, port, ssl))

        class Server:
            sockets = ()

            def close(self):
                pass

            async def wait_closed(self):
                pass
        return Server()

    async def transport(self, net, rec):
        from yarl import URL
        from aiohttp import ClientConnectionError, ServerDisconnectedError
        url = URL(rec.url)
        host, port, server_ctx = self.listening[0]
        if url.port != port:
            raise ClientConnectionError(f"nothing listens at {url.port}")
        if (url.scheme == "https") != (server_ctx is not None):
            raise ServerDisconnectedError("one of us talks TLS, the other does not")
        endpoint, prefix = url.path.rsplit("/", 1)[1], url.path.rsplit("/", 1)[0]
        if server_ctx is None:
            self.requests += 1
            r = await vtn.send(self.server, rec.data, endpoint, content_type=rec.content_type, prefix=prefix)
            return (r.status, r.body)
        client_ctx = self.client.client_session.ssl
        if client_ctx is True:
            client_ctx = ssl.create_default_context()
        elif client_ctx is False:
            client_ctx = ssl.create_default_context()
            client_ctx.check_hostname = False
            client_ctx.verify_mode = ssl.CERT_NONE
        conn = Connection(client_ctx, server_ctx, url.host)
        done = conn.handshake()
        if "client" not in done:
            self.refused.append("client")
            raise ClientConnectionError(f"handshake: {conn.errors}")
        # The client is content and sends its request
        data = rec.data.encode() if isinstance(rec.data, str) else rec.data
        got = conn.transfer("client", "server", data)
        if "server" not in done and "server" not in conn.errors:
            raise AssertionError("the handshake did not end")
        if "server" in conn.errors or got != data:
            self.refused.append("server")
            raise ServerDisconnectedError(f"{conn.errors}")
        self.requests += 1
        r = await vtn.send(self.server, got, endpoint, content_type=rec.content_type, prefix=prefix, secure=True, der=conn.server.getpeercert(True))
        back = conn.transfer("server", "client", r.body)
        if back != r.body:
            raise ServerDisconnectedError(f"{conn.errors}")
        return (r.status, back)

    # the VTN

    def start_vtn(self, **kw):
        c = self.case
        self.loop.create_server = self.create_server
        self.server = s = vtn.make_server("TheVTN", ven_lookup=self.ven_lookup, http_host=c.get("listen", "127.0.0.1"), http_port=c.get("port", 8443), **kw)

        def on_create_party_registration(info):
            self.calls.append(("register", info.get("fingerprint")))
            if c.get("expect_fingerprint") and info.get("fingerprint") != c["expect_fingerprint"]:
                return False
            self.known["ven1"] = {"ven_id": "ven1", "ven_name": info["ven_name"], "registration_id": "reg1", "fingerprint": info.get("fingerprint")}
            return "ven1", "reg1"
        s.add_handler("on_create_party_registration", on_create_party_registration)

        def on_poll(ven_id):
            self.calls.append(("poll", ven_id))
            if c.get("again") == "vtn" and len(self.calls) == 2:       # at the first poll
                return "oadrRequestReregistration", {"ven_id": ven_id}
        s.add_handler("on_poll", on_poll)
        self.loop.run(s.run())
        if len(self.listening) != 1 or self.listening[0][:2] != (c.get("listen", "127.0.0.1"), c.get("port", 8443)):
            self.v.append(("listening", f"the VTN listens at {[x[:2] for x in self.listening]}"))

    def ven_lookup(self, ven_id):
        return self.known.get(ven_id)


def tls_case(case):
    """A VTN and a VEN with these settings; the VEN registers and polls."""
    v = []
    vtn_crt, ven_crt = case["vtn"], case["ven"]
    env = {}
    with World() as loop, warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as printed:
        warnings.simplefilter("ignore")
        sim = Sim(loop, case)
        try:
            # what the system trusts must not matter to those with a CA file
            env = {k: os.environ.get(k) for k in ("SSL_CERT_FILE", "SSL_CERT_DIR")}
            os.environ["SSL_CERT_FILE"] = path((case["ven_ca"].split("-")[1] if case["ven_ca"].startswith("system") else "both") + ".pem")
            os.environ["SSL_CERT_DIR"] = "/nonexistent"
            trust = case["ven_ca"].split("-")[-1]
            enc = case.get("encrypted", "")
            kw = dict(http_cert=path(f"vtn-{vtn_crt}.crt"), http_key=path("vtn-enc.key" if "vtn" in enc else "vtn.key"), http_ca_file=path(case["vtn_ca"] + ".pem"),
                      http_key_passphrase="geheim" if "vtn" in enc else None)
            if case.get("sign", True) and ven_crt:
                kw.update(verify_message_signatures=True)
            else:
                kw.update(verify_message_signatures=False)
            if case.get("vtn_signs"):
                kw.update(cert=path(f"vtn-{vtn_crt}.crt"), key=kw["http_key"], passphrase=kw["http_key_passphrase"], show_fingerprint=True)
            sim.start_vtn(**kw)
            if sim.listening[0][2] is None:
                v.append(("plain", "a VTN with a certificate serves plain HTTP"))
            ckw = {}
            if ven_crt:
                ckw.update(cert=path(f"ven-{ven_crt}.crt"), key=path("ven-enc.key" if "ven" in enc else "ven.key"), passphrase="geheim" if "ven" in enc else None,
                           disable_signature=not case.get("sign", True), show_fingerprint=True)
            if not case["ven_ca"].startswith("system"):
                ckw.update(ca_file=path(case["ven_ca"] + ".pem"))
            if case.get("vtn_signs"):
                ckw.update(vtn_fingerprint=fingerprint(f"vtn-{vtn_crt}.crt"))
            if not case["check"]:
                ckw.update(check_hostname=False)
            sim.client = make_client(Net(sim.transport), ven_id=case.get("ven_id"), vtn_url=f"https://{case['host']}:{case.get('port', 8443)}{vtn.PREFIX}", **ckw)

            shown = re.findall(r"Your (\w+) Certificate Fingerprint is\s+(\S+)", printed.getvalue())
            want = [(who, fingerprint(f"{who.lower()}-{crt}.crt")) for who, crt in (("VTN", vtn_crt if case.get("vtn_signs") else None), ("VEN", ven_crt)) if crt]
            if shown != want:
                v.append(("shown", f"{case}: the fingerprints shown are {shown} instead of {want}"))

            checks = case["check"] or not (ven_crt or not case["ven_ca"].startswith("system"))
            trusts = accepted(vtn_crt, trust) and (named(vtn_crt, case["host"]) or not checks)
            knows = ven_crt is not None and accepted(ven_crt, case["vtn_ca"])
            if case.get("ven_id"):         # the VTN knows the VEN that has an id already
                sim.known[case["ven_id"]] = {"ven_id": case["ven_id"], "ven_name": "ven1", "registration_id": "reg0", "fingerprint": fingerprint(f"ven-{ven_crt}.crt")}
            try:
                loop.run(sim.client.run())
                if sim.client.registration_id:
                    for j in periodic(sim.client, "poll"):
                        loop.run(j.fire())
                    if case.get("again"):
                        if case["again"] == "ven":
                            loop.run(sim.client.create_party_registration(ven_id=sim.client.ven_id, registration_id=sim.client.registration_id))
                        for j in periodic(sim.client, "poll"):
                            loop.run(j.fire())
            except Exception as e:        # noqa
                if trusts and knows:
                    raise
                v.append(("crash", f"the VEN that could not connect raised {type(e).__name__}: {e}"))
            what = f"{case}"
            if trusts and knows:
                want = fingerprint(f"ven-{ven_crt}.crt")
                if sim.calls[:1] != [("register", want)]:
                    v.append(("fingerprint", f"{what}: the VTN's application saw {sim.calls[:1]}, the VEN's fingerprint is {want}; refused {sim.refused}"))
                elif sim.client.registration_id != "reg1" or sim.client.ven_id != "ven1":
                    v.append(("registered", f"{what}: the VEN has registration {sim.client.registration_id!r}"))
                elif [k for k, _ in itertools.groupby(sim.calls)] != [("register", want), ("poll", "ven1")] * (2 if case.get("again") else 1):
                    v.append(("polled", f"{what}: registrations and polls arrived as {sim.calls}, the VEN's fingerprint is {want}"))
            else:
                if sim.requests:
                    v.append(("stranger", f"{what}: {sim.requests} requests were exchanged (the VEN should {'' if trusts else 'not '}trust the VTN, "
                                                       f"the VTN should {'' if knows else 'not '}accept the VEN)"))
                if sim.client.registration_id is not None:
                    v.append(("registered", f"{what}: the VEN thinks it has registered"))
                if not trusts and "server" in sim.refused:
                    v.append(("trusted", f"{what}: the VEN sent its request to a VTN that it should not trust"))
            return Outcome(v + sim.v, obs=("ok" if trusts and knows else "refused", sorted(set(sim.refused))), steps=len(sim.calls) + len(sim.refused) + sim.requests)
        finally:
            for k, val in env.items():
                os.environ.pop(k, None)
                if val is not None:
                    os.environ[k] = val


VTN_CRTS = ["ca1", "ca2", "self", "expired", "future", "purpose", "leaf", "fake", "chain0", "other", "wild", "cn"]
VEN_CRTS = [None, "ca1", "ca2", "self", "expired", "future", "purpose", "leaf", "fake", "chain0"]
HOSTS = ["localhost", "127.0.0.1", "vtn.example.org", "other.example"]


def tls_cases(tier):
    quick = tier == "quick"
    for v in VTN_CRTS:
        for w in VEN_CRTS:
            for vca in ("ca1", "ca2", "both"):
                for wca in ("ca1", "ca2", "both", "system-ca1", "system-ca2", "system-none"):
                    for check in (True, False):
                        for host in (HOSTS if check else HOSTS[:1] if quick else HOSTS):
                            if quick and (vca, wca) != ("ca1", "ca1") and host not in ("localhost", "other.example"):
                                continue
                            yield dict(vtn=v, ven=w, vtn_ca=vca, ven_ca=wca, check=check, host=host)
    for enc in ("vtn", "ven", "vtn ven", ""):
        for sign in (True, False):
            for vs in (True, False):
                for v in ("ca1", "chain0", "chain1", "chain2"):
                    for w in ("ca1", "chain0", "chain1", "chain2"):
                        for port in (8080, 8443, 443):
                            yield dict(vtn=v, ven=w, vtn_ca="ca1", ven_ca="ca1", check=True, host="localhost", encrypted=enc, sign=sign, vtn_signs=vs, port=port)
    # a VEN that names an id when it registers, and one that registers again
    for vid in (None, "ven1", "ven7"):
        for anew in (None, "ven", "vtn"):
            for sign in (True, False):
                for w in ("ca1", "ca2", "chain0", "fake"):
                    for vs in (True, False):
                        yield dict(vtn="ca1", ven=w, vtn_ca="ca1", ven_ca="ca1", check=True, host="localhost", ven_id=vid, again=anew, sign=sign, vtn_signs=vs)


def broken_cases(tier):
    for what in ("passphrase", "no-passphrase", "other-key", "no-certificate-file", "no-key-file", "no-ca-file", "bad-certificate-file", "bad-ca-file"):
        yield dict(broken=what)


def broken_case(case):
    """A VTN whose TLS settings cannot work does not serve at all."""
    what, v = case["broken"], []
    with World() as loop, contextlib.redirect_stdout(io.StringIO()):
        sim = Sim(loop, case)
        kw = dict(http_cert=path("vtn-ca1.crt"), http_key=path("vtn.key"), http_ca_file=path("ca1.pem"))
        if "passphrase" in what:
            kw.update(http_key=path("vtn-enc.key"), http_key_passphrase="" if what == "no-passphrase" else "wrong")
        elif what == "other-key":
            kw.update(http_key=path("ven.key"))
        else:
            bad, arg = what.split("-")[0] == "bad", {"certificate": "http_cert", "key": "http_key", "ca": "http_ca_file"}[what.split("-")[1]]
            kw[arg] = path("ven.key" if bad else "nothing.pem")
        try:
            sim.start_vtn(**kw)
            v.append(("open", f"a VTN with a broken TLS setting ({what}) serves {'HTTPS' if sim.listening[0][2] else 'plain HTTP'}"))
        except Exception as e:      # noqa
            if sim.listening:
                v.append(("open", f"a VTN with a broken TLS setting ({what}) serves, although it raised {e!r}"))
    return Outcome(v, obs=what)


def command_cases(tier):
    for crt in sorted(os.listdir(PKI)):
        if crt.endswith(".crt"):
            yield dict(certificate=crt)


def command_case(case):
    """The command with which users find out what fingerprint to give to the other party."""
    from openleadr.fingerprint import show_fingerprint
    crt, out = case["certificate"], io.StringIO()
    argv, sys.argv = sys.argv, ["fingerprint", path(crt)]
    try:
        with contextlib.redirect_stdout(out):
            show_fingerprint()
    finally:
        sys.argv = argv
    v = []
    if out.getvalue().split() != [fingerprint(crt)]:
        v.append(("command", f"the fingerprint command prints {out.getvalue()!r} for {crt}, whose fingerprint is {fingerprint(crt)}"))
    return Outcome(v, obs=out.getvalue())


def scenarios(tier):
    return [Product("command", command_cases, command_case, note="the fingerprint command for every certificate file"),
            Product("handshake", tls_cases, tls_case, note="the certificates, CA files and host name settings of a VTN and a VEN; which of them get to talk", chunk=20),
            Product("broken", broken_cases, broken_case, note="TLS settings that cannot work")]
