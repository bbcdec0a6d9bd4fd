#!/opt/venv/bin/python
"""Makes the certificates of C28 in mc/pki (run once; its output is committed)."""
import datetime as dt
import ipaddress
import os

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization as ser
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.x509.oid import ExtendedKeyUsageOID as EKU, NameOID

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "pki")
LONG = (dt.datetime(2020, 1, 1), dt.datetime(2120, 1, 1))
PAST = (dt.datetime(2001, 1, 1), dt.datetime(2002, 1, 1))
FUTURE = (dt.datetime(2110, 1, 1), dt.datetime(2120, 1, 1))
_serial = [1000]


def key():
    return rsa.generate_private_key(65537, 2048)


def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COUNTRY_NAME, "NL"), x509.NameAttribute(NameOID.COMMON_NAME, cn)])


def cert(cn, k, issuer=None, ca=False, when=LONG, dns=(), ip=(), eku=None):
    _serial[0] += 1
    icert, ikey = issuer or (None, k)
    b = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(icert.subject if icert else name(cn)).public_key(k.public_key())
         .serial_number(_serial[0]).not_valid_before(when[0]).not_valid_after(when[1])
         .add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(k.public_key()), critical=False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ikey.public_key()), critical=False))
    if dns or ip:
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(d) for d in dns] + [x509.IPAddress(ipaddress.ip_address(i)) for i in ip]), critical=False)
    if eku:
        b = b.add_extension(x509.ExtendedKeyUsage([eku]), critical=False)
    return b.sign(ikey, hashes.SHA256())


def write(fn, *parts):
    with open(os.path.join(OUT, fn), "wb") as f:
        for p in parts:
            f.write(p)


def pem(c):
    return c.public_bytes(ser.Encoding.PEM)


def pemkey(k, password=None):
    enc = ser.BestAvailableEncryption(password) if password else ser.NoEncryption()
    return k.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, enc)


def chained(n, who, k, issuer, names):
    for i in range(9):
        c = cert(f"{who} chain" + "n" * i, k, issuer, **names)
        if len(c.public_bytes(ser.Encoding.DER)) % 3 == n:
            return c
    raise SystemExit("no such length")


def main():
    os.makedirs(OUT, exist_ok=True)
    k1, k2, ki, kvtn, kven = key(), key(), key(), key(), key()
    ca1 = cert("CA one", k1, ca=True)
    ca2 = cert("CA two", k2, ca=True)
    inter = cert("Intermediate CA", ki, (ca1, k1), ca=True)
    write("ca1.pem", pem(ca1))
    write("ca2.pem", pem(ca2))
    write("both.pem", pem(ca1), pem(ca2))
    write("none.pem", b"")
    for who, k, names in (("vtn", kvtn, dict(dns=["localhost", "vtn.example.org"], ip=["127.0.0.1"])), ("ven", kven, {})):
        write(f"{who}.key", pemkey(k))
        write(f"{who}-enc.key", pemkey(k, b"geheim"))
        mk = lambda kind, *a, **kw: write(f"{who}-{kind}.crt", pem(cert(f"{who} {kind}", k, *a, **{**names, **kw})))      # noqa
        mk("ca1", (ca1, k1))
        mk("ca2", (ca2, k2))
        mk("self")
        mk("expired", (ca1, k1), when=PAST)
        mk("future", (ca1, k1), when=FUTURE)
        mk("purpose", (ca1, k1), eku=EKU.CLIENT_AUTH if who == "vtn" else EKU.SERVER_AUTH)
        # signed by the key of an ordinary certificate, which may not sign certificates
        leaf = cert("a leaf", ki, (ca1, k1), **names)
        write(f"{who}-leaf.crt", pem(cert(f"{who} leaf", k, (leaf, ki), **names)), pem(leaf))
        for n in range(3):      # (of every length modulo 3, for the sake of base64)
            write(f"{who}-chain{n}.crt", pem(chained(n, who, k, (inter, ki), names)), pem(inter))
        # an issuer with the name of CA one, but another key
        fake = cert("CA one", k2, ca=True)
        write(f"{who}-fake.crt", pem(cert(f"{who} fake", k, (fake, k2), **names)))
    write("vtn-other.crt", pem(cert("vtn other", kvtn, (ca1, k1), dns=["other.example"])))
    write("vtn-wild.crt", pem(cert("vtn wild", kvtn, (ca1, k1), dns=["*.example.org"])))
    write("vtn-cn.crt", pem(cert("vtn.example.org", kvtn, (ca1, k1))))


main()
