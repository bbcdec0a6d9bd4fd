"""
An independent XML signature writer (lxml c14n and the cryptography package; neither signxml nor the code under test),
with throw-away test keys from mc/certs.
"""
import base64
import functools
import hashlib
import os

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import padding
from lxml import etree

from . import boot, wire

DS = "http://www.w3.org/2000/09/xmldsig#"
DSP = "http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties"
OADR = wire.NS["oadr"]
C14N = "http://www.w3.org/TR/2001/REC-xml-c14n-20010315"
EXC = "http://www.w3.org/2001/10/xml-exc-c14n#"
CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "certs")


def path(who, kind="crt"):
    return os.path.join(CERTS, f"{who}.{kind}")


@functools.lru_cache(None)
def pem(who):
    return open(path(who)).read()


@functools.lru_cache(None)
def der(who):
    return x509.load_pem_x509_certificate(pem(who).encode()).public_bytes(serialization.Encoding.DER)


@functools.lru_cache(None)
def key(who):
    return serialization.load_pem_private_key(open(path(who, "key"), "rb").read(), None)


def fingerprint(who):
    h = hashlib.sha256(der(who)).hexdigest().upper()
    return ":".join(h[i:i + 2] for i in range(44, 64, 2))


def b64(b):
    return base64.b64encode(b).decode()


def c14n(e, alg=C14N):
    return etree.tostring(e, method="c14n", exclusive=(alg == EXC), with_comments=False)


def _ref(uri, alg):
    return (f'<ds:Reference URI="{uri}"><ds:Transforms><ds:Transform Algorithm="{alg}"/></ds:Transforms>'
            '<ds:DigestMethod Algorithm="http://www.w3.org/2001/04/xmlenc#sha256"/><ds:DigestValue></ds:DigestValue></ds:Reference>')


def replay(ts, nonce, attrs=""):
    return f'<dsp:ReplayProtect xmlns:dsp="{DSP}"{attrs}><dsp:timestamp>{ts}</dsp:timestamp><dsp:nonce>{nonce}</dsp:nonce></dsp:ReplayProtect>'


def sign(xml, who="ven1", ts=None, nonce="nonce-1", refs=("#oadrSignedObject", "#prop"), alg=C14N, cert=None, prop=True, obj_id="prop",
         key_value=False, cert_of=None):
    """Sign a message from mc.wire; returns bytes. refs: the URIs the signature covers."""
    ts = wire.when(boot.CLOCK.now()) if ts is None else ts if isinstance(ts, str) else wire.when(ts)
    if isinstance(xml, bytes):
        xml = xml.decode()
    props = (f'<ds:Object Id="{obj_id}"><ds:SignatureProperties><ds:SignatureProperty Id="myid" Target="#mytarget">{replay(ts, nonce)}'
             "</ds:SignatureProperty></ds:SignatureProperties></ds:Object>") if prop else ""
    certificate = b64(der(cert_of or who)) if cert is None else cert
    sig = (f'<ds:Signature xmlns:ds="{DS}"><ds:SignedInfo><ds:CanonicalizationMethod Algorithm="{alg}"/>'
           '<ds:SignatureMethod Algorithm="http://www.w3.org/2001/04/xmldsig-more#rsa-sha256"/>' + "".join(_ref(u, alg) for u in refs) +
           "</ds:SignedInfo><ds:SignatureValue></ds:SignatureValue><ds:KeyInfo><ds:X509Data>"
           f"<ds:X509Certificate>{certificate}</ds:X509Certificate></ds:X509Data></ds:KeyInfo>{props}</ds:Signature>")
    i = xml.index("<oadr:oadrSignedObject")
    root = etree.fromstring((xml[:i] + sig + xml[i:]).encode())
    return finish(root, who, alg)


def finish(root, who, alg=C14N):
    """(Re)compute the digests and the signature value of a document."""
    for ref in root.iter(f"{{{DS}}}Reference"):
        uri = ref.get("URI")
        target = root if uri == "" else next(e for e in root.iter() if isinstance(e.tag, str) and any(
            etree.QName(a).localname in ("Id", "ID") and v == uri[1:] for a, v in e.attrib.items()))
        ref.find(f"{{{DS}}}DigestValue").text = b64(hashlib.sha256(c14n(target, alg)).digest())
    si = next(root.iter(f"{{{DS}}}SignedInfo"))
    next(root.iter(f"{{{DS}}}SignatureValue")).text = b64(key(who).sign(c14n(si, alg), padding.PKCS1v15(), hashes.SHA256()))
    return etree.tostring(root, xml_declaration=True, encoding="utf-8")


def modulus(who):
    n = key(who).public_key().public_numbers().n
    return b64(n.to_bytes((n.bit_length() + 7) // 8, "big"))


def signer(root):
    """whose key the signature of a message verifies with: 'nobody', a name in mc/certs or 'invalid'"""
    sig = root.find(f"{{{DS}}}Signature")
    if sig is None:
        return "nobody"
    cert = "".join((sig.findtext(f".//{{{DS}}}X509Certificate") or "").split())
    who = next((f[:-4] for f in sorted(os.listdir(CERTS)) if f.endswith(".crt") and b64(der(f[:-4])) == cert), None)
    if who is None:
        return "invalid"
    hashes_ = {"http://www.w3.org/2001/04/xmlenc#sha256": hashlib.sha256, "http://www.w3.org/2001/04/xmldsig-more#sha384": hashlib.sha384}
    for ref in sig.iter(f"{{{DS}}}Reference"):
        uri = ref.get("URI") or ""
        algs = [t.get("Algorithm") for t in ref.iter(f"{{{DS}}}Transform")]
        target = next((e for e in root.iter() if isinstance(e.tag, str) and any(etree.QName(a).localname in ("Id", "ID") and v == uri[1:] for a, v in e.attrib.items())), None)
        method = ref.find(f"{{{DS}}}DigestMethod").get("Algorithm")
        if target is None or method not in hashes_ or b64(hashes_[method](c14n(target, algs[-1] if algs else C14N)).digest()) != "".join(ref.findtext(f"{{{DS}}}DigestValue").split()):
            return "invalid"
    si = sig.find(f"{{{DS}}}SignedInfo")
    try:
        key(who).public_key().verify(base64.b64decode(sig.findtext(f"{{{DS}}}SignatureValue")), c14n(si, si.find(f"{{{DS}}}CanonicalizationMethod").get("Algorithm")),
                                     padding.PKCS1v15(), hashes.SHA256())
    except Exception:
        return "invalid"
    return who
