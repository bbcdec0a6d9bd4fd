"""Everything an attacker without the key may do to a signed message."""
import base64
import copy
import hashlib
import hmac

from lxml import etree

from . import boot, sign
from .sign import DS, DSP, OADR

TEXTS = ["", "x", "0", "ven2"]


def _local(e):
    return etree.QName(e).localname if isinstance(e.tag, str) else "?"


def dump(r):
    return etree.tostring(r, xml_declaration=True, encoding="utf-8")


def edits(body, full=False):
    """every single edit at every element, attribute and text: (name, bytes)"""
    root = etree.fromstring(body)
    elems = list(root.iter())

    def make(i, f):
        r = copy.deepcopy(root)
        f(list(r.iter())[i], r)
        return dump(r)
    for i, el in enumerate(elems):
        name = f"{i}:{_local(el)}"
        if i:
            yield f"drop {name}", make(i, lambda e, r: e.getparent().remove(e))
            yield f"double {name}", make(i, lambda e, r: e.addnext(copy.deepcopy(e)))
        yield f"rename {name}", make(i, lambda e, r: setattr(e, "tag", "{" + (etree.QName(e).namespace or "") + "}nonsense"))
        yield f"other-namespace {name}", make(i, lambda e, r: setattr(e, "tag", "{urn:nowhere}" + _local(e)))
        yield f"attribute {name}", make(i, lambda e, r: e.set("nonsense", "1"))
        yield f"comment-first {name}", make(i, lambda e, r: e.insert(0, etree.Comment("c")))
        yield f"instruction {name}", make(i, lambda e, r: e.insert(0, etree.ProcessingInstruction("p", "q")))
        for a in el.attrib:
            yield f"drop-attribute {a} {name}", make(i, lambda e, r, a=a: e.attrib.pop(a))
            for v in ("", el.get(a) + "x", el.get(a)[:-1], "x" + el.get(a), el.get(a).swapcase(), "#oadrSignedObject", "#prop", "oadrSignedObject", "prop"):
                if v != el.get(a):
                    yield f"attribute {a}={v!r} {name}", make(i, lambda e, r, a=a, v=v: e.set(a, v))
        if len(el) == 0:
            t = el.text or ""
            for v in dict.fromkeys([t + "x", "x" + t, t[1:], t[:-1], t.swapcase(), " " + t, t + "\n", t * 2] + TEXTS):
                if v != t:
                    yield f"text {v[:20]!r} {name}", make(i, lambda e, r, v=v: setattr(e, "text", v))
            if len(t) > 1:
                for cut in {1, len(t) // 2, len(t) - 1}:
                    def split(e, r, cut=cut, t=t):
                        c = etree.Comment("c")
                        e.text, c.tail = t[:cut], t[cut:]
                        e.insert(0, c)
                    yield f"comment at {cut} {name}", make(i, split)

                def cut_off(e, r, t=t):
                    c = etree.Comment("c")
                    e.text, c.tail = t, "2"
                    e.insert(0, c)
                yield f"comment and more {name}", make(i, cut_off)
        else:
            yield f"text-between {name}", make(i, lambda e, r: setattr(e, "text", "junk"))
            yield f"empty {name}", make(i, lambda e, r: [e.remove(c) for c in list(e)] and None)
            for k in range(1, len(el)):
                yield f"swap {k} {name}", make(i, lambda e, r, k=k: e.insert(k - 1, e[k]))
    for i in range(1, len(elems)):
        for j in range(len(elems)):
            # moving one element to another place
            if full and elems[j] not in elems[i].iter() and elems[i].getparent() is not elems[j]:
                def move(e, r, j=j):
                    target = list(r.iter())[j]
                    target.append(e)
                yield f"move {i}:{_local(elems[i])} into {j}:{_local(elems[j])}", make(i, move)


def chars(body):
    """every character of the base64 values replaced: (name, bytes)"""
    root = etree.fromstring(body)
    for i, el in enumerate(root.iter()):
        if _local(el) in ("SignatureValue", "DigestValue", "X509Certificate"):
            t = el.text
            for k in range(len(t)):
                if t[k] in "=\n":
                    continue
                el.text = t[:k] + ("B" if t[k] == "A" else "A") + t[k + 1:]
                yield f"{_local(el)} character {k}", dump(root)
            el.text = t


def essence(body):
    """What the receiver relies on: (content, the signature's statement and value, certificates; the objects in the signature). None: malformed."""
    try:
        root = etree.fromstring(body)
    except etree.XMLSyntaxError:
        return None
    if not isinstance(root.tag, str):
        return None
    kids = [c for c in root if isinstance(c.tag, str)]
    out = [root.tag, [c.tag for c in kids], "".join(root.xpath("text()")).strip()]
    objects = []
    for e in kids:
        if _local(e) == "oadrSignedObject":
            out.append(sign.c14n(e))
        elif _local(e) == "Signature":
            out.append([sign.c14n(x) for x in e.iter(f"{{{DS}}}SignedInfo")])
            out.append([_decoded("".join(x.xpath(".//text()"))) for x in e.iter(f"{{{DS}}}SignatureValue")])
            out.append(sorted({_decoded("".join(x.xpath(".//text()"))) for x in e.iter(f"{{{DS}}}X509Certificate")}))
            objects = [sign.c14n(x) for x in e.iter(f"{{{DS}}}Object")]
    return out, objects


def altered(body, genuine):
    """Does the message differ from the genuine one in anything that the signature is there to protect?"""
    a, b = essence(body), essence(genuine)
    return a is None or a[0] != b[0] or not set(b[1]) <= set(a[1])


def _decoded(t):
    t = "".join(t.split())
    try:
        return base64.b64decode(t, validate=True)
    except Exception:
        return t.encode()


def _sig(root):
    return root.find(f"{{{DS}}}Signature")


def _so(root):
    return root.find(f"{{{OADR}}}oadrSignedObject")


def _object(sig, *children, id=None, at=None):
    o = etree.Element(f"{{{DS}}}Object")
    if id:
        o.set("Id", id)
    for c in children:
        o.append(c)
    if at is None:
        sig.append(o)
    else:
        sig.insert(at, o)
    return o


def _replay(ts, nonce):
    return etree.fromstring(f'<ds:SignatureProperties xmlns:ds="{DS}"><ds:SignatureProperty Target="#x">{sign.replay(ts, nonce)}</ds:SignatureProperty></ds:SignatureProperties>')


def attacks(xml, evil, who, other, ts):
    """
    xml: the genuine content, evil: what the attacker wants to be believed, who: the rightful signer, other: a party with a key of its own.
    Yields (name, expectation, bytes) with expectation 'refuse' or 'intact' (if it is accepted, then as the genuine content).
    """
    good = lambda **kw: etree.fromstring(sign.sign(xml, who, ts, **kw))
    ID = f"{{{OADR}}}Id"

    def evil_so(attr=ID, value="evil"):
        so = _so(etree.fromstring(evil.encode()))
        so.attrib.clear()
        if attr:
            so.set(attr, value)
        return so
    yield "not signed", "refuse", xml.encode()
    yield "other content, not signed", "refuse", evil.encode()
    # -- the signed content moved out of the way
    places = ("object-last", "object-first", "object-own", "property", "keyinfo", "inside", "payload-first", "payload-last")
    for place in places:
        for attr, value in ((ID, "evil"), (ID, "oadrSignedObject"), (None, None), ("Id", "oadrSignedObject"), ("ID", "oadrSignedObject"), ("id", "oadrSignedObject"),
                            ("{http://www.w3.org/XML/1998/namespace}id", "oadrSignedObject"), (ID, "prop")):
            r = good()
            so, sig, new = _so(r), _sig(r), evil_so(attr, value)
            r.replace(so, new)
            if place == "object-last":
                _object(sig, so)
            elif place == "object-first":
                _object(sig, so, at=0)
            elif place == "object-own":
                sig.find(f"{{{DS}}}Object").append(so)
            elif place == "property":
                next(r.iter(f"{{{DS}}}SignatureProperty")).append(so)
            elif place == "keyinfo":
                sig.find(f"{{{DS}}}KeyInfo").append(so)
            elif place == "inside":
                new[0].append(so)
            elif place == "payload-first":
                r.insert(0, so)
            else:
                r.append(so)
            yield f"wrapped at {place}, {attr}={value}", "refuse", dump(r)
            if place in ("object-last", "object-own"):
                r = good()
                _object(_sig(r), evil_so(attr, value), at=0 if place == "object-own" else None)
                yield f"extra content at {place}, {attr}={value}", "intact", dump(r)
    # the signed property moved, another one in its place
    for fresh in (ts, "2030-03-04T12:00:01Z"):
        for nonce in ("other", "nonce-1"):
            for first in (True, False):
                r = good()
                _object(_sig(r), _replay(fresh, nonce), at=0 if first else None)
                yield f"another replay protection {fresh} {nonce} {'before' if first else 'behind'}", "intact", dump(r)
                r = good()
                sig = _sig(r)
                sig.insert(sig.index(sig.find(f"{{{DS}}}Object")) + (0 if first else 1), etree.fromstring(
                    f'<ds:Object xmlns:ds="{DS}">{sign.replay(fresh, nonce)}</ds:Object>'))
                yield f"a bare replay protection {fresh} {nonce} {'before' if first else 'behind'}", "intact", dump(r)
    # -- signatures that do not cover it all
    for refs in (("#oadrSignedObject",), ("#prop",), ("#prop", "#prop"), ("#oadrSignedObject", "#oadrSignedObject")):
        yield f"references {refs}", "refuse" if "#oadrSignedObject" not in refs or "#prop" not in refs else "intact", sign.sign(xml, who, ts, refs=refs)
    r = good(refs=("#prop", "#prop"))
    r.replace(_so(r), evil_so(ID, "oadrSignedObject"))
    yield "references to the property only, other content", "refuse", dump(r)
    for uri, kids in (("#other", [_replay(ts, "n")]), ("#myid", [])):
        r = etree.fromstring(sign.sign(xml, who, ts, refs=("#oadrSignedObject", "#oadrSignedObject")))
        refs = list(r.iter(f"{{{DS}}}Reference"))
        refs[1].set("URI", uri)
        if kids:
            _object(_sig(r), *kids, id="other")
        yield f"the second reference redirected to {uri}", "refuse", dump(r)
    for n in (1, 2):
        r = good()
        si = next(r.iter(f"{{{DS}}}SignedInfo"))
        for ref in list(si.iter(f"{{{DS}}}Reference"))[:n]:
            si.remove(ref)
        yield f"{n} references dropped", "refuse", dump(r)
    r = good()
    si = next(r.iter(f"{{{DS}}}SignedInfo"))
    si.append(copy.deepcopy(next(r.iter(f"{{{DS}}}Reference"))))
    yield "a reference more", "refuse", dump(r)
    # -- somebody else's signature
    yield "signed by another party", "refuse", sign.sign(xml, other, ts)
    yield "other content signed by another party", "refuse", sign.sign(evil, other, ts)
    yield "another party's key under the right certificate", "refuse", sign.sign(xml, other, ts, cert_of=who)
    yield "the right key under another party's certificate", "refuse", sign.sign(xml, who, ts, cert_of=other)
    for content, label in ((xml, "content"), (evil, "other content")):
        for order in (0, 1):
            for level in ("X509Certificate", "X509Data", "KeyInfo"):
                r = etree.fromstring(sign.sign(content, other, ts))
                e = next(r.iter(f"{{{DS}}}{level}"))
                new = copy.deepcopy(e)
                cert = new if level == "X509Certificate" else next(new.iter(f"{{{DS}}}X509Certificate"))
                cert.text = sign.b64(sign.der(who))
                (e.addprevious if order == 0 else e.addnext)(new)
                yield f"{label} signed by another party, the right certificate as well ({level}, {order})", "refuse", dump(r)
        for at in (0, None):
            r = etree.fromstring(sign.sign(content, other, ts))
            _object(_sig(r), etree.fromstring(f'<ds:KeyInfo xmlns:ds="{DS}"><ds:X509Data><ds:X509Certificate>{sign.b64(sign.der(who))}</ds:X509Certificate></ds:X509Data></ds:KeyInfo>'), at=at)
            yield f"{label} signed by another party, the right certificate in an object at {at}", "refuse", dump(r)
    # -- pieces of two signed messages
    a, b = good(), etree.fromstring(sign.sign(evil, other, ts, nonce="nonce-2"))
    for part in ("SignedInfo", "SignatureValue", "KeyInfo", "Object", "Signature"):
        for x, y, label in ((a, b, "genuine"), (b, a, "other")):
            r = copy.deepcopy(x)
            old = r.find(f".//{{{DS}}}{part}")
            old.getparent().replace(old, copy.deepcopy(y.find(f".//{{{DS}}}{part}")))
            yield f"the {label} message with the {part} of the other", "refuse", dump(r)
    r = copy.deepcopy(a)
    r.replace(_so(r), copy.deepcopy(_so(b)))
    yield "the content of another message under the genuine signature", "refuse", dump(r)
    mine = etree.fromstring(sign.sign(evil, who, ts, nonce="nonce-3"))       # a second genuine message
    same = sign.c14n(_so(a)) == sign.c14n(_so(mine))
    for part in ("SignedInfo", "SignatureValue", "Object") + (() if same else ("Signature",)):
        r = copy.deepcopy(a)
        old = r.find(f".//{{{DS}}}{part}")
        old.getparent().replace(old, copy.deepcopy(mine.find(f".//{{{DS}}}{part}")))
        yield f"the genuine content with the {part} of a second genuine message", "refuse", dump(r)
    # -- two signatures
    for content, order in ((xml, 0), (xml, 1), (evil, 0), (evil, 1)):
        r = etree.fromstring(sign.sign(content, other, ts, nonce="nonce-4"))
        _object(_sig(r), copy.deepcopy(_sig(a)), copy.deepcopy(_so(a)), at=0 if order == 0 else None)
        yield f"another party's signature with the genuine message inside {order} {content is evil}", "refuse", dump(r)
        r = etree.fromstring(sign.sign(content, other, ts, nonce="nonce-4"))
        r.insert(0 if order == 0 else 1, copy.deepcopy(_sig(a)))
        yield f"both signatures {order} {content is evil}", "refuse", dump(r)
        r = copy.deepcopy(a)
        r.replace(_so(r), evil_so(ID, "oadrSignedObject"))
        fake = _sig(etree.fromstring(sign.sign(evil, other, ts, nonce="nonce-4")))
        if order == 0:
            _object(fake, _sig(r), copy.deepcopy(_so(a)))
            r.insert(0, fake)
        else:
            _object(_sig(r), fake)
        yield f"other content, the genuine signature {'inside another' if order == 0 else 'around another'} {content is evil}", "refuse", dump(r)
    # -- other kinds of signatures
    for alg, digest in (("http://www.w3.org/2000/09/xmldsig#hmac-sha1", "sha1"), ("http://www.w3.org/2001/04/xmldsig-more#hmac-sha256", "sha256")):
        for k in ("der", "pem", "key", "empty"):
            r = etree.fromstring(sign.sign(evil, other, ts, cert_of=who))
            si = next(r.iter(f"{{{DS}}}SignedInfo"))
            si.find(f"{{{DS}}}SignatureMethod").set("Algorithm", alg)
            secret = {"der": sign.der(who), "pem": sign.pem(who).encode(), "key": sign.b64(sign.der(who)).encode(), "empty": b""}[k]
            next(r.iter(f"{{{DS}}}SignatureValue")).text = sign.b64(hmac.new(secret, sign.c14n(si), getattr(hashlib, digest)).digest())
            yield f"{digest} HMAC with the certificate as the secret ({k})", "refuse", dump(r)
    for v in ("", "AAAA", "=", "x" * 344, sign.b64(b"\0" * 256), sign.b64(b"\0" * 255 + b"\1")):
        r = good()
        next(r.iter(f"{{{DS}}}SignatureValue")).text = v
        yield f"signature value {v[:8]!r}", "refuse", dump(r)
    r = etree.fromstring(sign.sign(evil, other, ts, cert_of=who))
    kv = etree.fromstring(f'<ds:KeyValue xmlns:ds="{DS}"><ds:RSAKeyValue><ds:Modulus>{sign.modulus(other)}</ds:Modulus><ds:Exponent>AQAB</ds:Exponent></ds:RSAKeyValue></ds:KeyValue>')
    r.find(f".//{{{DS}}}KeyInfo").insert(0, kv)
    yield "another party's key value next to the right certificate", "refuse", dump(r)
    # -- the same content written differently
    g = sign.sign(xml, who, ts)
    yield "a document type", "intact", g.replace(b"?>", b"?><!DOCTYPE a [<!ENTITY e 'x'>]>", 1)
    yield "an entity", "intact", g.replace(b"?>", b"?><!DOCTYPE a [<!ENTITY e 'rq'>]>", 1).replace(b">rq1<", b">&e;1<")
    yield "an entity with other content", "refuse", g.replace(b"?>", b"?><!DOCTYPE a [<!ENTITY e 'rq'>]>", 1).replace(b">TheVTN<", b">&e;2<").replace(b">ven1<", b">&e;2<")
    yield "character references", "intact", g.replace(b">rq1<", b">&#114;q&#x31;<")
    yield "character data", "intact", g.replace(b">rq1<", b"><![CDATA[rq1]]><")
    yield "comments around it", "intact", g.replace(b"?>", b"?><!-- a -->", 1) + b"<!-- b -->"
    u = g.decode().split("?>", 1)[1]
    yield "utf-16", "intact", ('<?xml version="1.0" encoding="utf-16"?>' + u).encode("utf-16")
    yield "latin-1", "intact", ('<?xml version="1.0" encoding="iso-8859-1"?>' + u).encode("latin-1", "xmlcharrefreplace")
    yield "other prefixes", "intact", g.replace(b"ds:", b"dsig:").replace(b"xmlns:ds=", b"xmlns:dsig=")
    yield "white space between", "refuse", g.replace(b"><", b">\n<")


def variants(xml, who, ts):
    """other ways in which the rightful party may have signed it: to be accepted"""
    yield "inclusive canonicalisation", sign.sign(xml, who, ts, nonce="v1")
    yield "exclusive canonicalisation", sign.sign(xml, who, ts, nonce="v2", alg=sign.EXC)
    yield "references in the other order", sign.sign(xml, who, ts, nonce="v3", refs=("#prop", "#oadrSignedObject"))
    yield "another id for the property", sign.sign(xml, who, ts, nonce="v4", refs=("#oadrSignedObject", "#p2"), obj_id="p2")
    yield "a timestamp without fractions", sign.sign(xml, who, ts.split(".")[0].rstrip("Z") + "Z", nonce="v5")
