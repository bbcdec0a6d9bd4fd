"""C10: the VTN serves only VENs it knows and that prove who they are."""
import itertools

from .. import boot, wire, sign, sec
from ..core import Outcome, Product, Histories, Schedules
from ..vloop import World

LEVEL = "model_checking"
ASSUMPTIONS = ["a VTN over TLS that was given no lookup function at all is not judged (it has nothing to compare with)",
               "ven_lookup and fingerprint_lookup, when both are given, agree",
               "without TLS the signatures are not looked at; whether a bad one is accepted there is open",
               "a bad signature value may be refused with HTTP 403 instead of error 463 (the existing tests require it)"]

# what the application says about ven1: (ven_lookup's answer or None, fingerprint_lookup's answer)
OWN = sign.fingerprint("ven1")
STATES = {
    "registered": ({"fingerprint": OWN, "registration_id": "reg_ven1"}, OWN),
    "unregistered": ({"fingerprint": OWN, "registration_id": None}, OWN),
    "no-registration-key": ({"fingerprint": OWN}, OWN),
    "no-fingerprint": ({"fingerprint": None, "registration_id": "reg_ven1"}, None),
    "no-fingerprint-key": ({"registration_id": "reg_ven1"}, None),
    "empty-fingerprint": ({"fingerprint": "", "registration_id": "reg_ven1"}, ""),
    "other-fingerprint": ({"fingerprint": sign.fingerprint("ven2"), "registration_id": "reg_ven1"}, sign.fingerprint("ven2")),
    "unknown": (None, None),
    "absent": ({"fingerprint": OWN, "registration_id": "reg_ven1"}, OWN),      # and the message names no VEN
    "lookup-fails": ("raise", "raise"),
}
REGISTERED = {"registered", "no-fingerprint", "no-fingerprint-key", "empty-fingerprint", "other-fingerprint"}
SIGS = ("none", "ven1", "ven2", "stranger", "tampered", "forged", "garbage")
HANDLER = {"poll": "poll", "request": "request", "created": "created", "register": "register", "cancel": "cancel", "offer": "offer", "update": "update",
           "report-created": "report-created", "query": "query"}
LABELS = list(sec.messages()) + ["query"]
EARLY = ("register", "query")          # a VEN that is not registered yet may send these


class Vtn(sec.Vtn):
    def __init__(self, case_state, **kw):
        self.case_state = case_state
        super().__init__(**kw)

    def ven_lookup(self, ven_id):
        v = STATES[self.case_state][0] if ven_id == "ven1" else None
        if v == "raise":
            raise KeyError("no database")
        return None if v is None else {"ven_id": ven_id, "ven_name": "n", **v}

    def fingerprint_lookup(self, ven_id):
        v = STATES[self.case_state][1] if ven_id == "ven1" else None
        if v == "raise":
            raise KeyError("no database")
        return v


def message(label, named):
    if label == "query":
        return "EiRegisterParty", wire.query_registration("rq1")
    return sec.messages("ven1" if named else None)[label]


def signed(xml, sig, nonce="n1"):
    if sig == "none":
        return xml
    if sig == "tampered":
        b = sign.sign(xml, "ven1", nonce=nonce)
        changed = b.replace(b">rq1<", b">rq2<", 1)
        return changed if changed != b else b.replace(b">" + nonce.encode() + b"<", b">other<", 1)
    if sig == "forged":
        return sign.sign(xml, "stranger", nonce=nonce, cert_of="ven1")
    if sig == "garbage":
        return sign.sign(xml, "ven1", nonce=nonce, cert="AAAA")
    return sign.sign(xml, sig, nonce=nonce)


def verdict(state, lookup, tls, der, sig, verify, label):
    """'accept', 'open', or the set of refusals allowed"""
    named = state != "absent" and label != "query"
    early = label in EARLY
    bad = set()
    has_ven, has_fp = "ven" in lookup, "fp" in lookup
    if not early and has_ven:
        if not named:
            bad |= {"reregister", "463", "452"}
        elif state == "lookup-fails":
            bad |= {"500", "reregister", "463"}
        elif state not in REGISTERED and state != "absent":
            bad |= {"reregister"}
    if tls and (has_ven or has_fp):
        if not named:
            if not early:
                bad |= {"463", "452", "reregister"}
        elif state == "lookup-fails":
            bad |= {"500", "463"}
        else:
            want = STATES[state][1 if has_fp else 0]
            if not has_fp:
                want = (want or {}).get("fingerprint")
            proof = False
            if not want or der is None or sign.fingerprint(der) != want:
                bad |= {"463"}
            elif verify:
                proof = True
                if sig not in ("ven1", "ven2", "stranger") or sign.fingerprint(sig) != want:
                    bad |= {"463"} | ({"403"} if sig in ("tampered", "forged") else set())
    elif tls and named:
        return "open"
    if bad:
        return bad
    if sig in ("tampered", "forged", "garbage") and not (tls and not verify):
        return "open"
    return "accept"


CONFIGS = [(lookup, style, verify) for lookup in ("none", "ven", "fp", "ven+fp") for style in ("sync", "async") for verify in (True, False)]
CONNECTIONS = [(False, None)] + [(True, d) for d in (None, "ven1", "ven2", "stranger")]


def product_cases(tier):
    for (lookup, style, verify), state in itertools.product(CONFIGS, STATES):
        if lookup == "none" and state not in ("registered", "absent"):
            continue
        for tls, der in CONNECTIONS:
            yield [lookup, style, verify, state, tls, der]


def body(label, state, sig):
    return message(label, state != "absent")[0], _signed(label, state != "absent", sig)


_cache = {}


def _signed(label, named, sig):
    k = (label, named, sig)
    if k not in _cache:            # every execution starts at the same moment, so its messages are always the same
        _cache[k] = signed(message(label, named)[1], sig)
    return _cache[k]


def judge(v, where, tag, reply, calls, before, after, label):
    r = sec.refusal(reply)
    bad = []
    if v == "accept":
        if not sec.accepted(reply):
            bad.append((f"{tag}/refused", f"{where}: answered {reply.summary()} although everything is in order"))
        want = HANDLER.get(label)
        if want and want not in [c[0] for c in calls]:
            bad.append((f"{tag}/not-handled", f"{where}: answered {reply.summary()}, but the handler was not called: {[c[0] for c in calls]}"))
    elif v != "open":
        if calls:
            bad.append((f"{tag}/reached", f"{where}: reached the application: {[c[0] for c in calls]}, answered {r}; should be refused with {sorted(v)}"))
        elif before != after:
            bad.append((f"{tag}/state", f"{where}: refused with {r}, but the server's state changed: {before} -> {after}"))
        if r not in v:
            bad.append((f"{tag}/answer", f"{where}: answered {r}, not {sorted(v)}"))
        elif r == "reregister" and reply.node.get("venID", "") not in ("ven1", ""):
            bad.append((f"{tag}/addressee", f"{where}: the re-registration request names {reply.node.get('venID')!r}"))
    return bad


def run_product(case):
    lookup, style, verify, state, tls, der = case
    bad, n, obs = [], 0, []
    for label in LABELS:
        for sig in SIGS:
            with World() as loop:
                app = Vtn(state, lookup=lookup, style=style, verify=verify)
                ep, xml = body(label, state, sig)
                before = app.state()
                calls0 = len(app.calls)
                reply = loop.run(app.post(xml, der=sign.der(der) if der else None, secure=tls, endpoint=ep))
                v = verdict(state, lookup, tls, der, sig, verify, label)
                n += 1
                where = (f"{label} from {'nobody' if state == 'absent' else 'ven1'} ({state}), lookup {lookup} {style}, "
                         f"{'TLS with certificate ' + str(der) if tls else 'no TLS'}, signature {sig}, checking {verify}")
                bad += judge(v, where, "product", reply, app.calls[calls0:], before, app.state(), label)
                obs.append((label, sig, sec.refusal(reply), len(app.calls)))
    return Outcome(bad, obs=obs, steps=n)


# -- another VTN's id -----------------------------------------------------------------------------------------------------------

def foreign_cases(tier):
    for lookup, style, verify in CONFIGS:
        for ep in ("EiEvent", "EiRegisterParty", "EiReport", "OadrPoll"):
            for vtn_id in ("TheVTN", "OtherVTN", "thevtn", "TheVTN2", "TheVT", "0"):
                yield [lookup, style, verify, ep, vtn_id]


def run_foreign(case):
    lookup, style, verify, ep, vtn_id = case
    bad, n, obs = [], 0, []
    for tls in (False, True):
        for kind in ("distribute", "created"):
            with World() as loop:
                app = Vtn("registered", lookup=lookup, style=style, verify=verify)
                if kind == "distribute":
                    xml = wire.distribute_event([wire.event("e9", start=boot.CLOCK.now())], "rq1", vtn_id)
                    if tls or "ven" in lookup:
                        pass
                else:
                    xml = wire.created_party_registration("ven1", "reg", vtn_id, request_id="rq1")
                xml = sign.sign(xml, "ven1")
                before = app.state()
                reply = loop.run(app.post(xml, der=sign.der("ven1") if tls else None, secure=tls, endpoint=ep))
                r = sec.refusal(reply)
                n += 1
                obs.append(r)
                where = f"{kind} with vtnID {vtn_id!r} at {ep}, lookup {lookup}, TLS {tls}"
                if app.calls or before != app.state():
                    bad.append(("foreign/reached", f"{where}: reached the application {app.calls}"))
                if vtn_id != "TheVTN":
                    if r != "452":
                        bad.append(("foreign/answer", f"{where}: answered {r} instead of error 452"))
                elif r == "452":
                    bad.append(("foreign/own-id", f"{where}: refused with error 452"))
    return Outcome(bad, obs=obs, steps=n)


# -- changing circumstances ---------------------------------------------------------------------------------------------------------

def ops_of(n):
    return [("set", s) for s in ("registered", "unregistered", "other-fingerprint", "no-fingerprint", "unknown")] + \
           [("send", label, der, sig) for label in ("update", "poll", "register") for der, sig in
            (("ven1", "ven1"), ("ven2", "ven2"), ("ven1", "none"), ("ven1", "ven2"))] + [("other", "poll"), ("other", "update")]


class Two(Vtn):
    """ven2 is registered with its own certificate all the time"""
    def ven_lookup(self, ven_id):
        if ven_id == "ven2":
            return {"ven_id": ven_id, "ven_name": "n", "fingerprint": sign.fingerprint("ven2"), "registration_id": "reg_ven2"}
        return super().ven_lookup(ven_id)

    def fingerprint_lookup(self, ven_id):
        return sign.fingerprint("ven2") if ven_id == "ven2" else super().fingerprint_lookup(ven_id)


def run_history(param, hist):
    """the application's records about ven1 change while messages keep coming: every message is judged by the records of its moment"""
    lookup, style = param
    bad = []
    with World() as loop:
        app = Two("registered", lookup=lookup, style=style)
        last = None
        for i, op in enumerate(hist):
            bad = []
            if op[0] == "set":
                app.case_state = op[1]
                last = ("set",)
            elif op[0] == "other":      # ven2 has its own business, over the connection it keeps open
                ep, xml = sec.messages("ven2")[op[1]]
                calls0 = len(app.calls)
                reply = loop.run(app.post(signed(xml, "ven2", f"n{i}"), der=sign.der("ven2"), secure=True, endpoint=ep))
                bad = judge("accept", f"after {hist[:i]}: {op}", "history", reply, app.calls[calls0:], None, None, op[1])
                last = sec.refusal(reply)
            else:
                label, der, sig = op[1:]
                ep, xml = message(label, True)
                before, calls0 = app.state(), len(app.calls)
                reply = loop.run(app.post(signed(xml, sig, f"n{i}"), der=sign.der(der), secure=True, endpoint=ep))
                v = verdict(app.case_state, lookup, True, der, sig, True, label)
                bad = judge(v, f"after {hist[:i]}: {op}, the application says {app.case_state}", "history", reply, app.calls[calls0:], before, app.state(), label)
                last = sec.refusal(reply)
    ops = [o for o in ops_of(len(hist)) if not (hist and o[0] == "set" and hist[-1][0] == "set")]
    return Outcome(bad, obs=(hist[-1:], last), canon=hist, ops=ops)


# -- several requests at once ---------------------------------------------------------------------------------------------------------

SENDERS = {"good": ("ven1", "ven1", "ven1"), "impostor": ("ven1", "stranger", "stranger"), "unsigned": ("ven1", "ven1", "none"),
           "other": ("ven2", "ven2", "ven2"), "gone": ("ven3", "ven2", "ven2"), "crossed": ("ven2", "ven1", "ven1")}


def sched_params(tier):
    names = list(SENDERS)
    out = []
    for lookup in ("ven", "fp", "ven+fp"):
        for pair in itertools.product(names, names):
            out.append((lookup, pair, "update"))
        for trio in itertools.combinations(names, 3) if tier == "thorough" else [("good", "impostor", "gone"), ("good", "other", "crossed")]:
            out.append((lookup, trio, "poll"))
    return out


class Sched(sec.Vtn):
    pass


def run_sched(param, ch):
    lookup, senders, label = param
    with World() as loop:
        gates = []

        async def gate(name):
            f = loop.create_future()
            gates.append(f)
            await f
        app = sec.Vtn(lookup=lookup, style="async", gate=gate)
        tasks = []
        for i, s in enumerate(senders):
            ven, der, sig = SENDERS[s]
            ep, xml = sec.messages(ven, f"rq{i}")[label]
            x = xml if sig == "none" else sign.sign(xml, sig, nonce=f"n{i}")
            tasks.append(loop.create_task(app.post(x, der=sign.der(der), endpoint=ep)))
        pending = list(range(len(tasks)))
        loop.settle()
        while gates:
            g = ch.choose(list(range(len(gates))))
            gates.pop(g).set_result(None)
            loop.settle()
        bad, obs = [], []
        good = 0
        for t, s in zip(tasks, senders):
            if not t.done():
                bad.append(("together/stuck", f"{senders}: the request of {s} is never answered"))
                continue
            reply = t.result()
            r = sec.refusal(reply)
            obs.append(r)
            ok = s in ("good", "other")
            good += ok
            if ok and not sec.accepted(reply):
                bad.append(("together/refused", f"{senders}, lookup {lookup}: {s} got {reply.summary()}"))
            want = {"463"} | ({"reregister"} if s == "gone" else set())
            if not ok and r not in want:
                bad.append(("together/answer", f"{senders}, lookup {lookup}: {s} got {r} instead of {sorted(want)}"))
        calls = [c for c in app.calls if c[0] in ("poll", "update")]
        if len(calls) != good:
            bad.append(("together/calls", f"{senders}, lookup {lookup}: {len(calls)} calls for {good} proper requests"))
        if label == "poll":
            got = sorted((list(c[1]) + list(c[2].values()))[0] for c in calls)
            if got != sorted(SENDERS[s][0] for s in senders if s in ("good", "other")):
                bad.append(("together/who", f"{senders}: on_poll was called for {got}"))
    return Outcome(bad, obs=(senders, obs))


def scenarios(tier):
    return [
        Product("product", product_cases, run_product, note="lookup style x signature policy x what is known of the VEN x TLS and client certificate; each with every "
                "message type under every kind of signature", chunk=8),
        Product("foreign", foreign_cases, run_foreign, note="messages that carry a VTN id, at every endpoint"),
        Histories("changes", run_history, depth={"quick": 3, "thorough": 4}, params=[("ven", "sync"), ("fp", "async"), ("ven+fp", "async")],
                  note="the application's records change between messages; every message is judged by the records of its moment"),
        Schedules("together", run_sched, sched_params(tier), note="two or three requests at once, every order in which asynchronous lookups complete"),
    ]
