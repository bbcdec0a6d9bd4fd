"""C08: only intact messages signed by the expected party are accepted."""
import functools
import itertools
import json
from datetime import timedelta

from .. import boot, wire, sign, sec, tamper, evspec
from ..core import Outcome, Product, Histories
from ..vloop import World
from ..ven import Net, AutoVTN, make_client, start, periodic, closed

LEVEL = "model_checking"
ASSUMPTIONS = ["the sender's key and the cryptographic primitives are not broken; the attacker has a certificate and key of its own, every public certificate and any number of genuine messages",
               "what is not protected by a signature (comments, encoding, additional unsigned objects) may be refused or ignored",
               "a registration that names no VEN is passed to the application unverified, with the fingerprint of the connection (by design)",
               "a VEN without a vtn_fingerprint does not check signatures (by design)"]
TS = wire.when(boot.T0)
VTN_LABELS = ["poll", "request", "created", "register", "cancel", "offer", "update", "report-created", "report-canceled", "canceled"]
OTHER = {"poll": ("ven2", None), "request": ("ven1", "rq9")}


@functools.lru_cache(None)
def content(label):
    """(endpoint, genuine content, what an attacker would like it to be)"""
    ep, xml = sec.messages("ven1")[label]
    if label == "update":
        evil = wire.update_report([{"request_id": "rr1", "specifier_id": "spec1", "intervals": [(boot.T0, "r1", 666)]}], "ven1", "rq1")
    elif label == "created":
        evil = wire.created_event("ven1", [("e1", 0, "optOut")], "rq1")
    elif label == "poll":
        evil = wire.poll("ven1").replace("<ei:venID>", "<ei:venID><!-- -->")
    else:
        evil = sec.messages("ven1", "rq9")[label][1]
    return ep, xml, evil


class App:
    """the VTN and what the genuine message makes it do"""

    def __init__(self, loop, label, style="sync", lookup="ven"):
        self.loop, self.label = loop, label
        self.ep = content(label)[0]
        self.app = sec.Vtn(lookup=lookup, style=style)
        self.base = self.state()

    def state(self):
        return self.app.state()

    def post(self, body):
        n = len(self.app.calls)
        reply = self.loop.run(self.app.post(body, der=sign.der("ven1"), endpoint=self.ep))
        return reply, repr(self.app.calls[n:])

    verdicts = ("400", "403", "463", "reregister")


@functools.lru_cache(None)
def genuine_calls(label):
    with World() as loop:
        a = App(loop, label)
        reply, calls = a.post(sign.sign(content(label)[1], "ven1", TS))
        assert sec.accepted(reply), (label, reply.summary())
        return calls


def judge(a, body, what, must_refuse, key):
    """deliver one message; returns (violations, accepted?)"""
    if anonymous(a.label, body):
        return [], False
    reply, calls = a.post(body)
    bad = []
    if sec.accepted(reply):
        if must_refuse:
            bad.append((f"{key}/accepted", f"{a.label}: {what}: accepted; handler calls {calls}"))
        elif calls != genuine_calls(a.label):
            bad.append((f"{key}/changed", f"{a.label}: {what}: accepted with other content: {calls} instead of {genuine_calls(a.label)}"))
        return bad, True
    r = sec.refusal(reply)
    if r not in a.verdicts:
        bad.append((f"{key}/answer", f"{a.label}: {what}: answered {reply.summary()}"))
    if calls != "[]":
        bad.append((f"{key}/reached", f"{a.label}: {what}: refused with {r}, but handlers were called: {calls}"))
    elif a.state() != a.base:
        bad.append((f"{key}/state", f"{a.label}: {what}: refused with {r}, but the server's state changed"))
    return bad, False


def anonymous(label, body):
    """a registration that names no VEN: nothing to compare a signature with, so the application decides"""
    if label != "register":
        return False
    try:
        return wire.read(body)[1].get("venID") is None
    except Exception:
        return False


def series(make, bodies, key, genuine):
    """Deliver many altered messages to one receiver, which is replaced after each that it accepts; finally the genuine one."""
    bad, obs, n = [], [], 0
    bodies = list(bodies)
    i = 0
    while i < len(bodies):
        with World() as loop:
            a = make(loop)
            ok = False
            while i < len(bodies) and not ok:
                name, must, body = bodies[i]
                i += 1
                n += 1
                b, ok = judge_any(a, body, name, must, key)
                bad += b
                obs.append((ok, must))
                if b and not ok:
                    break
            else:
                if not ok:
                    n += 1
                    for again in (False, True):
                        b, ok = judge_any(a, genuine, "the genuine message " + ("once more" if again else "at last"), again, f"{key}-genuine")
                        bad += b
                        if not again and not ok:
                            bad.append((f"{key}-genuine/refused", f"{a.label}: after altered copies the genuine message is refused: {bodies[max(0, i - 3):i][0][0]}"))
                        if not ok:
                            break
                        if hasattr(a, "rebase"):
                            a.rebase()
                        else:
                            a.base = a.state()
    return bad, obs, n


def judge_any(a, body, what, must, key):
    return (a.judge if hasattr(a, "judge") else functools.partial(judge, a))(body, what, must, key)


# -- the VTN as the receiver ------------------------------------------------------------------------------------------------------------

@functools.lru_cache(None)
def signed(label):
    return sign.sign(content(label)[1], "ven1", TS)


def vtn_list(label, what):
    g = signed(label)
    if what == "edits":
        return tamper.edits(g)
    if what == "moves":
        return (x for x in tamper.edits(g, True) if x[0].startswith("move"))
    return tamper.chars(g)


def vtn_cases(tier):
    for label in VTN_LABELS:
        n = sum(1 for _ in vtn_list(label, "edits"))
        for k in range(0, n, 100):
            yield ["edits", label, k]
    for label in ("update",) if tier == "quick" else VTN_LABELS:
        n = sum(1 for _ in vtn_list(label, "chars"))
        for k in range(0, n, 100):
            yield ["chars", label, k]
    for label in ("update", "created") if tier == "quick" else VTN_LABELS:
        n = sum(1 for _ in vtn_list(label, "moves"))
        for k in range(0, n, 100):
            yield ["moves", label, k]


def run_vtn(case):
    what, label, k = case
    g = signed(label)
    bodies = [(name, tamper.altered(b, g), b) for name, b in itertools.islice(vtn_list(label, what), k, k + 100)]
    bad, obs, n = series(lambda loop: App(loop, label), bodies, what, g)
    return Outcome(bad, obs=obs, steps=n)


def attack_cases(tier):
    return [[label, lookup, style] for label in VTN_LABELS for lookup, style in (("ven", "sync"), ("fp", "sync"), ("ven+fp", "async"))]


def run_attack(case):
    label, lookup, style = case
    _, xml, evil = content(label)
    bad = []
    bodies = [(name, want == "refuse" and tamper.altered(b, signed(label)), b) for name, want, b in tamper.attacks(xml, evil, "ven1", "ven2", TS)]
    for name, who in (("the VTN's own", "vtn"), ("a stranger's", "stranger")):
        bodies += [(name + " signature", True, sign.sign(xml, who, TS)), (name + " signature over other content", True, sign.sign(evil, who, TS))]
    bad, obs, n = series(lambda loop: App(loop, label, style, lookup), bodies, "attack", signed(label))
    with World() as loop:
        for name, b in tamper.variants(xml, "ven1", TS):
            a = App(loop, label, style, lookup)
            reply, calls = a.post(b)
            n += 1
            if not sec.accepted(reply) or calls != genuine_calls(label):
                bad.append(("variant/refused", f"{label}: {name}: answered {reply.summary()}, calls {calls}"))
    return Outcome(bad, obs=(case, obs), steps=n)


# -- the VEN as the receiver ------------------------------------------------------------------------------------------------------------

def ven_contents():
    t = boot.T0
    ev = lambda id, mod=0, level=1, **kw: wire.event(id, mod=mod, start=t + timedelta(minutes=5), signals=[("SIMPLE", "level", [(timedelta(0), timedelta(minutes=10), level)])], **kw)
    return {
        "event": (wire.distribute_event([ev("e1")], "rq1"), wire.distribute_event([ev("e1", level=3)], "rq1")),
        "update": (wire.distribute_event([ev("e0", mod=1, level=2)], "rq1"), wire.distribute_event([ev("e0", mod=1, level=3)], "rq1")),
        "reregister": (wire.request_reregistration("ven1"), wire.request_reregistration("ven1").replace("<ei:venID>", "<ei:venID><!-- -->")),
        "create-report": (wire.create_report([wire.report_request("rr2", "s1", ["b"])], "ven1", "rq1"), wire.create_report([wire.report_request("rr3", "s1", ["a"])], "ven1", "rq1")),
        "cancel-report": (wire.cancel_report("rr1", "ven1", False, "rq1"), wire.cancel_report("rr1", "ven1", True, "rq1")),
        "cancel-registration": (wire.cancel_party_registration("reg1", "ven1", "rq1"), wire.cancel_party_registration("reg1", "ven1", "rq9")),
    }


VEN_LABELS = ["event", "update", "reregister", "create-report", "cancel-report", "cancel-registration"]


class Ven:
    """a VEN that polls; its VTN signs properly, except for what the attacker puts in as the answer to a poll"""

    def __init__(self, loop, label):
        self.loop, self.label, self.n, self.next, self.calls = loop, label, 0, [], []
        auto = AutoVTN(report_requests=[wire.report_request("rr1", "s1", ["a"])])

        def answer(net, rec):
            if rec.type == "oadrPoll" and self.next:
                x = self.next.pop(0)
            else:
                x = auto(net, rec)
                if isinstance(x, tuple):
                    return x
                self.n += 1
                x = sign.sign(x, "vtn", nonce=f"auto{self.n}")
            return boot.FakeResponse(200, x)
        self.net = Net(answer)
        self.client = c = make_client(self.net, vtn_fingerprint=sign.fingerprint("vtn"))
        c.add_handler("on_event", lambda e: self.called("event", e))
        c.add_handler("on_update_event", lambda e: self.called("update", e))
        for r in ("a", "b"):
            c.add_report(lambda: 1.0, resource_id="dev", measurement="voltage", report_specifier_id="s1", r_id=r, sampling_rate=timedelta(seconds=10), report_name="TELEMETRY_USAGE")
        auto.events = [wire.event("e0", start=boot.T0 + timedelta(minutes=5))]
        start(loop, c)
        loop.settle()
        self.poll_job = periodic(c, "poll")[0]
        self.rebase()

    def called(self, what, e):
        self.calls.append((what, json.dumps(evspec.snapshot(e), default=str)))
        return "optIn"

    def rebase(self):
        self.base = self.state()

    def state(self):
        c = self.client
        rr = c.report_requests
        return repr((c.ven_id, c.registration_id, c.poll_frequency, evspec.snapshot(c.received_events), evspec.snapshot(c.responded_events),
                     evspec.snapshot([{k: v for k, v in r.items() if k != "job"} for r in rr] if rr is not None else None),
                     evspec.snapshot(c.incomplete_reports), len(c.reports or []), c.scheduler.running, closed(c),
                     [(j.trigger, sorted(j.trig_args.items(), key=str)) for j in c.scheduler.jobs]))

    def deliver(self, body):
        self.next.append(body)
        k, n = len(self.net.log), len(self.calls)
        self.loop.run(self.poll_job.fire())
        self.loop.settle()
        assert not self.next, "the VEN did not poll"
        return ([self.norm(r) for r in self.net.log[k + 1:]], self.calls[n:], self.state())

    @staticmethod
    def norm(rec):
        def walk(n):
            return (n.tag, tuple(walk(c) for c in n.children) if n.children else "*" if n.tag in ("requestID", "createdDateTime", "eiReportID", "reportRequestID") else n.text)
        return walk(rec.node)

    def judge(self, body, what, must, key):
        try:
            sent, calls, state = self.deliver(body)
        except Exception as e:
            return [(f"{key}/escaped", f"{self.label}: {what}: {type(e).__name__}: {e}")], True
        if not sent and not calls and state == self.base:
            return [], False
        if must:
            return [(f"{key}/accepted", f"{self.label}: {what}: the VEN called {calls}, sent {[m[0] for m in sent]}, state changed: {state != self.base}")], True
        g = genuine_effect(self.label)
        if (sent, calls, state) != g:
            return [(f"{key}/changed", f"{self.label}: {what}: accepted with another effect: {(sent, calls, state)}\nthe genuine one: {g}"[:3000])], True
        return [], True


@functools.lru_cache(None)
def ven_signed(label):
    return sign.sign(ven_contents()[label][0], "vtn", TS)


@functools.lru_cache(None)
def genuine_effect(label):
    with World() as loop:
        v = Ven(loop, label)
        sent, calls, state = v.deliver(ven_signed(label))
        assert sent or calls or state != v.base, label
        return sent, calls, state


def ven_list(label, what):
    g = ven_signed(label)
    return tamper.edits(g) if what == "edits" else tamper.chars(g) if what == "chars" else (x for x in tamper.edits(g, True) if x[0].startswith("move"))


def ven_cases(tier):
    for label in VEN_LABELS:
        n = sum(1 for _ in ven_list(label, "edits"))
        for k in range(0, n, 100):
            yield ["edits", label, k]
    for label in ("event",) if tier == "quick" else VEN_LABELS:
        for what in ("chars",) if tier == "quick" else ("chars", "moves"):
            n = sum(1 for _ in ven_list(label, what))
            for k in range(0, n, 100):
                yield [what, label, k]


def run_ven(case):
    what, label, k = case
    g = ven_signed(label)
    genuine_effect(label)
    bodies = [(name, tamper.altered(b, g), b) for name, b in itertools.islice(ven_list(label, what), k, k + 100)]
    bad, obs, n = series(lambda loop: Ven(loop, label), bodies, "ven-" + what, g)
    return Outcome(bad, obs=obs, steps=n)


def ven_attack_cases(tier):
    out = []
    for label in VEN_LABELS:
        xml, evil = ven_contents()[label]
        n = sum(1 for _ in tamper.attacks(xml, evil, "vtn", "stranger", TS))
        out += [[label, k] for k in range(0, n, 40)] + [[label, -1]]
    return out


def run_ven_attack(case):
    label, k = case
    genuine_effect(label)
    xml, evil = ven_contents()[label]
    bad, obs, n = [], [], 0
    if k >= 0:
        bodies = [(name, want == "refuse" and tamper.altered(b, ven_signed(label)), b) for name, want, b in itertools.islice(tamper.attacks(xml, evil, "vtn", "stranger", TS), k, k + 40)]
        bodies += [("another VEN's signature", True, sign.sign(xml, "ven2", TS)), ("the VEN's own signature", True, sign.sign(xml, "ven1", TS))]
        bad, obs, n = series(lambda loop: Ven(loop, label), bodies, "ven-attack", ven_signed(label))
    else:
        for name, b in tamper.variants(xml, "vtn", TS):
            with World() as loop:
                v = Ven(loop, label)
                n += 1
                if v.deliver(b) != genuine_effect(label):
                    bad.append(("ven-variant/refused", f"{label}: {name}: not accepted like the ordinary signature"))
    return Outcome(bad, obs=(case, obs), steps=n)


# -- altered answers to the VEN's own requests ---------------------------------------------------------------------------------------------

ANSWERS = ["oadrQueryRegistration", "oadrCreatePartyRegistration", "oadrRegisterReport", "oadrRequestEvent"]


def answer_list(msg):
    t = boot.T0
    xml = {"oadrQueryRegistration": wire.created_party_registration(None, None, poll_freq="PT10S"),
           "oadrCreatePartyRegistration": wire.created_party_registration("ven1", "reg1", poll_freq="PT10S"),
           "oadrRegisterReport": wire.registered_report([wire.report_request("rr1", "s1", ["a"])], "ven1"),
           "oadrRequestEvent": wire.distribute_event([wire.event("e0", start=t)])}[msg]
    evil = {"oadrQueryRegistration": wire.created_party_registration("venX", "regX", poll_freq="PT1S"),
            "oadrCreatePartyRegistration": wire.created_party_registration("venX", "regX", poll_freq="PT1S"),
            "oadrRegisterReport": wire.registered_report([wire.report_request("rrX", "s1", ["b"])], "ven1"),
            "oadrRequestEvent": wire.distribute_event([wire.event("eX", start=t)])}[msg]
    g = sign.sign(xml, "vtn", TS)
    for name, want, b in tamper.attacks(xml, evil, "vtn", "stranger", TS):
        yield name, want == "refuse", b
    for name, b in tamper.edits(g):
        if name.startswith(("text", "drop", "comment and more")):
            yield name, tamper.altered(b, g), b


def answer_cases(tier):
    for msg in ANSWERS:
        n = sum(1 for _ in answer_list(msg))
        for k in range(0, n, 25):
            yield [msg, k]


def run_answer(case):
    """The VEN starts; one of the answers it needs for that is altered: it goes on as if there had been no answer."""
    msg, k = case
    bad, obs, n = [], [], 0
    for name, must, body in [("no answer", True, b"")] + list(itertools.islice(answer_list(msg), k, k + 25)):
        with World() as loop:
            auto = AutoVTN(report_requests=[wire.report_request("rr1", "s1", ["a"])])
            auto.events = [wire.event("e0", start=boot.T0)]
            count, calls = [0], []

            def answer(net, rec):
                if rec.type == msg:
                    return boot.FakeResponse(200, body)
                x = auto(net, rec)
                if isinstance(x, tuple):
                    return x
                count[0] += 1
                return boot.FakeResponse(200, sign.sign(x, "vtn", nonce=f"auto{count[0]}"))
            net = Net(answer)
            c = make_client(net, ven_id=None, vtn_fingerprint=sign.fingerprint("vtn"))
            c.add_handler("on_event", lambda e: calls.append(e["event_descriptor"]["event_id"]) or "optIn")
            for r in ("a", "b"):
                c.add_report(lambda: 1.0, resource_id="dev", measurement="voltage", report_specifier_id="s1", r_id=r, sampling_rate=timedelta(seconds=10),
                             report_name="TELEMETRY_USAGE")
            try:
                start(loop, c)
                err = None
            except Exception as e:
                err = type(e).__name__
            loop.settle()
            n += 1
            rr = [x["report_request_id"] for x in c.report_requests or []]
            out = (err, c.ven_id, c.registration_id, str(c.poll_frequency), calls, rr, [r.type for r in net.log], sorted(str(j.trigger) for j in c.scheduler.jobs))
            if name == "no answer":
                silent = out
                continue
            obs.append(out == silent)
            if out == silent:
                continue
            if must:
                bad.append((f"answer-{msg}/accepted", f"{name}: the VEN took it: {out}\nwithout an answer: {silent}"))
            elif "X" in repr(out):
                bad.append((f"answer-{msg}/changed", f"{name}: the VEN took the other content: {out}"))
    return Outcome(bad, obs=(case, obs), steps=n)


# -- keys that change, connections that stay ----------------------------------------------------------------------------

def change_ops():
    return [("key", k) for k in ("ven1", "ven2", "stranger")] + \
           [("send", label, ven, key, conn) for label in ("poll", "update") for ven, key, conn in
            (("ven1", "ven1", "ven1"), ("ven1", "stranger", "stranger"), ("ven1", "tampered", "ven1"), ("ven2", "ven2", "ven2"), ("ven2", "ven1", "ven1"),
             ("ven1", "ven1", "ven2"))]


def run_changes(param, hist):
    """the key that is registered for ven1 changes while messages come in over connections that stay open"""
    lookup, style = param
    bad, last = [], None
    with World() as loop:
        app = sec.Vtn(lookup=lookup, style=style)
        keys = {"ven1": "ven1", "ven2": "ven2"}
        for i, op in enumerate(hist):
            bad = []
            if op[0] == "key":
                keys["ven1"] = last = op[1]
                app.vens["ven1"] = dict(app.vens["ven1"], fingerprint=sign.fingerprint(op[1]))
                continue
            label, ven, key, conn = op[1:]
            ep, xml = sec.messages(ven, f"rq{i}")[label]
            if key == "tampered":
                body = sign.sign(sec.messages(ven, f"rx{i}")[label][1] if label == "update" else xml.replace(">ven1<", ">ven2<"), "ven1", nonce=f"n{i}")
                changed = body.replace(b">rx%d<" % i if label == "update" else b">ven2<", b">rq%d<" % i if label == "update" else b">ven1<")
                assert changed != body
                body = changed
            else:
                body = sign.sign(xml, key, nonce=f"n{i}")
            good, right = key == conn == keys[ven], key == keys[ven]      # the right key over another's connection is C10's business
            before, n = app.state(), len(app.calls)
            reply = loop.run(app.post(body, der=sign.der(conn), endpoint=ep))
            last = sec.refusal(reply)
            where = f"{param} after {hist[:i]}: {op}, the key of ven1 is {keys['ven1']}"
            if good and (not sec.accepted(reply) or len(app.calls) == n):
                bad.append(("changes/refused", f"{where}: answered {reply.summary()}, calls {app.calls[n:]}"))
            if not right and (app.calls[n:] or app.state() != before or last not in App.verdicts):
                bad.append(("changes/accepted", f"{where}: answered {reply.summary()}, calls {app.calls[n:]}"))
    ops = [o for o in change_ops() if not (hist and o[0] == "key" and hist[-1][0] == "key")]
    return Outcome(bad, obs=(hist[-1:], last), canon=hist, ops=ops)


def scenarios(tier):
    return [
        Product("vtn", vtn_cases, run_vtn, note="every single edit at every element, attribute and text of each signed message to the VTN; afterwards the genuine message, twice", chunk=1),
        Product("vtn-attacks", attack_cases, run_attack, note="wrapping, foreign and partial signatures, mixed certificates, mixed messages, second replay protection; and other valid ways to sign", chunk=1),
        Product("ven", ven_cases, run_ven, note="every single edit of each signed message to the VEN", chunk=1),
        Product("ven-attacks", ven_attack_cases, run_ven_attack, note="the same attacks on a VEN", chunk=1),
        Product("ven-answers", answer_cases, run_answer, note="altered answers to the requests with which a VEN starts", chunk=1),
        Histories("changes", run_changes, depth={"quick": 3, "thorough": 4}, params=[("ven", "sync"), ("ven", "async"), ("fp", "sync")],
                  note="the key registered for a VEN changes while genuine, altered and foreign messages come in over connections that stay open"),
    ]
