"""C22: opt schedules are created and cancelled only on the VTN's acknowledgement."""
import itertools
from datetime import datetime, timedelta, timezone

from .. import boot, wire
from ..core import Outcome, Product, Histories, Schedules, exc_key
from ..vloop import World
from ..ven import Net, AutoVTN, make_client

LEVEL = "model_checking"
ASSUMPTIONS = ["an opt is acknowledged by an oadrCreatedOpt, a cancellation by an oadrCanceledOpt, with response code 200 and the opt's id",
               "an opt that was not acknowledged was not created, so it is unknown to the VEN",
               "opt ids are not used for two opts at the same time; targets are of the kinds group, resource, VEN and party"]

REASONS = ["economic", "emergency", "mustRun", "notParticipating", "outageRunStatus", "overrideStatus", "participating", "x-schedule"]
MRIDS = ["Thermostat", "Strip_Heater", "Baseboard_Heater", "Water_Heater", "Pool_Pump", "Sauna", "Hot_tub", "Smart_Appliance", "Irrigation_Pump",
         "Managed_Commercial_and_Industrial_Loads", "Simple_Residential_On_Off_Loads", "Exterior_Lighting", "Interior_Lighting", "Electric_Vehicle", "Generation_Systems",
         "Load_Control_Switch", "Smart_Inverter", "EVSE", "RESU", "Energy_Management_System", "Smart_Energy_Module", "Storage", "x-mine"]
TAGS = {"group_id": "groupID", "group_name": "groupName", "resource_id": "resourceID", "ven_id": "venID", "party_id": "partyID"}
ANSWERS = ["ack", "ack-452", "ack-469", "ack-other-id", "wrong-type", "response", "response-452", "unreachable", "timeout", "http-500", "empty", "cut", "other-message"]


def answer(kind, op, rec):
    rid, opt = rec.node.get("requestID"), rec.node.get("optID")
    from .c13 import fault
    mine, other = (wire.created_opt, wire.canceled_opt) if op == "create" else (wire.canceled_opt, wire.created_opt)
    return {"ack": lambda: mine(opt, rid), "ack-452": lambda: mine(opt, rid, 452), "ack-469": lambda: mine(opt, rid, 469), "ack-other-id": lambda: mine("another", rid),
            "wrong-type": lambda: other(opt, rid), "response": lambda: wire.oadr_response("ven1", request_id=rid), "response-452": lambda: wire.oadr_response("ven1", 452, request_id=rid),
            "unreachable": lambda: fault("exc:connector"), "timeout": lambda: fault("exc:timeout"), "http-500": lambda: (500, b"oops"), "empty": lambda: (200, b""),
            "cut": lambda: mine(opt, rid)[:-25], "other-message": lambda: wire.updated_report("ven1", rid)}[kind]()


# -- 1. what is sent -------------------------------------------------------------------------------------------------------------------------

def T(**kw):
    return kw


TARGETS = [[T(ven_id="ven1")], [T(group_id="g")], [T(group_name="n")], [T(resource_id="r")], [T(party_id="p")], [T(resource_id="12"), T(resource_id="007")],
           [T(group_id="g1"), T(resource_id="r1"), T(ven_id="v"), T(party_id="p"), T(group_name="n1"), T(group_id="g2")], [T(resource_id="a&b <c>"), T(ven_id="über")]]
SCHEDULES = [{"event": "e1"}, {"event": "e1", "mod": 0}, {"event": "12", "mod": 3}, {"event": "a&b <c>", "mod": 77}, {"comps": [[0, 600]]}, {"comps": [[3600, 1]]},
             {"comps": [[-86400, 86400 * 3 + 61], [7200, 90], [400 * 86400, 3600]]}, {"comps": [[0, 600]], "tz": 120}, {"comps": [[0, 600]], "mod": 5}]
DIMS = {"type": ["optIn", "optOut"], "reason": REASONS, "targets": list(range(len(TARGETS))), "objects": [True, False], "schedule": list(range(len(SCHEDULES))),
        "opt": [None, "o1", "12", "007", "a&b <c>"], "req": [None, "q1", "12", "a&b"], "mrid": [None] + MRIDS, "mc": [None, "http://context/a?b=1&c=2"]}
BASE = {"type": "optOut", "reason": "economic", "targets": 0, "objects": True, "schedule": 0, "opt": "o1", "req": None, "mrid": None, "mc": None}
BAD = [{"type": "optin"}, {"type": ""}, {"type": None}, {"type": "optIn "}, {"reason": "Economic"}, {"reason": "because"}, {"reason": None}, {"reason": "x-own"}, {"mrid": "Toaster"},
       {"mrid": ""}, {"mrid": "thermostat"}, {"targets": None}, {"schedule": None}, {"schedule": "both"}]


def send_cases(tier):
    seen = set()
    for (a, xs), (b, ys) in itertools.combinations(DIMS.items(), 2):
        for x, y in itertools.product(xs, ys):
            d = {**BASE, a: x, b: y}
            k = repr(d)
            if k not in seen:
                seen.add(k)
                yield d
    for d in itertools.product(*(DIMS[k] for k in ("type", "targets", "objects", "schedule"))):
        yield {**BASE, **dict(zip(("type", "targets", "objects", "schedule"), d)), "mrid": "EVSE", "mc": "http://m"}
    if tier != "quick":
        for d in itertools.product(*(DIMS[k] for k in ("type", "reason", "targets", "objects", "schedule", "opt", "req", "mc"))):
            yield {**BASE, **dict(zip(("type", "reason", "targets", "objects", "schedule", "opt", "req", "mc"), d))}
    for bad in BAD:
        for other in ({}, {"schedule": 4}, {"targets": 6}, {"opt": None}):
            yield {**BASE, **other, **bad}


def arguments(d):
    from openleadr import objects
    t = None if d["targets"] is None else TARGETS[d["targets"]]
    kw = {"opt_type": d["type"], "opt_reason": d["reason"], "targets": t if t is None else [objects.Target(**x) if d["objects"] else dict(x) for x in t]}
    s = {} if d["schedule"] is None else {"event": "e1", "comps": [[0, 600]]} if d["schedule"] == "both" else SCHEDULES[d["schedule"]]
    if "event" in s:
        kw["event_id"] = s["event"]
    if "mod" in s:
        kw["modification_number"] = s["mod"]
    if "comps" in s:
        now = boot.CLOCK.now().astimezone(timezone(timedelta(minutes=s.get("tz", 0))))
        comps = [(now + timedelta(seconds=a), timedelta(seconds=b)) for a, b in s["comps"]]
        kw["vavailability"] = objects.Vavailability([objects.VavailabilityComponent(a, b) for a, b in comps]) if d["objects"] else \
            {"components": [{"dtstart": a, "duration": b} for a, b in comps]}
    for k, arg in (("opt", "opt_id"), ("req", "request_id"), ("mrid", "signal_target_mrid"), ("mc", "market_context")):
        if d[k] is not None:
            kw[arg] = d[k]
    return kw, s


def read_opt(n):
    va, q, dev, t = n.find("vavailability/components"), n.find("qualifiedEventID"), n.find("oadrDeviceClass"), n.find("eiTarget")
    comps = [] if va is None else [(wire.parse_when(c.get("properties/dtstart/date-time")), wire.parse_dur(c.get("properties/duration/duration"))) for c in va.all("available")]
    return {"opt": n.get("optID"), "type": n.get("optType"), "reason": n.get("optReason"), "mc": n.get("marketContext"), "ven": n.get("venID"), "req": n.get("requestID"),
            "created": wire.parse_when(n.get("createdDateTime")), "comps": comps, "event": None if q is None else (q.get("eventID"), q.get("modificationNumber")),
            "mrid": None if dev is None else dev.get("endDeviceAsset/mrid"), "targets": sorted((c.tag, c.text) for c in t.children) if t is not None else None}


def run_send(d):
    bad = []
    with World() as loop:
        net = Net(lambda net, rec: answer("ack", "create" if rec.type == "oadrCreateOpt" else "cancel", rec))
        c = make_client(net)
        kw, s = arguments(d)
        valid = d["type"] in ("optIn", "optOut") and d["reason"] in REASONS and d["targets"] is not None and d["schedule"] not in (None, "both") and (d["mrid"] in [None] + MRIDS)
        now = boot.CLOCK.now()
        try:
            got = loop.run(c.create_opt(**kw))
        except Exception as e:
            if valid:
                bad.append((f"send/refused:{exc_key(e)}", f"{d}: {type(e).__name__}: {e}"))
            elif net.log:
                bad.append(("send/sent-invalid", f"{d}: refused with {type(e).__name__}, but sent {[r.type for r in net.log]}"))
            else:
                r = loop.run(c.cancel_opt(d["opt"])) if d["opt"] else False
                if r is not False or net.log:
                    bad.append(("send/kept-invalid", f"{d}: was refused, but cancelling it gives {r!r} and sends {[x.type for x in net.log]}"))
            return Outcome(bad, obs=d)
        if not valid:
            return Outcome([("send/accepted", f"{d}: the invalid opt was accepted: {got!r}, sent {[r.type for r in net.log]}")], obs=d)
        if len(net.log) != 1 or net.log[0].type != "oadrCreateOpt" or net.log[0].service != "EiOpt":
            bad.append(("send/message", f"{d}: sent {[(r.type, r.service) for r in net.log]}"))
        elif net.log[0].schema_error:
            bad.append(("send/schema", f"{d}: {net.log[0].schema_error}"))
        else:
            g = read_opt(net.log[0].node)
            want = {"type": d["type"], "reason": d["reason"], "mc": d["mc"], "ven": "ven1", "created": now, "mrid": d["mrid"],
                    "targets": sorted((TAGS[k], v) for t in TARGETS[d["targets"]] for k, v in t.items()),
                    "comps": [(now + timedelta(seconds=a), timedelta(seconds=b)) for a, b in s.get("comps", [])],
                    "event": (s["event"], str(s.get("mod", 0))) if "event" in s else None}
            if d["opt"]:
                want["opt"] = d["opt"]
            if d["req"]:
                want["req"] = d["req"]
            diff = {k: (g[k], v) for k, v in want.items() if g[k] != v}
            if diff:
                bad.append(("send/content:" + ",".join(sorted(diff)), f"{d}: sent (sent, declared) {diff}"))
            if not g["opt"] or not g["req"]:
                bad.append(("send/ids", f"{d}: opt id {g['opt']!r}, request id {g['req']!r}"))
            if got != g["opt"]:
                bad.append(("send/result", f"{d}: returned {got!r} for opt {g['opt']!r}"))
            r = loop.run(c.cancel_opt(got))
            last = net.log[-1]
            if r is not True or last.type != "oadrCancelOpt" or last.service != "EiOpt" or last.schema_error or last.node.get("optID") != g["opt"] or last.node.get("venID") != "ven1" \
                    or not last.node.get("requestID"):
                bad.append(("send/cancel", f"{d}: cancelling gives {r!r}, sent {last.type} {last.node.tree()} {last.schema_error}"))
        if loop.errors:
            bad.append(("send/task-error", f"{d}: {loop.errors[0]!r}"[:400]))
    return Outcome(bad, obs=d, steps=2)


# -- 2. histories ----------------------------------------------------------------------------------------------------------------------------

OPTS = {"A": dict(opt_type="optOut", opt_reason="economic", event_id="e1"), "B": dict(opt_type="optIn", opt_reason="emergency"), "C": dict(opt_type="optIn", opt_reason="emergency")}


def create_args(name):
    from openleadr import objects
    kw = dict(OPTS[name])
    if "event_id" not in kw:
        kw["vavailability"] = objects.Vavailability([objects.VavailabilityComponent(datetime.now(timezone.utc), timedelta(hours=1))])
    return dict(kw, targets=[objects.Target(resource_id="r")], opt_id=name)


def run_history(param, hist):
    bad = []
    with World() as loop:
        kind = [None]
        auto = AutoVTN()

        def reply(net, rec):
            if rec.type in ("oadrCreateOpt", "oadrCancelOpt"):
                return answer(kind[0], "create" if rec.type == "oadrCreateOpt" else "cancel", rec)
            return auto(net, rec)
        net = Net(reply)
        c = make_client(net)
        known = set()

        def step(op, name, k):
            kind[0] = k
            n = len(net.log)
            boot.CLOCK.advance(1)
            try:
                got = loop.run(c.create_opt(**create_args(name)) if op == "create" else c.cancel_opt(name))
                loop.settle()
            except Exception as e:
                bad.append((f"history/escaped:{exc_key(e)}", f"{hist}: {(op, name, k)}: {type(e).__name__}: {e}"))
                return
            sent = [(r.type, r.node.get("optID")) for r in net.log[n:]]
            if op == "create":
                want, result = [("oadrCreateOpt", name)], name if k == "ack" else False
                if k == "ack":
                    known.add(name)
            elif name in known:
                want, result = [("oadrCancelOpt", name)], k == "ack"
                if k == "ack":
                    known.discard(name)
            else:
                want, result = [], False
            if sent != want:
                bad.append((f"history/{op}-sent", f"{hist}: {(op, name, k)}: sent {sent}, expected {want}"))
            if got is not result and got != result or got is True and result is not True:
                bad.append((f"history/{op}-result", f"{hist}: {(op, name, k)}: returned {got!r} instead of {result!r}"))
        for op in hist:
            bad.clear()
            step(*op)
        state = sorted(known)
        if hist and not bad:
            for n in OPTS:                  # which opts does the VEN know now?
                step("cancel", n, "unreachable")
            if bad:
                bad[:] = [("history/known", f"after the history, knowing {state}: {m}") for k, m in bad]
        ops = [("create", n, k) for n in list(OPTS)[:param] if n not in state for k in ANSWERS] + [("cancel", n, k) for n in list(OPTS)[:param] for k in (ANSWERS if n in state else ["ack"])]
    return Outcome(bad, obs=(state, bool(bad)), canon=(state, len(c.opts), hist[-1:] if param == 2 else None), ops=ops, steps=len(hist))


# -- 3. several at a time ------------------------------------------------------------------------------------------------------------------------

def sched_params(tier):
    kinds = ["ack", "ack-452", "unreachable"]
    out = []
    for ops in ([("create", "A"), ("create", "B")], [("cancel", "A"), ("cancel", "B")], [("cancel", "A"), ("cancel", "A")], [("create", "B"), ("cancel", "A")],
                [("create", "B"), ("cancel", "A"), ("create", "C")], [("cancel", "A"), ("cancel", "A"), ("cancel", "B")]):
        for ks in itertools.product(kinds, repeat=len(ops)):
            out.append([[list(o) for o in ops], list(ks)])
    return out


def run_sched(param, ch):
    """opts are created and cancelled at the same time; every order in which the VTN's answers arrive"""
    ops, kinds = param
    bad = []
    with World() as loop:
        gates, slow = [], [False]
        todo = {}

        async def reply(net, rec):
            op = "create" if rec.type == "oadrCreateOpt" else "cancel"
            if not slow[0]:
                return answer(slow[0] or "ack" if slow[0] is not None else "unreachable", op, rec)
            k = todo[op, rec.node.get("optID")].pop(0)
            g = loop.create_future()
            gates.append((op, rec.node.get("optID"), g))
            await g
            return answer(k, op, rec)
        net = Net(reply)
        c = make_client(net)
        before = {n for o, n in ops if o == "cancel"}
        for n in sorted(before):
            if loop.run(c.create_opt(**create_args(n))) != n:
                bad.append(("together/create", f"{param}: {n} not created"))
        slow[0] = True
        for (o, n), k in zip(ops, kinds):
            todo.setdefault((o, n), []).append(k)
        tasks = [loop.create_task(c.create_opt(**create_args(n)) if o == "create" else c.cancel_opt(n)) for o, n in ops]
        loop.settle()
        while gates:
            i = ch.choose([f"{k}:{g[0]} {g[1]}" for k, g in enumerate(gates)])
            gates.pop(int(i.split(":")[0]))[2].set_result(None)
            loop.settle()
        for (o, n), k, t in zip(ops, kinds, tasks):
            if not t.done():
                bad.append(("together/stuck", f"{param}: {o} {n} never ends"))
            elif t.exception():
                bad.append((f"together/escaped:{exc_key(t.exception())}", f"{param}: {o} {n}: {t.exception()!r}"))
            elif o == "create" or ops.count([o, n]) == 1:
                want = (n if k == "ack" else False) if o == "create" else k == "ack"
                if t.result() != want:
                    bad.append(("together/result", f"{param}: {o} {n} answered with {k} returned {t.result()!r}"))
        known = set(before)
        for (o, n), k in zip(ops, kinds):
            if k == "ack":
                known.add(n) if o == "create" else known.discard(n)
        slow[0] = None
        n0 = len(net.log)
        for n in OPTS:
            loop.run(c.cancel_opt(n))
        probed = {r.node.get("optID") for r in net.log[n0:]}
        if probed != known and not bad:
            bad.append(("together/known", f"{param}: the VEN knows {sorted(probed)} instead of {sorted(known)}"))
    return Outcome(bad, obs=(param, sorted(probed)))


def scenarios(tier):
    return [
        Product("send", send_cases, run_send, note="every pair of opt fields in full (thorough: the product of all but the device class), and invalid ones"),
        Histories("histories", run_history, depth={"quick": 5, "thorough": 8}, params=[2, 3], note="creating and cancelling two or three opts with every answer; afterwards the known opts are probed"),
        Schedules("together", run_sched, sched_params(tier), note="opts created and cancelled at the same time, every order of answers"),
    ]
