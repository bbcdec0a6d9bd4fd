"""C25: an event added at the VTN arrives as specified."""
import asyncio
import functools
import itertools
import os
import time
from datetime import timedelta, timezone
from fractions import Fraction
from zoneinfo import ZoneInfo

from .. import boot, wire
from ..core import Outcome, Product
from ..vloop import World
from ..vtn import make_server, send

LEVEL = "model_checking"
ASSUMPTIONS = ["intervals follow one another without gaps (the active period's length is then their sum)",
               "durations are whole seconds", "event ids are unique per VEN",
               "target kinds without a place in the message templates (asset, node and service targets) are left to C06"]

from openleadr import objects, enums  # noqa: E402

MIN = timedelta(minutes=1)
TAG = {"group_id": "groupID", "group_name": "groupName", "resource_id": "resourceID", "ven_id": "venID", "party_id": "partyID"}
ORDER = ["groupID", "groupName", "resourceID", "venID", "partyID"]


def cb_plain(ven_id, event_id, opt_type):
    pass


async def cb_async(ven_id, event_id, opt_type, extra=None):
    pass


class CbObj:
    def meth(self, ven_id, event_id, opt_type):
        pass


# -- factors: name -> {level name: spec value}; the first level is the plain one ----------------------------------------

FACTORS = {
    "name": dict.fromkeys(["SIMPLE", "simple", "ELECTRICITY_PRICE", "ENERGY_PRICE", "DEMAND_CHARGE", "BID_PRICE", "BID_LOAD", "BID_ENERGY",
                           "CHARGE_STATE", "LOAD_DISPATCH", "LOAD_CONTROL", "x-custom", "x-1"]),
    "type": dict.fromkeys(["level", "delta", "multiplier", "price", "priceMultiplier", "priceRelative", "setpoint",
                           "x-loadControlCapacity", "x-loadControlLevelOffset", "x-loadControlPercentOffset", "x-loadControlSetpoint"]),
    "durs": dict.fromkeys([(10,), (10, 20), (1, 2, 3, 4, 5), (0,), (1440,), (90, 30), (10080,), (0.5, 61), tuple(range(1, 13)), (1,) * 101]),
    "values": dict.fromkeys([(1, 2, 3), (0, 0, 0), (3, 1, 2), (2.0, 3.0, 1.0)]),
    "form": dict.fromkeys(["dict", "object", "tuple"]),
    "zone": dict.fromkeys(["utc", "+5:45", "Amsterdam", "naive@UTC", "naive@Europe/Amsterdam", "naive@America/New_York"]),
    "start": dict.fromkeys(["soon", "past", "now", "micro", "dst", "winter"]),
    "targets": dict.fromkeys(["none", "target-dict", "target-obj", "list-dict", "list-obj", "by_type", "by_type-str", "targets-dict", "many", "kinds",
                              "many-by_type", "kinds-by_type", "both"]),
    "context": dict.fromkeys(["default", "http://a.example/b?c=d", "oadr://x y", "programme"]),
    "required": dict.fromkeys(["default", "always", "never"]),
    "notification": dict.fromkeys([None, 5, 0.5]),
    "ramp": dict.fromkeys([None, 15, 1]),
    "recovery": dict.fromkeys([None, 3, 1440]),
    "mrid": dict.fromkeys(["none", "one", "two"]),
    "event_id": dict.fromkeys(["given", "generated"]),
    "cb": dict.fromkeys(["plain", "async", "method", "partial", "future", "none"]),
    "how": dict.fromkeys(["add_event", "raw-dict", "raw-object", "raw-no-period", "raw-two-signals", "raw-object-no-period"]),
    "omit": dict.fromkeys(["nothing", "status", "priority", "both"]),
    "order": dict.fromkeys(["in order", "reversed", "rotated"]),
}
PLAIN = {k: next(iter(v)) for k, v in FACTORS.items()}


def valid(c):
    """cases in the stated domain"""
    if c["name"] == "SIMPLE" and c["values"] not in ((1, 2, 3), (0, 0, 0), (3, 1, 2), (2.0, 3.0, 1.0)):
        return False
    if c["mrid"] == "two" and c["how"] == "add_event":
        return False
    if c["omit"] != "nothing" and (c["how"] == "add_event" or "object" in c["how"] and c["omit"] != "priority"):
        return False
    if c["targets"] == "both" and c["how"] == "add_event":
        return False
    if c["how"] != "add_event" and (c["targets"] in ("none", "target-dict", "target-obj", "targets-dict", "by_type-str") or c["event_id"] == "generated"
                                    or c["context"] == "default" or c["required"] == "default" or c["zone"].startswith("naive")
                                    or c["form"] == "tuple"):
        return False
    return True


def fill(c):
    out = dict(PLAIN, **c)
    if out["how"] != "add_event":
        for k, lv in (("targets", "list-dict"), ("context", "http://a.example/b?c=d"), ("required", "always")):
            if k not in c:
                out[k] = lv
    return out


def starts(kind):
    now = boot.CLOCK.now()
    return {"soon": now + 30 * MIN, "past": now - 3 * MIN, "now": now, "micro": now + timedelta(minutes=9, microseconds=123456),
            "dst": boot.real_datetime(2030, 3, 31, 3, 30, tzinfo=boot.UTC), "winter": boot.real_datetime(2031, 1, 1, 0, 0, tzinfo=boot.UTC)}[kind]


def spell(t, zone):
    if zone == "utc":
        return t
    if zone == "+5:45":
        return t.astimezone(timezone(timedelta(hours=5, minutes=45)))
    if zone == "Amsterdam":
        return t.astimezone(ZoneInfo("Europe/Amsterdam"))
    return t.astimezone(ZoneInfo(zone[6:])).replace(tzinfo=None)


def targets(kind, ven):
    """-> (keyword arguments, expected wire targets)"""
    T = objects.Target
    one, two = [("group_id", "g1")], [("ven_id", "v9"), ("ven_id", "v8"), ("group_id", "g1"), ("resource_id", "r1")]
    kinds = [("party_id", "p1"), ("ven_id", "v1"), ("resource_id", "r1"), ("group_name", "n1"), ("group_id", "g1")]
    ds = lambda l: [{k: v} for k, v in l]                                                        # noqa: E731
    def bt(l):                                                                                   # noqa: E306
        out = {}
        for k, v in l:
            out.setdefault(k, []).append(v)
        return out
    kw, exp = {"none": ({}, [("ven_id", ven)]), "target-dict": ({"target": {"group_id": "g1"}}, one),
               "target-obj": ({"target": T(group_id="g1")}, one), "list-dict": ({"targets": ds(one)}, one),
               "list-obj": ({"targets": [T(**d) for d in ds(two)]}, two), "by_type": ({"targets_by_type": bt(one)}, one),
               "by_type-str": ({"targets_by_type": {"group_id": "g1", "ven_id": ["v1"]}}, one + [("ven_id", "v1")]),
               "targets-dict": ({"targets": {"group_id": "g1"}}, one), "many": ({"targets": ds(two)}, two),
               "kinds": ({"targets": ds(kinds)}, kinds), "many-by_type": ({"targets_by_type": bt(two)}, two),
               "kinds-by_type": ({"targets_by_type": bt(kinds)}, kinds), "both": ({"targets": ds(two), "targets_by_type": bt(two)}, two)}[kind]
    exp = [(TAG[k], v) for k, v in exp]
    return kw, sorted(exp, key=lambda x: ORDER.index(x[0]))


def arguments(c, ven, loop):
    """-> (function on the server, expected content)"""
    t = starts(c["start"])
    durs = [timedelta(minutes=d) for d in c["durs"]]
    vals = [c["values"][i % 3] for i in range(len(durs))]
    ivs, want = [], []
    x = t
    for d, v in zip(durs, vals):
        i = {"dtstart": spell(x, c["zone"]), "duration": d, "signal_payload": v}
        ivs.append(objects.Interval(**i) if c["form"] == "object" else i)
        want.append((x, d, Fraction(v)))
        x += d
    if c["order"] != "in order":
        turn = (lambda l: l[::-1]) if c["order"] == "reversed" else (lambda l: l[1:] + l[:1])     # noqa: E731
        ivs, want = turn(ivs), turn(want)
    if c["form"] == "tuple":
        ivs = tuple(ivs)
    tkw, texp = targets(c["targets"], ven)
    per = {k: None if c[f] is None else timedelta(minutes=c[f])
           for k, f in (("notification_period", "notification"), ("ramp_up_period", "ramp"), ("recovery_period", "recovery"))}
    fut = None
    if c["cb"] == "future":
        fut = loop.create_future()
    cb = {"plain": cb_plain, "async": cb_async, "method": CbObj().meth, "partial": functools.partial(cb_async, extra=1), "future": fut, "none": None}[c["cb"]]
    eid = "event-7" if c["event_id"] == "given" else None
    required = "always" if c["required"] == "default" else c["required"]
    ctx = "oadr://unknown.context" if c["context"] == "default" else c["context"]
    exp = {"event_id": eid, "mod": 0, "market_context": ctx, "start": t, "duration": sum(durs, timedelta(0)),
           "notification": per["notification_period"], "ramp_up": per["ramp_up_period"], "recovery": per["recovery_period"],
           "response_required": required, "targets": texp, "signals": [(c["name"], c["type"], want)]}
    mrids = {"none": [], "one": ["Thermostat"], "two": ["Pool_Pump", "x-mine"]}[c["mrid"]]
    if c["how"].endswith("-no-period"):
        exp["ramp_up"] = None
    now, ramp = boot.CLOCK.now(), exp["ramp_up"]
    exp["status"] = ("completed" if exp["duration"] and now >= t + exp["duration"] else "active" if now >= t else
                     "near" if ramp is not None and now >= t - ramp else "far")
    exp["mrids"] = [mrids] + ([[]] if c["how"] == "raw-two-signals" else [])
    if c["how"] == "add_event":
        kw = dict(signal_name=c["name"], signal_type=c["type"], intervals=ivs, callback=cb, **per, **tkw)
        if mrids:
            kw["signal_target_mrid"] = mrids[0]
        if eid:
            kw["event_id"] = eid
        if c["context"] != "default":
            kw["market_context"] = ctx
        if c["required"] != "default":
            kw["response_required"] = required

        def add(server, v):
            return server.add_event(v, **kw) if c["event_id"] == "given" else server.add_event(ven_id=v, **kw)
        return add, exp
    sigs = [dict(signal_name=c["name"], signal_type=c["type"], signal_id="s1", intervals=ivs)]
    if mrids:
        sigs[0]["targets"] = [objects.Target(end_device_asset=objects.EndDeviceAsset(mrid=m)) if "object" in c["how"]
                              else {"end_device_asset": {"mrid": m}} for m in mrids]
    if c["how"] == "raw-two-signals":
        sigs.append(dict(signal_name="x-second", signal_type="delta", signal_id="s2",
                         intervals=[{"dtstart": spell(t, c["zone"]), "duration": exp["duration"], "signal_payload": -4.5}]))
        exp["signals"].append(("x-second", "delta", [(t, exp["duration"], Fraction(-4.5))]))
    desc = dict(event_id=eid, modification_number=0, market_context=ctx, event_status="far", created_date_time=boot.CLOCK.now(), priority=2)
    if c["omit"] in ("status", "both"):
        del desc["event_status"]
    if c["omit"] in ("priority", "both"):
        del desc["priority"]
    ap = dict(dtstart=spell(t, c["zone"]), duration=exp["duration"], **per)
    if c["how"].endswith("-no-period"):
        exp.update(notification=None, ramp_up=None, recovery=None)
    exp["priority"] = desc.get("priority", 0)

    def build():
        if "object" in c["how"]:
            return objects.Event(event_descriptor=objects.EventDescriptor(**desc), **({} if c["how"].endswith("-no-period") else {"active_period": objects.ActivePeriod(**ap)}),
                                 event_signals=[objects.EventSignal(**s) for s in sigs], response_required=required, **tkw)
        raw = dict(event_descriptor=dict(desc), event_signals=[dict(s) for s in sigs], response_required=required, **tkw)
        for s in raw["event_signals"]:
            s["intervals"] = [dict(i) if isinstance(i, dict) else vars(i).copy() for i in s["intervals"]]
        if raw.get("targets"):
            raw["targets"] = [{k: v for k, v in (vars(x) if not isinstance(x, dict) else x).items() if v is not None} for x in raw["targets"]]
        if c["how"] != "raw-no-period":
            raw["active_period"] = dict(ap)
        return raw
    return (lambda server, v: server.add_raw_event(v, build(), callback=cb)), exp


def compare(tag, g, w, v):
    for k, x in w.items():
        if x is None and k == "event_id":
            continue
        y = g[k] if k != "mrids" else [s["mrids"] for s in g["signals"]]
        if k == "signals":
            y = [(s["name"], s["type"], s["intervals"]) for s in g["signals"]]
        if x != y:
            v.append((f"{k}", f"{tag}: {k} was sent as {y!r}, given as {x!r}"))


class tz:
    def __init__(self, zone):
        self.zone = zone[6:] if zone.startswith("naive") else None

    def __enter__(self):
        self.old = os.environ.get("TZ")
        if self.zone:
            os.environ["TZ"] = self.zone
            time.tzset()

    def __exit__(self, *a):
        if self.zone:
            if self.old is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = self.old
            time.tzset()


def run_add(case):
    c = fill(dict(case))
    if not valid(c):
        return Outcome(obs="out of domain")
    v = []
    with tz(c["zone"]), World() as loop:
        async def go():
            server = make_server()
            add, want = arguments(c, "ven1", loop)
            try:
                eid = add(server, "ven1")
            except Exception as e:
                v.append(("refused-valid", f"{case}: a valid event was refused: {e!r}"))
                return None
            if want["event_id"] and eid != want["event_id"] or not isinstance(eid, str):
                v.append(("id-returned", f"{case}: returned {eid!r}"))
            r = await send(server, wire.poll("ven1"))
            if r.status != 200 or r.type != "oadrDistributeEvent" or r.schema_error or len(r.events()) != 1:
                v.append(("not-delivered", f"{case}: poll got {r.summary()} {r.schema_error}"))
                return None
            g = r.events()[0]
            if g["event_id"] != eid:
                v.append(("event-id", f"{case}: {g['event_id']} != {eid}"))
            compare(case, g, want, v)
            again = (await send(server, wire.request_event("ven1"))).events()
            if c["start"] != "dst" and [dict(e, created=0) for e in again] != [dict(g, created=0)]:
                v.append(("second-delivery", f"{case}: the second delivery differs"))
            # the same arguments for a second VEN
            if c["cb"] != "future":
                t2 = [("venID", "ven1")] if c["how"] != "add_event" else None
                try:
                    eid2 = add(server, "ven2")
                except Exception as e:
                    v.append(("refused-second", f"{case}: adding the same for a second VEN was refused: {e!r}"))
                    return None
                r = await send(server, wire.poll("ven2"))
                if r.status != 200 or r.type != "oadrDistributeEvent" or len(r.events()) != 1 or r.events()[0]["event_id"] != eid2:
                    v.append(("second-ven", f"{case}: {r.summary()}"))
                else:
                    w2 = dict(want)
                    if c["targets"] == "none":
                        w2["targets"] = [("venID", "ven2")]
                    del t2
                    compare(f"{case} (second VEN)", r.events()[0], w2, v)
                if not c["event_id"] == "given" and eid2 == eid:
                    v.append(("id-not-unique", f"{case}: {eid}"))
            end = want["start"] + want["duration"]
            if want["duration"] and boot.CLOCK.now() < end:
                # it is active until its end, not longer
                for wait, status in ((end - boot.CLOCK.now() - timedelta(microseconds=1), "active"), (timedelta(microseconds=1), "completed")):
                    boot.CLOCK.advance(wait)
                    r = await send(server, wire.request_event("ven1"))
                    es = r.events() if r.type == "oadrDistributeEvent" else []
                    if [e["status"] for e in es] != [status]:
                        v.append(("later-status", f"{case}: the status should be {status}, the answer to a request is {r.summary()} with {[e['status'] for e in es]}"))
            return repr(sorted((k, repr(x)) for k, x in g.items() if k not in ("event_id", "created")))
        return Outcome(v, obs=loop.run(go()))


def add_cases(tier):
    names = [*FACTORS]
    out = [()]
    for k in names:
        out += [((k, x),) for x in FACTORS[k]]
    for a, b in itertools.combinations(names, 2):
        out += [((a, x), (b, y)) for x in FACTORS[a] for y in FACTORS[b] if x != PLAIN[a] and y != PLAIN[b]]
    out += [(("name", n), ("type", t), ("values", x)) for n in FACTORS["name"] for t in FACTORS["type"] for x in FACTORS["values"] if n != "SIMPLE" or t == "level"]
    trip = ["how", "targets", "zone", "form", "durs", "order"] if tier == "quick" else [n for n in names if n not in ("name", "type", "values")]
    for a, b, d in itertools.combinations(trip, 3):
        out += [((a, x), (b, y), (d, z)) for x in FACTORS[a] for y in FACTORS[b] for z in FACTORS[d]
                if x != PLAIN[a] and y != PLAIN[b] and z != PLAIN[d]]
    return out


# -- invalid events ----------------------------------------------------------------------------------------------------

def bad_cases(tier):
    bads = ["name:BOGUS", "name:Simple", "name:", "type:bogus", "type:Level", "type:x-custom", "type:", "ivs:[]", "ivs:None", "ivs:()", "ivs:{}", "ivs:string",
            "required:sometimes", "required:Always", "required:None", "cb:noargs", "cb:two", "cb:other-names", "level:4", "level:-1", "level:1.5",
            "raw:unequal", "raw:level", "raw:targets-differ", "rawobj:unequal", "rawobj:level",
            "rawobj:targets-differ", "rawobj:signal-types", "rawobj:signal-targets-differ", "rawobj:no-targets"]
    return [(b, when, how) for b in bads for when in ("first", "between", "same-id") for how in ("dict", "object")]


def run_bad(case):
    bad, when, how = case
    kind, _, val = bad.partition(":")
    v = []
    with World() as loop:
        async def go():
            server = make_server()
            t = boot.CLOCK.now() + 30 * MIN
            iv = {"dtstart": t, "duration": 10 * MIN, "signal_payload": 1}
            live = []

            def good(eid):
                server.add_event("ven1", "LOAD_DISPATCH", "setpoint", [dict(iv)], callback=cb_plain, event_id=eid)
                live.append(eid)
            if when != "first":
                good("good1")
                await send(server, wire.poll("ven1"))
            eid = "good1" if when == "same-id" else "bad"
            kw = dict(signal_name="SIMPLE", signal_type="level", intervals=[objects.Interval(**iv) if how == "object" else dict(iv)],
                      callback=cb_plain, event_id=eid, response_required="always")
            try:
                if kind in ("raw", "rawobj"):
                    ivs2 = [dict(iv, duration=(11 if val == "unequal" else 10) * MIN, signal_payload=9 if val == "level" else 1)]
                    sigs = [dict(signal_name="x-a", signal_type="level", signal_id="a", intervals=[dict(iv)]),
                            dict(signal_name="SIMPLE", signal_type="level", signal_id="b", intervals=ivs2)]
                    if val == "no-signals":
                        sigs = [dict(signal_name="x-a", signal_type="level", signal_id="a", intervals=[])]
                    desc = dict(event_id=eid, modification_number=0, market_context="http://m", event_status="far", created_date_time=boot.CLOCK.now())
                    ap = dict(dtstart=t, duration=10 * MIN)
                    tg = dict(targets=[{"ven_id": "ven1"}])
                    if val == "targets-differ":
                        tg["targets_by_type"] = {"ven_id": ["ven2"]}
                    if val == "no-targets":
                        tg = {}
                    asset = {"end_device_asset": {"mrid": "Thermostat"}}
                    if val == "signal-types":           # the targets of a signal are device classes
                        sigs[0]["targets"] = [asset, {"group_id": "g1"}]
                    if val == "signal-targets-differ":
                        sigs[0].update(targets=[asset], targets_by_type={"end_device_asset": [{"mrid": "Pool_Pump"}]})
                    if kind == "rawobj":
                        raw = objects.Event(event_descriptor=objects.EventDescriptor(**desc), active_period=objects.ActivePeriod(**ap),
                                            event_signals=[objects.EventSignal(**s) for s in sigs], **tg)
                    else:
                        raw = dict(event_descriptor=desc, active_period=ap, event_signals=sigs, response_required="always", **tg)
                    server.add_raw_event("ven1", raw, callback=cb_plain)
                else:
                    if kind == "name":
                        kw["signal_name"] = val
                    if kind == "type":
                        kw["signal_type"] = val
                    if kind == "ivs":
                        kw["intervals"] = {"[]": [], "None": None, "()": (), "{}": {}, "string": "PT10M"}[val]
                    if kind == "required":
                        kw["response_required"] = None if val == "None" else val
                    if kind == "cb":
                        kw["callback"] = {"noargs": lambda: None, "two": lambda ven_id, event_id: None, "other-names": lambda a, b, c: None}[val]
                    if kind == "level":
                        kw["intervals"] = [dict(iv), dict(iv, dtstart=t + 10 * MIN, signal_payload=float(val))]
                    server.add_event("ven1", **kw)
                v.append(("accepted-invalid", f"{case}: an invalid event was accepted"))
            except Exception:
                pass
            r = await send(server, wire.poll("ven1"))
            want = [] if when != "first" else []
            got = [e["event_id"] for e in r.events()] if r.status == 200 and r.type == "oadrDistributeEvent" else []
            if r.status != 200 or got != want:
                v.append(("delivered-invalid", f"{case}: after the refusal a poll got {r.summary()} {got}"))
            r = await send(server, wire.request_event("ven1"))
            got = [e["event_id"] for e in r.events()] if r.status == 200 and r.type == "oadrDistributeEvent" else []
            if r.status != 200 or got != live:
                v.append(("disturbed", f"{case}: a request got {r.summary()} {got}, expected {live}"))
            good("good2")
            r = await send(server, wire.poll("ven1"))
            got = [e["event_id"] for e in r.events()] if r.status == 200 and r.type == "oadrDistributeEvent" else []
            if r.status != 200 or sorted(got) != sorted(live) or any(e["signals"][0]["name"] != "LOAD_DISPATCH" for e in r.events()):
                v.append(("disturbed-later", f"{case}: a later poll got {r.summary()} {got}, expected {live}"))
            return "refused"
        return Outcome(v, obs=loop.run(go()))


def scenarios(tier):
    return [Product("add", add_cases, run_add, "every level of every factor, every pair of factor levels; triples of the interacting factors "
                    "(thorough: triples of all factors)", chunk=64),
            Product("invalid", bad_cases, run_bad, "every kind of invalid event × when it is added")]
