"""C20: outgoing events and reports are made conformant before they are sent."""
import copy
import itertools
from datetime import timedelta
from fractions import Fraction

from .. import boot, wire
from ..core import Outcome, Product

LEVEL = "model_checking"
ASSUMPTIONS = ["current values of completed and cancelled simple signals are not constrained",
               "payloads and current values are numbers, durations are whole seconds"]

from openleadr import messaging, objects, enums  # noqa: E402

MIN = timedelta(minutes=1)
BASE_SIGNAL = {"name": "LOAD_DISPATCH", "type": "setpoint", "ivs": [(10, 5), (10, 7)], "current": "absent", "measure": None}


def base(n):
    return {"id": f"ev{n}", "status": "far", "mod": n, "prio": 3, "signals": [dict(BASE_SIGNAL, ivs=list(BASE_SIGNAL["ivs"]))],
            "period": 20, "ramp": 7, "required": "never" if n else "always", "created": "set", "targets": "list",
            "tlist": [("ven_id", "ven1"), ("group_id", "g1"), ("ven_id", "v2")]}


# -- deviations from the plain event; each returns nothing and edits the specification ---------------------------------

def sig(i, **kw):
    def f(s):
        while len(s["signals"]) <= i:
            s["signals"].append(dict(BASE_SIGNAL, ivs=list(BASE_SIGNAL["ivs"]), name="x-extra%d" % len(s["signals"])))
        s["signals"][i].update(kw)
    return f


def top(**kw):
    return lambda s: s.update(kw)


def deviations():
    d = {}
    for i in (0, 1, 2):
        for ivs in ([(20, 1)], [(5, 1), (15, 2)], [(30, 1)], [(10, 1), (10, 1), (10, 1)], [(0, 1)], [(10, 3)]):
            if i < 2 or len(ivs) == 1:
                d[f"s{i}.ivs{ivs}"] = sig(i, ivs=ivs)
        for name in ("SIMPLE", "simple"):
            for lv in ((0, 1), (2, 3), (3, 4), (-1, 0), (1, 1.5), (2.0, 0)) if i < 2 else ((1, 4), (1, 2)):
                d[f"s{i}.{name}{lv}"] = sig(i, name=name, type="level", ivs=[(10, lv[0]), (10, lv[1])])
        for cur in (None, 0, 1, 2.5):
            d[f"s{i}.cur{cur}"] = sig(i, current=cur)
        d[f"s{i}.custom"] = sig(i, name="x-SIMPLE", ivs=[(10, 9), (10, -9)], current=4)
    for i in (0, 1):
        d[f"s{i}.volt"] = sig(i, measure="VOLTAGE")
        d[f"s{i}.bad-measure"] = sig(i, measure="nonsense")
    for st in ("near", "active", "none"):
        d[f"status.{st}"] = top(status=st)
    for st in ("far", "near", "active", "none", "completed", "cancelled"):
        for cur in ("absent", None, 0, 2, 2.5):
            def f(s, st=st, cur=cur):
                s["status"] = st
                s["signals"][0].update(name="SIMPLE", type="level", ivs=[(10, 1), (10, 2)], current=cur)
            d[f"simple.{st}.{cur}"] = f
    for p in (0, 10, 45):
        d[f"period.{p}"] = top(period=p)
    for r in ("absent", None, "always", "never", "Always", "", "sometimes", 1):
        d[f"required.{r!r}"] = top(required=r)
    for c in ("absent", None):
        d[f"created.{c}"] = top(created=c)
    for t in ("by_type", "both", "inconsistent", "missing-one", "list+none", "by_type+none"):
        d[f"targets.{t}"] = top(targets=t)
    d["targets.one"] = top(tlist=[("resource_id", "r9")])
    d["targets.same-order"] = top(tlist=[("group_id", "b"), ("group_id", "a"), ("party_id", "p")])
    return d


DEV = deviations()
SCHEMA_ORDER = ["group_id", "group_name", "resource_id", "ven_id", "party_id"]
TAG = {"group_id": "groupID", "group_name": "groupName", "resource_id": "resourceID", "ven_id": "venID", "party_id": "partyID"}


def oracle(spec):
    """None when the event must be refused, else what must be on the wire"""
    totals = [sum(d for d, _ in s["ivs"]) for s in spec["signals"]]
    if len(set(totals)) > 1:
        return None
    for s in spec["signals"]:
        if s["name"] == "SIMPLE" and any(v not in (0, 1, 2, 3) for _, v in s["ivs"]):
            return None
        if s["measure"] == "nonsense":
            return None
    if spec["targets"] in ("inconsistent", "missing-one"):
        return None
    sigs = []
    for s in spec["signals"]:
        cur = None if s["current"] in ("absent", None) else Fraction(s["current"])
        if s["name"] == "SIMPLE" and spec["status"] in ("far", "near", "none"):
            cur = ("zero", cur)
        elif s["name"] == "SIMPLE" and spec["status"] in ("completed", "cancelled"):        # over: 0 or what was given
            cur = ("zero or", cur)
        sigs.append({"name": s["name"], "type": s["type"], "current": cur,
                     "intervals": [(timedelta(minutes=d), Fraction(v)) for d, v in s["ivs"]]})
    return {"event_id": spec["id"], "mod": spec["mod"], "status": spec["status"], "priority": spec["prio"],
            "duration": totals[0] * MIN, "ramp_up": spec["ramp"] * MIN,
            "response_required": spec["required"] if spec["required"] in ("always", "never") else "always",
            "targets": [(TAG[k], v) for o in SCHEMA_ORDER for k, v in spec["tlist"] if k == o],
            "market_context": "http://mc", "signals": sigs,
            "created": boot.CLOCK.now() - 5 * MIN if spec["created"] == "set" else boot.CLOCK.now()}


def build(spec, form):
    start = boot.CLOCK.now() + 30 * MIN
    sigs = []
    for n, s in enumerate(spec["signals"]):
        t, ivs = start, []
        for d, v in s["ivs"]:
            i = {"dtstart": t, "duration": d * MIN, "signal_payload": v}
            ivs.append(objects.Interval(**i) if form == "object" else i)
            t += d * MIN
        k = {"intervals": ivs, "signal_name": s["name"], "signal_type": s["type"], "signal_id": f"sig{n}"}
        if s["current"] != "absent":
            k["current_value"] = s["current"]
        if s["measure"] == "VOLTAGE":
            m = copy.deepcopy(enums.MEASUREMENTS.VOLTAGE)
            k["measurement"] = m if form == "object" else {"name": m.name, "description": m.description, "unit": m.unit, "scale": m.scale}
        elif s["measure"]:
            k["measurement"] = {"name": "nonsense", "description": "x", "unit": "V", "scale": "none"}
        sigs.append(objects.EventSignal(**k) if form == "object" else k)
    desc = {"event_id": spec["id"], "modification_number": spec["mod"], "market_context": "http://mc", "event_status": spec["status"],
            "priority": spec["prio"]}
    if spec["created"] != "absent":
        desc["created_date_time"] = None if spec["created"] is None else boot.CLOCK.now() - 5 * MIN
    per = {"dtstart": start, "duration": spec["period"] * MIN, "ramp_up_period": spec["ramp"] * MIN}
    ev = {"event_signals": sigs}
    tl = [{k: v} for k, v in spec["tlist"]]
    bt = {}
    for k, v in spec["tlist"]:
        bt.setdefault(k, []).append(v)
    t = spec["targets"]
    if t in ("list", "both", "list+none", "missing-one", "inconsistent"):
        ev["targets"] = tl
    if t in ("by_type", "both", "by_type+none"):
        ev["targets_by_type"] = bt
    if t == "inconsistent":
        ev["targets_by_type"] = {"ven_id": ["somebody-else"]}
    if t == "missing-one":
        ev["targets_by_type"] = dict(bt, party_id=["px"])
    if t == "list+none":
        ev["targets_by_type"] = None
    if t == "by_type+none":
        ev["targets"] = None
    if spec["required"] != "absent":
        ev["response_required"] = spec["required"]
    if form == "dict":
        return dict(ev, event_descriptor=desc, active_period=per)
    if form == "nested":      # a dict that holds objects
        return dict(ev, event_descriptor=desc, active_period=per)
    ev = objects.Event(event_descriptor=objects.EventDescriptor(**desc), active_period=objects.ActivePeriod(**per), **ev)
    ev.event_descriptor.event_status = spec["status"]
    if spec["created"] is None:
        ev.event_descriptor.created_date_time = None
    return ev


def run_events(case):
    form, d0, d1 = case
    specs = []
    for n, ds in enumerate((d0, d1)):
        if ds is None:
            continue
        s = base(n)
        for name in ds:
            DEV[name](s)
        specs.append(s)
    with World():
        want = [oracle(s) for s in specs]
        try:
            events = [build(s, form) for s in specs]
            msg = messaging.create_message("oadrDistributeEvent", request_id="rq7", vtn_id="TheVTN",
                                           response={"response_code": 200, "response_description": "OK", "request_id": "rq7"}, events=events)
        except Exception as e:
            if any(w is None for w in want):
                return Outcome(obs="refused")
            return Outcome([("refused-valid", f"{case}: valid content was refused with {e!r}")])
        if any(w is None for w in want):
            return Outcome([("sent-invalid", f"{case}: invalid content was sent")])
        v = []
        mtype, node, err = wire.read(msg)
        if err:
            return Outcome([("schema", f"{case}: {err}")])
        if node.get("requestID") != "rq7" or node.get("vtnID") != "TheVTN":
            v.append(("envelope", f"{case}: {node.get('requestID')}/{node.get('vtnID')}"))
        got = wire.read_events(node)
        if len(got) != len(want):
            v.append(("count", f"{case}: {len(got)} events"))
        for g, w in zip(got, want):
            t = boot.CLOCK.now() + 30 * MIN
            for k, x in w.items():
                y = g[k]
                if k == "signals":
                    y = []
                    for a, b in zip(g["signals"], x):
                        cur = a["current"]
                        if isinstance(b["current"], tuple):     # must be 0 (may be left out when none was given)
                            ok = cur == 0 or (cur is None and b["current"][1] is None) or (b["current"] == ("zero or", cur))
                            cur = b["current"] if ok else cur
                        tt, ivs, ok = t, [], True
                        for st, du, va in a["intervals"]:
                            ok = ok and st == tt
                            tt += du
                            ivs.append((du, va))
                        y.append({"name": a["name"], "type": a["type"], "current": cur, "intervals": ivs if ok else a["intervals"]})
                    y += [{}] * abs(len(g["signals"]) - len(x))
                if y != x:
                    v.append((f"content-{k}", f"{case}: event {w['event_id']} {k}: sent {y}, expected {x}"))
            if g["start"] != t:
                v.append(("start", f"{case}: {g['start']}"))
        return Outcome(v, obs=("sent", tuple((k, repr(g[k])) for g in got for k in ("duration", "response_required", "targets", "signals"))))


from ..vloop import World  # noqa: E402


def single_cases(tier):
    return [(f, (a,), None) for f in ("dict", "object") for a in [*DEV]] + [(f, (), None) for f in ("dict", "object")] + \
           [(f, (), (a,)) for f in ("dict", "object") for a in DEV]


def pair_cases(tier):
    out = []
    for f in ("dict", "object"):
        out += [(f, (a, b), None) for a, b in itertools.permutations(DEV, 2)]
    names = [*DEV] if tier == "thorough" else [n for i, n in enumerate(DEV) if not n.startswith("s2")]
    if tier == "thorough":
        out += [(f, (a,), (b,)) for f in ("dict", "object") for a in names for b in names]
        out += [("dict", t, None) for t in itertools.combinations(names, 3)]
    else:
        key = [n for n in names if n.startswith(("s0.SIMPLE", "s1.ivs", "status", "required", "created", "targets", "s0.cur"))]
        out += [("dict", (a,), (b,)) for a in key for b in key]
    return out


# -- repeated sending of the same content ------------------------------------------------------------------------------

def again_cases(tier):
    return [(f, a) for f in ("dict", "object") for a in DEV]


def run_again(case):
    """a message made twice from the same content is the same message"""
    form, a = case
    s = base(0)
    DEV[a](s)
    with World():
        if oracle(s) is None:
            return Outcome(obs="refused")
        try:
            ev = build(s, form)
            kw = dict(request_id="rq7", vtn_id="TheVTN")
            one = messaging.create_message("oadrDistributeEvent", events=[ev], **kw)
            two = messaging.create_message("oadrDistributeEvent", events=[ev], **kw)
        except Exception as e:
            return Outcome([("refused-valid", f"{case}: {e!r}")])
        if one != two:
            return Outcome([("not-repeatable", f"{case}: the second message from the same content differs")])
        return Outcome(obs="same")


# -- reports -----------------------------------------------------------------------------------------------------------

NAMES = ["TELEMETRY_USAGE", "METADATA_TELEMETRY_USAGE", "TELEMETRY_STATUS", "METADATA_HISTORY_USAGE", "HISTORY_GREENBUTTON", "x-custom"]


def measure_specs():
    """(name, description, unit, valid?)"""
    out = [None]
    for n, desc in enums._MEASUREMENT_DESCRIPTIONS.items():
        for u in enums._ACCEPTABLE_UNITS[n][:2]:
            out.append((n, desc, u))
        out.append((n, desc.swapcase(), enums._ACCEPTABLE_UNITS[n][0]))
        out.append((n, "something else", enums._ACCEPTABLE_UNITS[n][0]))
        out.append((n, desc, "furlong"))
    out += [("customUnit", "my thing", "furlong"), ("customUnit", "RealPower", "W"), ("nonsense", "my thing", "furlong")]
    return out


OFFICIAL = {"currency": ("currency", None), "currencyPerKW": ("currencyPerKW", None), "currencyPerKWh": ("currencyPerKWh", None),
            "currencyPerThm": ("currency", None), "current": ("Current", {"A"}), "energyApparent": ("ApparentEnergy", {"VAh"}),
            "energyReactive": ("ReactiveEnergy", {"VARh"}), "energyReal": ("RealEnergy", {"Wh"}), "frequency": ("Frequency", {"Hz"}),
            "powerApparent": ("ApparentPower", {"VA"}), "powerReactive": ("ReactivePower", {"VAR"}), "powerReal": ("RealPower", {"W"}),
            "pulseCount": ("pulse count", {"count"}), "temperature": ("temperature", {"celsius", "fahrenheit"}),
            "Therm": ("Therm", {"thm"}), "voltage": ("Voltage", {"V"})}


def report_cases(tier):
    ms = measure_specs()
    out = [(n, m, None) for n in NAMES for m in ms]
    few = [m for m in ms if m is None or m[0] in ("voltage", "powerReal", "customUnit", "temperature", "pulseCount", "nonsense")]
    out += [("TELEMETRY_USAGE", a, b) for a in few for b in (ms if tier == "thorough" else few)]
    return out


def run_report(case):
    name, *ms = case
    ms = [m for i, m in enumerate(ms) if i == 0 or m is not None]
    ok = True
    want = []
    for m in ms:
        if m is None:
            want.append(None)
            continue
        n, d, u = m
        if n in OFFICIAL:
            od, units = OFFICIAL[n]
            if d.lower() != od.lower() or (units is not None and u not in units) or (units is None and len(u) != 3):
                ok = False
            want.append((n, od, u))
        else:
            want.append(("customUnit", d, u))
    with World():
        descs = []
        for i, m in enumerate(ms):
            meas = None
            if m is not None:
                meas = {"name": m[0], "description": m[1], "unit": m[2], "scale": "k"}
                if m[0].startswith("power"):
                    meas["power_attributes"] = {"hertz": 60, "voltage": 110, "ac": True}
                if m[0] == "pulseCount":
                    meas["pulse_factor"] = 20
            descs.append({"r_id": f"r{i}", "report_type": "usage", "reading_type": "Direct Read", "market_context": "http://mc",
                          "report_subject": {"end_device_asset": {"mrid": "Sauna"}}, "report_data_source": {"resource_id": "dev"},
                          "sampling_rate": {"min_period": 10 * MIN, "max_period": 15 * MIN, "on_change": False}, "measurement": meas})
        rep = {"report_id": "rep", "report_name": name, "report_specifier_id": "spec1", "created_date_time": boot.CLOCK.now(),
               "duration": timedelta(hours=1), "report_request_id": None, "report_descriptions": descs}
        try:
            msg = messaging.create_message("oadrRegisterReport", request_id="rq7", ven_id="ven1", reports=[rep])
        except Exception as e:
            return Outcome(obs="refused") if not ok else Outcome([("report-refused-valid", f"{case}: {e!r}")])
        if not ok:
            return Outcome([("report-sent-invalid", f"{case}: an impossible measurement was sent")])
        _, node, err = wire.read(msg)
        v = []
        if err:
            v.append(("report-schema", f"{case}: {err}"))
        r = node.find("oadrReport")
        wname = name if name.startswith(("METADATA_", "x-")) else "METADATA_" + name
        if r.get("reportName") != wname:
            v.append(("report-name", f"{case}: sent as {r.get('reportName')}"))
        for d, w, m in zip(r.all("oadrReportDescription"), want, ms):
            got = None
            for c in d.children:
                if c.find("itemUnits") is not None:
                    got = (c.tag, c.get("itemDescription"), c.get("itemUnits"))
                    if m[0].startswith("power"):
                        a = c.find("powerAttributes")
                        if a is None or (a.get("hertz"), a.get("voltage"), a.get("ac")) != ("60", "110", "true"):
                            v.append(("report-power", f"{case}: {a and a.tree()}"))
                    elif m[0] == "pulseCount":
                        if c.get("pulseFactor") is None or float(c.get("pulseFactor")) != 20:
                            v.append(("report-pulse", f"{case}: {c.tree()}"))
                    elif c.get("siScaleCode") != "k":
                        v.append(("report-scale", f"{case}: {c.get('siScaleCode')}"))
            if got != w:
                v.append(("report-measurement", f"{case}: sent {got}, expected {w}"))
            if (d.get("reportDataSource/resourceID"), d.get("reportSubject/endDeviceAsset/mrid"), d.get("reportType"), d.get("readingType"),
                    d.get("marketContext"), d.get("oadrSamplingRate/oadrMinPeriod"), d.get("oadrSamplingRate/oadrMaxPeriod"),
                    d.get("oadrSamplingRate/oadrOnChange")) != ("dev", "Sauna", "usage", "Direct Read", "http://mc", "PT10M", "PT15M", "false"):
                v.append(("report-content", f"{case}: {d.tree()}"))
        if len(r.all("oadrReportDescription")) != len(ms):
            v.append(("report-count", f"{case}: {len(r.all('oadrReportDescription'))} data points"))
        return Outcome(v, obs="sent")


def scenarios(tier):
    return [Product("one-deviation", single_cases, run_events, "every deviation of one event, alone and next to a plain event"),
            Product("deviation-pairs", pair_cases, run_events,
                    "every ordered pair of deviations within an event; pairs over two events; thorough: all triples", chunk=128),
            Product("sent-twice", again_cases, run_again, "the same content sent twice gives the same message"),
            Product("reports", report_cases, run_report, "every measurement (right, wrong case, wrong description, wrong unit) × report name")]
