"""C21: a report definition is offered exactly as it was declared."""
import copy
import itertools
from datetime import timedelta

from .. import boot, wire
from ..core import Outcome, Product, exc_key
from ..vloop import World
from ..ven import Net, AutoVTN, make_client

LEVEL = "model_checking"
ASSUMPTIONS = ["a unit that a standard measurement does not have is ignored in favour of the standard one, with a warning (existing test)",
               "a scale given for a pulse count, a unit given next to a measurement object, and 'none' given next to an object's own scale are open",
               "a custom measurement comes with a unit; data points of one report are declared with the same duration",
               "a data point declared without a report id joins the report of that name (and collection mode) that exists already"]

# -- what the OpenADR documents say about the standard measurements: element, description, units -------------------------------------------------

CUR = ("AFN", "EUR", "USD", "ZWL")
STANDARD = {"voltage": ("Voltage", ("V",)), "current": ("Current", ("A",)), "energyReal": ("RealEnergy", ("Wh",)), "energyReactive": ("ReactiveEnergy", ("VARh",)),
            "energyApparent": ("ApparentEnergy", ("VAh",)), "powerReal": ("RealPower", ("W",)), "powerReactive": ("ReactivePower", ("VAR",)),
            "powerApparent": ("ApparentPower", ("VA",)), "frequency": ("Frequency", ("Hz",)), "pulseCount": ("pulse count", ("count",)),
            "temperature": ("temperature", ("celsius", "fahrenheit")), "Therm": ("Therm", ("thm",)), "currency": ("currency", CUR), "currencyPerKW": ("currencyPerKW", CUR),
            "currencyPerKWh": ("currencyPerKWh", CUR), "currencyPerThm": ("currency", CUR)}
NAMES = {"voltage": "voltage", "current": "current", "energy_real": "energyReal", "real_energy": "energyReal", "active_energy": "energyReal", "energy_reactive": "energyReactive",
         "reactive_energy": "energyReactive", "energy_apparent": "energyApparent", "apparent_energy": "energyApparent", "active_power": "powerReal", "real_power": "powerReal",
         "power_real": "powerReal", "reactive_power": "powerReactive", "power_reactive": "powerReactive", "apparent_power": "powerApparent", "power_apparent": "powerApparent",
         "frequency": "frequency", "pulse_count": "pulseCount", "temperature": "temperature", "therm": "Therm", "currency": "currency", "currency_per_kw": "currencyPerKW",
         "currency_per_kwh": "currencyPerKWh", "currency_per_thm": "currencyPerThm"}
SCALES = ["p", "n", "micro", "m", "c", "d", "k", "M", "G", "T", "none"]
READINGS = ["Direct Read", "Net", "Allocated", "Estimated", "Summed", "Derived", "Mean", "Peak", "Hybrid", "Contract", "Projected", "x-RMS", "x-notApplicable", "x-mine"]
TYPES = ["reading", "usage", "demand", "setPoint", "deltaUsage", "deltaSetPoint", "deltaDemand", "baseline", "deviation", "avgUsage", "avgDemand", "operatingState",
         "upRegulationCapacityAvailable", "downRegulationCapacityAvailable", "regulationSetpoint", "storedEnergy", "targetEnergyStorage", "availableEnergyStorage", "price", "level",
         "powerFactor", "percentUsage", "percentDemand", "x-resourceStatus", "x-mine"]
REPORTS = ["TELEMETRY_USAGE", "TELEMETRY_STATUS", "HISTORY_USAGE", "HISTORY_GREENBUTTON", "METADATA_TELEMETRY_USAGE", "x-mine"]
RATES = [None, 1, 10, 90, 3600, 86400, [10, 10, False], [1, 3600, True], [60, 86400, False], [900, 900, True]]
IDS = [None, "s1", "12", "007", "a&b <c>", "über", "x y", "INV"]
POWER = [None, [True, 50, 230], [False, 60, 110], [True, 60, 400], [False, 0, 48]]
PA = {"voltage": 110, "ac": False, "hertz": 60}


def objects_():
    """measurements given as dicts and as objects"""
    out = []
    for name in ("voltage", "current", "temperature", "Therm", "currencyPerThm", "energyReactive"):
        desc, units = STANDARD[name]
        out += [{"dict": {"name": name, "description": desc, "unit": units[-1]}}, {"dict": {"name": name, "description": desc.upper(), "unit": units[-1], "scale": "k"}}]
        out += [{"obj": {"name": name, "description": desc, "unit": units[-1]}}, {"obj": {"name": name, "description": desc, "unit": units[-1], "scale": "m"}}]
    for name in ("powerReal", "powerReactive", "powerApparent"):
        desc, units = STANDARD[name]
        out += [{"dict": {"name": name, "description": desc, "unit": units[0], "power_attributes": PA}},
                {"obj": {"name": name, "description": desc, "unit": units[0], "scale": "k", "power_attributes": PA}}]
    out += [{"dict": {"name": "customUnit", "description": "rainbows", "unit": "rb"}}, {"dict": {"name": "rainbows", "description": "double & more", "unit": "rb"}},
            {"obj": {"name": "customUnit", "description": "rainbows", "unit": "rb"}}, {"obj": {"name": "rainbows", "description": "rb <2>", "unit": "a&b", "scale": "M"}},
            {"obj": {"name": "pulseCount", "description": "pulse count", "unit": "count", "pulse_factor": 5}},
            {"dict": {"name": "pulseCount", "description": "pulse count", "unit": "count", "pulse_factor": 12}}, {"obj": {"name": "voltage", "description": "VOLTAGE", "unit": "V"}}]
    return out


OBJ = objects_()
BASE = {"m": "voltage"}
INVALID = [{"m": "voltage", "name": "telemetry"}, {"m": "voltage", "name": ""}, {"m": "voltage", "reading": "direct read"}, {"m": "voltage", "reading": ""}, {"m": "voltage", "type": "Reading"},
           {"m": "voltage", "scale": "kilo"}, {"m": "voltage", "scale": "K"}, {"m": "voltage", "scale": ""}, {"m": "voltage", "mode": "all"}, {"m": "voltage", "mode": "wrong-full"},
           {"m": None}, {"m": {"dict": {"name": "voltage", "description": "Voltage"}}}, {"m": {"dict": {"name": "voltage", "unit": "V"}}},
           {"m": {"dict": {"description": "Voltage", "unit": "V"}}}, {"m": {"dict": {"name": "voltage", "description": "Current", "unit": "V"}}},
           {"m": {"dict": {"name": "voltage", "description": "Voltage", "unit": "A"}}}, {"m": {"dict": {"name": "powerReal", "description": "RealPower", "unit": "W"}}},
           {"m": {"dict": {"name": "powerReal", "description": "RealPower", "unit": "W", "power_attributes": {"voltage": 1, "ac": True}}}},
           {"m": {"obj": {"name": "voltage", "description": "Tension", "unit": "V", "scale": "none"}}}, {"m": {"obj": {"name": "voltage", "description": "Voltage", "unit": "W", "scale": "k"}}},
           {"m": {"obj": {"name": "powerReal", "description": "RealPower", "unit": "W", "scale": "k"}}}]


# -- running a sequence of declarations ------------------------------------------------------------------------------------------------------

def declare(client, d, n, calls):
    """declare d (the n-th declaration); -> (report id, data point id) or the exception"""
    from openleadr import objects
    m = d["m"]
    if isinstance(m, dict):
        (kind, x), = copy.deepcopy(m).items()
        if kind == "dict":
            m = x
        else:
            if "power_attributes" in x:
                x["power_attributes"] = objects.PowerAttributes(**x["power_attributes"])
            m = objects.Measurement(**x)
    before = copy.deepcopy(m)
    kw = dict(resource_id=d.get("res", f"dev{n}"), measurement=m)
    for k, arg in (("scale", "scale"), ("unit", "unit"), ("spec", "report_specifier_id"), ("rid", "r_id"), ("name", "report_name"), ("reading", "reading_type"), ("type", "report_type"),
                   ("mc", "market_context")):
        if d.get(k) is not None:
            kw[arg] = d[k]
    r = d.get("rate")
    if r is not None:
        kw["sampling_rate"] = objects.SamplingRate(timedelta(seconds=r[0]), timedelta(seconds=r[1]), r[2]) if isinstance(r, list) else timedelta(seconds=r)
    if d.get("power"):
        kw.update(power_ac=d["power"][0], power_hertz=d["power"][1], power_voltage=d["power"][2])
    if d.get("dur"):
        kw["report_duration"] = timedelta(seconds=d["dur"])
    mode = d.get("mode", "incremental")
    if mode == "full":
        def cb(date_from, date_to, sampling_interval):
            calls.append(n)
            return [(date_from, 100.0 + n)]
    else:
        def cb():
            calls.append(n)
            return 100.0 + n
    if mode != "incremental":
        kw["data_collection_mode"] = mode.replace("wrong-", "")
    try:
        return client.add_report(cb, **kw), m, before
    except Exception as e:
        return e, m, before


def expected(d):
    """-> (element, description, units, scales, power attributes, pulse factor) as sets of permitted values, or None for no measurement"""
    if d.get("name") in ("TELEMETRY_STATUS",):
        return None
    m, given, scale, power = d["m"], d.get("unit"), d.get("scale"), d.get("power") or [True, 50, 230]
    if isinstance(m, dict):
        (kind, x), = m.items()
        name = x["name"] if x["name"] in STANDARD else "customUnit"
        desc = STANDARD[name][0] if name in STANDARD else x["description"]
        own = x.get("scale")
        scales = {own} if own and scale is None else {scale or "none"} if scale != "none" else {"none", own or "none"}
        pa = x.get("power_attributes")
        pulse = x.get("pulse_factor")
        return name, desc, {x["unit"]} | ({given} if given else set()), {None} if pulse else scales, (pa["ac"], pa["hertz"], pa["voltage"]) if pa else None, pulse
    if m.lower() in NAMES:
        name = NAMES[m.lower()]
        desc, units = STANDARD[name]
        unit = given if given in units else units[0]
        return name, desc, {unit}, {None} if name == "pulseCount" else {scale or "none"}, tuple(power) if name.startswith("power") else None, 1000 if name == "pulseCount" else None
    return "customUnit", m, {given}, {scale or "none"}, None, None


def offered(node):
    """oadrRegisterReport -> {report id: [(attributes of a data point)]}"""
    out = []
    for r in node.all("oadrReport"):
        points = []
        for d in r.all("oadrReportDescription"):
            item = next((c for c in d.children if c.find("itemUnits") is not None), None)
            m = None
            if item is not None:
                pa = item.find("powerAttributes")
                m = (item.tag, item.get("itemDescription"), item.get("itemUnits"), item.get("siScaleCode"),
                     None if pa is None else (pa.get("ac") == "true", float(pa.get("hertz")), float(pa.get("voltage"))),
                     None if item.get("pulseFactor") is None else float(item.get("pulseFactor")))
            rate = d.find("oadrSamplingRate")
            points.append({"rid": d.get("rID"), "res": d.get("reportDataSource/resourceID"), "type": d.get("reportType"), "reading": d.get("readingType"),
                           "mc": d.get("marketContext"), "m": m,
                           "rate": None if rate is None else (wire.parse_dur(rate.get("oadrMinPeriod")), wire.parse_dur(rate.get("oadrMaxPeriod")), rate.get("oadrOnChange") == "true")})
        out.append((r.get("reportSpecifierID"), r.get("reportName"), r.get("duration/duration"), points, r.get("createdDateTime")))
    return out


class Model:
    """what must be offered after the declarations so far"""
    def __init__(self):
        self.reports = []           # [id, name, mode, [(rid, declaration, n)], duration]

    def refused(self, d):
        if any(d is x for x in INVALID) or d in INVALID:
            return True
        r = self.target(d)
        if r == "conflict":
            return True
        return bool(r) and d.get("rid") is not None and any(rid == d["rid"] for rid, _, _ in r[3])

    def target(self, d):
        name, mode = d.get("name") or "TELEMETRY_USAGE", d.get("mode", "incremental")
        if d.get("spec"):
            for r in self.reports:
                if r[0] == d["spec"]:
                    return r if (r[1], r[2]) == (name, mode) else "conflict"
            return None
        return next((r for r in self.reports if (r[1], r[2]) == (name, mode)), None)


def run_seq(decls):
    bad, refused = [], 0
    with World() as loop:
        auto = AutoVTN()
        net = Net(auto)
        c = make_client(net, event_status_log_period=10 ** 8, events_clean_up_period=10 ** 8)
        calls, model = [], Model()
        objs = []
        for n, d in enumerate(decls):
            got, m, before = declare(c, d, n, calls)
            objs.append((m, before, n))
            must_fail = model.refused(d)
            may_fail = d.get("scale") is not None and isinstance(d["m"], str) and d["m"].lower() == "pulse_count"
            if isinstance(got, Exception):
                refused += 1
                if not must_fail and not may_fail:
                    bad.append((f"refused:{exc_key(got)}", f"{decls}: declaration {n} was refused: {type(got).__name__}: {got}"))
                continue
            if must_fail:
                bad.append(("accepted", f"{decls}: the invalid declaration {n} was accepted as {got}"))
                break
            if not (isinstance(got, tuple) and len(got) == 2 and all(isinstance(x, str) and x for x in got)):
                bad.append(("ids", f"{decls}: declaration {n} returned {got!r}"))
                break
            spec, rid = got
            r = model.target(d)
            if (d.get("spec") or spec) != spec or (d.get("rid") or rid) != rid or r and r[0] != spec:
                bad.append(("ids", f"{decls}: declaration {n} returned {got!r}" + (f", but belongs to report {r[0]!r}" if r else "")))
                break
            if r is None:
                r = [spec, d.get("name") or "TELEMETRY_USAGE", d.get("mode", "incremental"), [], d.get("dur") or 3600]
                if any(x[0] == spec for x in model.reports):
                    bad.append(("ids", f"{decls}: declaration {n} got the report id of another report: {spec}"))
                model.reports.append(r)
            if any(x[0] == rid for x in r[3]):
                bad.append(("ids", f"{decls}: declaration {n} got the data point id of another: {rid}"))
            r[3].append((rid, d, n))
        requests, points = [], {}

        def ask(rec):
            """the VTN asks for every data point once"""
            if not requests:
                for r in model.reports:
                    for rid, d, n in r[3]:
                        points[f"q{n}"] = (r[0], rid, n)
                        requests.append(wire.report_request(f"q{n}", r[0], [rid], granularity="PT0S", back="PT0S"))
            return wire.registered_report(requests, "ven1", request_id=rec.node.get("requestID"))
        auto.override["oadrRegisterReport"] = ask
        loop.run(c.run())
        loop.settle()
        regs = net.sent("oadrRegisterReport")
        if len(regs) != 1:
            bad.append(("not-offered", f"{decls}: {len(regs)} offers"))
        elif regs[0].schema_error:
            bad.append(("invalid-offer", f"{decls}: {regs[0].schema_error}"))
        else:
            bad += compare(decls, model, offered(regs[0].node))
            values = {}
            for u in net.sent("oadrUpdateReport"):
                for rep in wire.read_update_report(u.node)["reports"]:
                    values.setdefault(str(rep["request_id"]), []).append(rep)
            for q, (spec, rid, n) in points.items():
                reps = values.pop(q, [])
                got = [(r["specifier_id"], p) for r in reps for p in points_of(r)]
                if got != [(spec, (rid, 100.0 + n))] or calls.count(n) != 1:
                    if "INVALID" not in spec:
                        bad.append(("callback", f"{decls}: asked for {(spec, rid)} (declaration {n}) the VEN sent {got} and called {calls}"))
            if values:
                bad.append(("callback", f"{decls}: unasked values {values}"))
        for m, before, n in objs:
            if m != before and not isinstance(m, dict):
                bad.append(("altered", f"{decls}: the measurement object of declaration {n} was changed from {before} to {m}"))
        if loop.errors:
            bad.append(("task-error", f"{decls}: {loop.errors[0]!r}"[:500]))
    return Outcome(bad, obs=(decls, refused), steps=len(decls))


def points_of(rep):
    return [(rid, float(value)) for _, rid, value in rep["intervals"]]


def compare(decls, model, offer):
    bad = []
    want_ids = sorted(r[0] for r in model.reports)
    if sorted(o[0] for o in offer) != want_ids:
        return [("reports", f"{decls}: reports {[o[0] for o in offer]} offered instead of {want_ids}")]
    for spec, name, duration, points, created in offer:
        r = next(x for x in model.reports if x[0] == spec)
        wanted = r[1] if r[1].startswith(("METADATA_", "x-")) else "METADATA_" + r[1]
        if name != wanted:
            bad.append(("report-name", f"{decls}: report {spec} offered as {name} instead of {wanted}"))
        if duration is None or wire.parse_dur(duration) != timedelta(seconds=r[4]):
            bad.append(("duration", f"{decls}: report {spec} offered with duration {duration} instead of {r[4]} s"))
        if sorted(p["rid"] for p in points) != sorted(x[0] for x in r[3]):
            bad.append(("data-points", f"{decls}: report {spec} offered with the data points {[p['rid'] for p in points]} instead of {[x[0] for x in r[3]]}"))
            continue
        for rid, d, n in r[3]:
            p = next(p for p in points if p["rid"] == rid)
            rate = d.get("rate")
            rate = (10, 3600, False) if rate is None else tuple(rate) if isinstance(rate, list) else (rate, rate, False)
            want = {"res": d.get("res", f"dev{n}"), "type": d.get("type") or "reading", "reading": d.get("reading") or "Direct Read", "mc": d.get("mc"),
                    "rate": (timedelta(seconds=rate[0]), timedelta(seconds=rate[1]), rate[2])}
            diff = {k: (p[k], v) for k, v in want.items() if p[k] != v}
            if diff:
                bad.append(("point:" + ",".join(sorted(diff)), f"{decls}: declaration {n} is offered with {diff} (offered, declared)"))
            x, m = expected(d), p["m"]
            if (x is None) != (m is None):
                if x is not None or d.get("m") is None:
                    bad.append(("measurement", f"{decls}: declaration {n} is offered with measurement {m} instead of {x}"))
            elif x is not None:
                wrong = [k for k, ok in (("element", m[0] == x[0]), ("description", m[1] == x[1]), ("unit", m[2] in x[2]), ("scale", m[3] in x[3]),
                                         ("power-attributes", m[4] == x[4]), ("pulse-factor", m[5] == x[5])) if not ok]
                if wrong:
                    bad.append(("measurement:" + ",".join(wrong), f"{decls}: declaration {n} is offered as {m} instead of {x}"))
    return bad


# -- 1. single declarations: every pair of dimensions in full -----------------------------------------------------------------------------------

def dims():
    return {"m": list(NAMES) + ["Voltage", "POWER_REAL", "Pulse_Count"] + OBJ,
            "scale": [None] + SCALES, "name": REPORTS, "rate": RATES, "spec": IDS, "rid": IDS, "reading": READINGS, "type": TYPES, "power": POWER,
            "res": ["dev", "12", "a&b <c>", "007"], "mc": [None, "http://context/1"], "dur": [None, 1, 7200, 86400 * 31], "mode": ["incremental", "full"]}


def single_cases(tier):
    seen = set()
    D = dims()

    def emit(d):
        k = repr(sorted(d.items(), key=str))
        if k in seen:
            return []
        seen.add(k)
        return [[d]]
    for (a, xs), (b, ys) in itertools.combinations(D.items(), 2):
        for x, y in itertools.product(xs, ys):
            yield from emit({**BASE, a: x, b: y})
    # measurement x unit x scale (x report name)
    for m in list(NAMES) + ["rainbows", "Some & thing"]:
        units = [None] + list(STANDARD[NAMES[m]][1]) + ["A", "furlong"] if m in NAMES else ["A", "rb", "a&b", "%"]
        for unit, scale, name in itertools.product(units, [None] + SCALES, REPORTS if tier != "quick" else ["TELEMETRY_USAGE"]):
            if name != "TELEMETRY_STATUS":
                yield from emit({"m": m, "unit": unit, "scale": scale, "name": name})
    for m, scale, power in itertools.product(["active_power", "power_reactive", "apparent_power"], [None, "k"], POWER):
        yield from emit({"m": m, "scale": scale, "power": power})
    for d in INVALID:
        yield from emit(d)


# -- 2. sequences of declarations --------------------------------------------------------------------------------------------------------------

def alphabet():
    out = [{"m": "voltage"}, {"m": "voltage", "scale": "k"}, {"m": "voltage", "spec": "s1"}, {"m": "voltage", "spec": "s1", "scale": "m"}, {"m": "current", "spec": "s1", "rid": "a"},
           {"m": "current", "spec": "s2", "rid": "a"}, {"m": "current", "rid": "a", "scale": "M"}, {"m": "current", "spec": "s1", "rid": "12"}, {"m": "power_real", "power": [False, 60, 110]},
           {"m": "power_real", "spec": "s2", "scale": "k"}, {"m": "active_power", "spec": "s1", "power": [True, 60, 400]}, {"m": "pulse_count", "spec": "s1"}, {"m": "currency", "unit": "EUR"},
           {"m": "currency", "spec": "s2"}, {"m": "temperature", "unit": "fahrenheit", "spec": "s1"}, {"m": "temperature"}, {"m": "rainbows", "unit": "rb", "spec": "s2"},
           {"m": "clouds", "unit": "cl", "scale": "G", "spec": "s1"}, {"m": {"obj": {"name": "voltage", "description": "Voltage", "unit": "V", "scale": "m"}}, "spec": "s1"},
           {"m": {"dict": {"name": "voltage", "description": "Voltage", "unit": "V"}}, "scale": "k", "spec": "s2"},
           {"m": "voltage", "name": "TELEMETRY_STATUS"}, {"m": "voltage", "name": "TELEMETRY_STATUS", "spec": "st"}, {"m": "voltage", "name": "TELEMETRY_STATUS", "spec": "s1"},
           {"m": "energy_real", "name": "HISTORY_USAGE"}, {"m": "energy_real", "name": "HISTORY_USAGE", "spec": "h", "mode": "full"}, {"m": "voltage", "name": "x-mine", "spec": "x"},
           {"m": "voltage", "mode": "full"}, {"m": "voltage", "mode": "full", "spec": "s1", "rid": "f"}, {"m": "voltage", "rate": 60, "spec": "s1", "rid": "b"},
           {"m": "voltage", "rate": [1, 3600, True], "rid": "b"}, {"m": "voltage", "reading": "Peak", "type": "usage", "mc": "http://c", "spec": "s1"},
           {"m": "voltage", "res": "dev"}, {"m": "current", "res": "dev", "spec": "s1"}]
    return out


def seq_cases(tier):
    A, inv = alphabet(), INVALID
    yield []
    for a, b in itertools.product(A, repeat=2):
        yield [a, b]
    for a, b in itertools.product(A, inv):
        yield [a, b]
        yield [b, a]
    small = [A[i] for i in (0, 1, 2, 4, 5, 6, 9, 20, 22, 26, 27, 28)]
    for t in itertools.product(small, repeat=3):
        yield list(t)
    for i in inv:
        for a, b in itertools.product(small[:6], repeat=2):
            yield [a, i, b]
    if tier != "quick":
        for t in itertools.product(A, repeat=3):
            yield list(t)
        for t in itertools.product(small[:8], repeat=4):
            yield list(t)


def scenarios(tier):
    return [
        Product("single", single_cases, run_seq, note="one declaration: every pair of dimensions in full, measurement x unit x scale (x report name), invalid declarations"),
        Product("sequences", seq_cases, run_seq, note="all ordered pairs of declarations, triples over a smaller alphabet, with invalid ones in every place; offer and callbacks compared"),
    ]
