"""C14: the reports set up are exactly the reports that were chosen."""
import asyncio
import itertools
from datetime import timedelta

from .. import boot, wire
from ..core import Outcome, Histories, Product
from ..vloop import World
from ..vtn import make_server, send
from ..ven import Net, AutoVTN, make_client, start, periodic

LEVEL = "model_checking"
ASSUMPTIONS = ["an application does not choose one data point twice in one registration, nor mixes one-off and periodic data points in one report",
               "request ids are not reused while a report is in force",
               "requests for reports or data points that were never offered are not set up; how they are confirmed is left open"]
S = timedelta(seconds=1)


# == the VTN: what is requested ================================================================================================

def choices():
    """name -> (tuple tail after the callback or a broken value, valid?)"""
    return {"N": None, "A": (10 * S,), "B": (20 * S,), "C": (10 * S, 60 * S), "D": (20 * S, 40 * S), "E": (15 * S, 15 * S), "Z": (0 * S,), "F": (20 * S, 10 * S),
            "str": "junk", "one": "one", "five": "five", "nocb": "nocb", "int": "int", "rint": "rint", "list": "list", "bool": True}


VALID = "ABCDEFZ"
MORE_BROKEN = {"b()": (), "b0": 0, "bFalse": False, "bempty": "", "b[]": [], "b{}": {}}
BROKEN = ["N", "str", "one", "five", "nocb", "int", "rint", "list", "bool"]


def choice(name, cb, r_id=None):
    pre = () if r_id is None else (r_id,)
    if name == "N":
        return None
    if name in MORE_BROKEN:
        return MORE_BROKEN[name]
    if name == "str":
        return "junk"
    if name == "bool":
        return True
    if name == "one":
        return pre + (cb,)
    if name == "five":
        return pre + (cb, 10 * S, 60 * S, 1)
    if name == "nocb":
        return pre + (5, 10 * S)
    if name == "int":
        return pre + (cb, 10)
    if name == "rint":
        return pre + (cb, 10 * S, 60)
    if name == "list":
        return list(pre + (cb, 10 * S))
    return pre + (cb,) + choices()[name]


class Sim:
    def __init__(self, loop, mode, kind):
        self.loop, self.mode, self.kind = loop, mode, kind
        self.server = make_server()
        self.v, self.heard, self.asked_args = [], {}, []
        self.plan = {}                # (ven, resource id) -> choice name
        self.reports = {}             # ven -> list of reports offered, in order
        self.gen = 0
        self.server.add_handler("on_register_report", self.handler())

    def callback(self, me):
        self.heard.setdefault(me, [])

        def cb(data):
            self.heard[me].append(data)
        return cb

    def handler(self):
        if self.mode == "compact":
            def h(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                self.asked_args.append((ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval))
                return choice(self.plan[resource_id], self.callback((resource_id, self.gen)))
            if self.kind == "async":
                async def ah(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                    await asyncio.sleep(0)
                    return h(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)
                return ah
            if self.kind == "mixed":
                n = itertools.count()

                def mh(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                    r = h(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)
                    if next(n) % 2:
                        async def later():
                            return r
                        return later()
                    return r
                return mh
            return h

        def full(report):
            how = self.plan.get(report["report_specifier_id"], "list")
            if how in ("none", "str", "tuple", "empty", "dict"):
                return {"none": None, "str": "junk", "tuple": ("a",), "empty": [], "dict": {}}[how]
            out = []
            for rd in report["report_descriptions"]:
                res = rd["report_data_source"]["resource_id"]
                p = self.plan[res]
                if p == "skip":
                    continue
                out.append(choice(p, self.callback((res, self.gen)), rd["r_id"]))
            if how == "unknown":
                out.insert(0, choice("A", self.callback(("stray", self.gen)), "no-such-id"))
            if how == "cross":                    # names a data point of another report
                out.append(choice("A", self.callback(("stray", self.gen)), "r1"))
            if how == "reversed":
                out.reverse()
            return out
        if self.kind == "async":
            async def afull(report):
                await asyncio.sleep(0)
                return full(report)
            return afull
        return full

    def register(self, ven, reports):
        """reports: [(specifier, name, how, [(r_id, resource, choice, kind)])]"""
        self.gen += 1
        self.asked_args.clear()
        xml, want, args = [], [], []
        for spec, name, how, points in reports:
            self.plan[spec] = how
            rds, chosen = [], []
            for r_id, res, c, kind in points:
                self.plan[res] = c
                m = {"status": dict(measurement=None, report_type="x-resourceStatus", reading_type="x-notApplicable"),
                     "power": dict(measurement="powerReal", unit="W", desc="RealPower", scale="k", ns="power"),
                     "voltage": dict(), "custom": dict(measurement="customUnit", unit="pieces", desc="Eggs", ns="oadr")}[kind]
                rds.append(wire.report_description(r_id, res, min_period="PT10S", max_period="PT2M", **m))
                if name in ("METADATA_TELEMETRY_USAGE", "METADATA_TELEMETRY_STATUS"):
                    if self.mode == "compact":
                        d = {"status": ("Status", None, None), "power": ("RealPower", "W", "k"), "voltage": ("Voltage", "V", "none"),
                             "custom": ("Eggs", "pieces", "none")}[kind]
                        args.append((ven, res, *d, 10 * S, 120 * S))
                    if c in VALID and how in ("list", "unknown", "reversed", "cross"):
                        chosen.append((r_id, res, c, m.get("reading_type", "Direct Read")))
            if how == "reversed":
                chosen.reverse()
            if chosen:
                tails = [choices()[c] for _, _, c, _ in chosen]
                want.append((spec, [(r, rt) for r, _, _, rt in chosen], min(t[0] for t in tails),
                             min(t[1] if len(t) > 1 else t[0] for t in tails), [(r, (res, self.gen)) for r, res, _, _ in chosen]))
            xml.append((spec, name, rds))
        reply = self.loop.run(send(self.server, wire.register_report(xml, ven)))
        if reply.status != 200 or reply.type != "oadrRegisteredReport" or reply.schema_error or reply.resp()[0] != 200:
            self.v.append(("registration-answer", f"{reports}: {reply.summary()} {reply.body[:200]!r}"))
            return None
        # the VTN's record of what this VEN offers
        have = [(r.get("report_specifier_id"), r.get("report_name"), [rd.get("r_id") for rd in r.get("report_descriptions") or []])
                for r in self.server.registered_reports.get(ven, [])[-len(reports):]]
        offers = [(spec, name.replace("METADATA_", ""), [p[0] for p in points]) for spec, name, _, points in reports if name.startswith("METADATA_")]
        if [h for h in have if h[0] in [o[0] for o in offers]] != offers:
            self.v.append(("record", f"{reports}: the VTN has recorded {have}"))
        got = [wire.read_report_request(q) for q in reply.node.all("oadrReportRequest")]
        g = [(q["specifier_id"], list(zip(q["r_ids"], q["reading_types"])), q["granularity"], q["back"]) for q in got]
        w = [x[:4] for x in want]
        if g != w:
            what = ("data-points" if [x[:2] for x in g] != [x[:2] for x in w] else "sampling-interval" if [x[2] for x in g] != [x[2] for x in w]
                    else "reporting-interval")
            self.v.append((f"requested-{what}", f"{reports}: requested {g}, expected {w}"))
        if len({q["request_id"] for q in got}) != len(got):
            self.v.append(("request-id-reused", f"{[q['request_id'] for q in got]}"))
        if self.mode == "compact" and sorted(self.asked_args, key=repr) != sorted(args, key=repr):
            self.v.append(("handler-arguments", f"{reports}: the handler was asked {self.asked_args}, expected {args}"))
        if g != w:
            return None
        return [(q["request_id"], x[4]) for q, x in zip(got, want)]

    def deliver(self, ven, requests, what):
        """send data for every requested data point; exactly the chosen callbacks must get it"""
        want = {}
        for k in self.heard:
            self.heard[k].clear()
        for n, (rid, points) in enumerate(requests):
            xml = [{"request_id": rid, "intervals": [(boot.T0 + i * S, r, n * 10 + i) for i, (r, _) in enumerate(points)]}]
            r = self.loop.run(send(self.server, wire.update_report(xml, ven)))
            for i, (_, me) in enumerate(points):
                want.setdefault(me, []).append([(boot.T0 + i * S, float(n * 10 + i))])
        got = {k: v for k, v in self.heard.items() if v}
        if got != want:
            self.v.append(("callback", f"{what}: callbacks got {got}, expected {want}"))


def one_report(tier):
    names = [c for c in VALID if c != "F"] + BROKEN
    for mode in ("compact", "full"):
        for x in ["F"] + list(MORE_BROKEN):
            for y in ["F", "A", "D", "N", "str"] + list(MORE_BROKEN):
                yield [mode, "sync", "list", [x, y]]
                yield [mode, "async", "list", [y, x, "C"]]
    for mode, kinds in (("compact", ("sync", "async", "mixed")), ("full", ("sync", "async"))):
        for kind in kinds:
            for n in (1, 2, 3):
                pool = names if n < 3 or (kind == "sync" or tier != "quick") else ["N", "A", "C", "str"]
                if mode == "full" and n < 3:
                    pool = pool + ["skip"]
                for cs in itertools.product(pool, repeat=n):
                    if "Z" in cs and any(c in "ABCDE" for c in cs if len(c) == 1):
                        continue
                    yield [mode, kind, "list", list(cs)]
    for how in ("none", "str", "tuple", "empty", "dict", "unknown", "reversed"):
        for kind in ("sync", "async"):
            for cs in (["A"], ["A", "B"], ["N", "D", "C"], ["str", "B"]):
                yield ["full", kind, how, cs]


def crowd(tier):
    for n in (10, 12, 33, 101) if tier == "quick" else (10, 12, 17, 33, 65, 101, 257):
        for kind in ("sync", "async"):
            for pat in (["A"], ["A", "N"], ["N", "N", "B"], ["str", "A", "A"], ["D", "N", "C", "str"]):
                yield ["full", kind, "list", (pat * n)[:n]]
                yield ["compact", kind, "list", (pat * n)[:n]]


def run_one_report(case):
    mode, kind, how, cs = case
    with World() as loop:
        sim = Sim(loop, mode, kind)
        pts = [(f"r{i}", f"res{i}", c, ["voltage", "power", "custom"][i % 3]) for i, c in enumerate(cs)]
        q = sim.register("ven1", [("s1", "METADATA_TELEMETRY_USAGE", how, pts)])
        if q is not None:
            sim.deliver("ven1", q, case)
        return Outcome(sim.v, obs=(case, q and len(q)), steps=2)


def many_reports(tier):
    names = ["METADATA_TELEMETRY_USAGE", "METADATA_TELEMETRY_STATUS", "METADATA_HISTORY_USAGE", "x-other"]
    pats = [["A"], ["N"], ["B", "C"], ["str", "D"], ["nocb"]] if tier != "quick" else [["A"], ["N"], ["str", "D"]]
    for mode in ("compact", "full"):
        for n in (2, 3):
            for ns in itertools.product(names[:4 if n == 2 else 3], repeat=n):
                for ps in itertools.product(pats, repeat=n):
                    if any(p != ["A"] for p, x in zip(ps, ns) if x in names[2:]):
                        continue
                    yield [mode, list(ns), list(ps), "list"]
    for how in ("none", "str", "tuple", "empty", "unknown"):
        for pos in (0, 1, 2):
            yield ["full", [names[0]] * 3, [["A"], ["B", "C"], ["D"]], [how, pos]]
    for pos in (0, 2):
        yield ["full", [names[0]] * 3, [["A"], ["B", "C"], ["D"]], ["cross", pos]]


def run_many_reports(case):
    mode, ns, ps, how = case
    with World() as loop:
        sim = Sim(loop, mode, "sync")
        reports = []
        for i, (n, p) in enumerate(zip(ns, ps)):
            k = "status" if "STATUS" in n else "voltage"
            reports.append((f"s{i}", n, how[0] if how != "list" and how[1] == i else "list",
                            [(f"r{j}", f"res{i}{j}", c, k) for j, c in enumerate(p)]))       # the r_ids repeat across reports
        q = sim.register("ven1", reports)
        if q is not None:
            sim.deliver("ven1", q, case)
        return Outcome(sim.v, obs=(case, q and len(q)), steps=2)


OFFERS = {"x": [("s1", "METADATA_TELEMETRY_USAGE", "list", [("a", "ra", "A", "voltage"), ("b", "rb", "C", "power")])],
          "y": [("s1", "METADATA_TELEMETRY_USAGE", "list", [("a", "ra", "N", "voltage"), ("b", "rb", "B", "power")]),
                ("s2", "METADATA_TELEMETRY_STATUS", "list", [("a", "rc", "D", "status")])],
          "z": [("s3", "METADATA_TELEMETRY_USAGE", "list", [("q", "rd", "E", "custom")])]}


def run_register_hist(mode, hist):
    with World() as loop:
        sim = Sim(loop, mode, "sync")
        known = {}
        for op in hist:
            ven, offer = op
            q = sim.register(ven, OFFERS[offer])
            if q is None:
                break
            known.setdefault(ven, []).extend(q)
            for v, qs in known.items():
                sim.deliver(v, qs, hist)
        ids = [r for qs in known.values() for r, _ in qs]
        if len(set(ids)) != len(ids):
            sim.v.append(("request-id-reused", f"{hist}: {ids}"))
        return Outcome(sim.v, obs=hist, steps=len(hist), canon=hist, ops=[(v, o) for v in ("ven1", "ven2") for o in OFFERS])


def odd_offers(tier):
    """offers that leave optional parts out"""
    for mode in ("compact", "full"):
        for gone in ("descriptions", "measurement", "sampling", "source", "context", "name", "reports", "ids"):
            for pos in (0, 1, 2):
                yield [mode, gone, pos]


def run_odd(case):
    import re
    mode, gone, pos = case
    with World() as loop:
        server = make_server()
        v, asked, heard = [], [], []

        def pick(res):
            return (lambda data, res=res: heard.append((res, data)), 10 * S)
        if mode == "compact":
            def h(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                asked.append(resource_id)
                return pick(resource_id)
        else:
            def h(report):
                return [(rd["r_id"], *pick(rd["r_id"])) for rd in report.get("report_descriptions", [])]
        server.add_handler("on_register_report", h)
        parts = []
        for i in range(3):
            rd = [wire.report_description(f"{i}{c}", f"dev{i}{c}") for c in "ab"]
            if i == pos:
                if gone == "descriptions":
                    rd = []
                elif gone == "measurement":
                    rd = [re.sub(r"<power:voltage>.*</power:voltage>", "", rd[0]), rd[1]]
                elif gone == "sampling":
                    rd = [re.sub(r"<oadr:oadrSamplingRate>.*</oadr:oadrSamplingRate>", "", rd[0]), rd[1]]
                elif gone == "source":
                    rd = [re.sub(r"<ei:reportDataSource>.*</ei:reportDataSource>", "", rd[0]), rd[1]]
                elif gone == "context":
                    rd = [rd[0].replace("<oadr:oadrSamplingRate>", "<emix:marketContext>http://m</emix:marketContext><oadr:oadrSamplingRate>"), rd[1]]
            parts.append((f"s{i}", "METADATA_TELEMETRY_USAGE", rd))
        xml = wire.register_report(parts if gone != "reports" else [], "ven1", report_request_id="same" if gone == "ids" else "0")
        if gone == "name":
            a = xml.split("<ei:reportName>")
            xml = "<ei:reportName>".join(a[:pos + 1]) + re.sub(r"^[^<]*</ei:reportName>", "", a[pos + 1]) + "".join("<ei:reportName>" + x for x in a[pos + 2:])
        reply = loop.run(send(server, xml))
        want = [] if gone == "reports" else [f"s{i}" for i in range(3) if not (i == pos and gone in ("descriptions", "name"))]
        if reply.status != 200 or reply.type != "oadrRegisteredReport" or reply.schema_error or reply.resp()[0] != 200:
            v.append(("odd-offer-answer", f"{case}: {reply.summary()} {reply.body[:200]!r}"))
        else:
            got = [wire.read_report_request(q) for q in reply.node.all("oadrReportRequest")]
            if len({q["request_id"] for q in got}) != len(got):
                v.append(("request-id-reused", f"{case}: {[q['request_id'] for q in got]}"))
            if [q["specifier_id"] for q in got] != want or any(q["r_ids"] != [q["specifier_id"][1] + c for c in "ab"] for q in got):
                v.append(("odd-offer", f"{case}: requested {[(q['specifier_id'], q['r_ids']) for q in got]}, expected both points of {want}"))
        return Outcome(v, obs=case, steps=1)


# == the VEN: what is set up ===================================================================================================

OFFER = {"s1": {"a": (10, 60), "b": (10, 10)}, "s2": {"a": (5, 20), "c": (10, 3600)}, "s3": {"d": (10, 60)}}


class VenSim:
    def __init__(self, loop, registered=(), kind="sync"):
        self.loop = loop
        self.vtn = AutoVTN(report_requests=list(registered))
        self.net = Net(self.vtn)
        self.client = c = make_client(self.net)
        self.v = []
        for spec, pts in OFFER.items():
            for i, (r, (lo, hi)) in enumerate(pts.items()):
                from openleadr.objects import SamplingRate
                val = float(10 * list(OFFER).index(spec) + i)
                c.add_report(self.value(val, kind), resource_id=f"{spec}{r}", measurement="voltage", report_specifier_id=spec, r_id=r,
                             sampling_rate=SamplingRate(min_period=lo * S, max_period=hi * S, on_change=False))
        start(loop, c)
        self.base = None

    @staticmethod
    def value(val, kind):
        if kind == "sync":
            return lambda: val

        async def f():
            await asyncio.sleep(0)
            return val
        return f

    def report_jobs(self):
        # the client's own periodic jobs have distinct periods
        own = set(map(id, periodic(self.client, "poll") + periodic(self.client, "log") + periodic(self.client, "clean")))
        return [j for j in self.client.scheduler.jobs if id(j) not in own]

    def reports(self):
        out = []
        for s in self.net.sent("oadrUpdateReport"):
            if s.schema_error:
                self.v.append(("invalid-report", s.schema_error))
            out.extend(wire.read_update_report(s.node)["reports"])
        return out


def offered(spec, r, gran):
    if spec not in OFFER or r not in OFFER[spec]:
        return False
    lo, hi = OFFER[spec][r]
    return gran == 0 or lo <= gran <= hi


def requests_of(tier):
    rids = [("a",), ("b",), ("a", "b"), ("b", "a"), ("zz",), ("a", "zz"), ("zz", "c"), ("c", "a"), ("a", "b", "c")]
    rates = [(0, 0), (5, 5), (10, 0), (10, 10), (10, 30), (15, 15), (60, 120), (61, 61), (20, 20), (21, 21)]
    for spec in ("s1", "s2", "nope"):
        for r in rids:
            for g, b in rates:
                yield [spec, list(r), g, b, None]
    for spec in ("s1", "s2"):
        for when in (-30, 0, 45):
            yield [spec, ["a"], 0, 0, when]
            yield [spec, ["a", "c", "b"], 0, 0, when]


FEWREQ = [["s1", ["a"], 10, 10, None], ["s2", ["a", "c"], 10, 20, None], ["s1", ["zz"], 10, 10, None], ["s1", ["b", "a"], 0, 0, None],
          ["nope", ["a"], 10, 10, None], ["s2", ["c"], 0, 0, 45], ["s3", ["d"], 15, 15, None], ["s2", ["c", "zz"], 60, 60, None],
          ["s1", ["a", "b"], 30, 30, None], ["s2", ["a"], 10, 0, None]]


def ven_cases(tier):
    for way in ("registered", "poll"):
        for q in requests_of(tier):
            yield [way, "sync", [q]]
        for n in (2, 3):
            for qs in itertools.product(FEWREQ, repeat=n):
                if n == 3 and tier == "quick" and (way == "poll" or len({repr(q) for q in qs}) < 3):
                    continue
                yield [way, "sync" if n == 3 else "async", list(qs)]


def run_ven(case):
    way, kind, qs = case
    xml = []
    for i, (spec, rids, g, b, when) in enumerate(qs):
        iv = None if when is None else (boot.T0 + when * S, "PT10S")
        xml.append(wire.report_request(f"rr{i}", spec, rids, f"PT{g}S", f"PT{b}S", interval=iv))
    with World() as loop:
        sim = VenSim(loop, xml if way == "registered" else (), kind)
        loop.settle()
        if way == "poll":
            sim.vtn.polls.append(wire.create_report(xml))
            loop.run(periodic(sim.client, "poll")[0].fire())
            loop.settle()
        conf = sim.net.sent("oadrCreatedReport")
        if len(conf) != 1 or conf[0].schema_error:
            sim.v.append(("confirmation", f"{case}: {len(conf)} confirmations {[c.schema_error for c in conf]}"))
        ids = [p.text for c in conf for p in c.node.find("oadrPendingReports").children]
        code = [wire.resp(c.node)[0] for c in conf]
        good, want_now, want_later = set(), {}, {}
        for i, (spec, rids, g, b, when) in enumerate(qs):
            ok = [r for r in rids if offered(spec, r, g)]
            if ok:
                good.add(f"rr{i}")
                vals = [(r, float(10 * list(OFFER).index(spec) + list(OFFER[spec]).index(r))) for r in ok]
                once = g == 0 or b == 0
                if once and when is None:
                    want_now[f"rr{i}"] = (spec, vals)
                else:
                    want_later[f"rr{i}"] = (spec, vals, 1 if once else max(1, b // g))
        if not good <= set(ids) or len(set(ids)) != len(ids) or (len(good) == len(qs) and (code != [200] or set(ids) != good)):
            sim.v.append(("confirmation-content", f"{case}: confirmed {ids} with {code}, set up {sorted(good)}"))
        now = {r["request_id"]: (r["specifier_id"], [(x[1], float(x[2])) for x in r["intervals"]]) for r in sim.reports()}
        if now != want_now or len(sim.reports()) != len(want_now):
            sim.v.append(("one-off", f"{case}: sent at once {now}, expected {want_now}"))
        # every periodic report: fire each job a full reporting interval's worth of times
        jobs = sim.report_jobs()
        if len(jobs) != len(want_later):
            sim.v.append(("jobs", f"{case}: {len(jobs)} reports scheduled, expected {sorted(want_later)}"))
        seen = {}
        for j in jobs:
            for k in range(1, 13):
                sim.net.log.clear()
                boot.CLOCK.advance(1)
                try:
                    loop.run(j.fire())
                except Exception as e:
                    sim.v.append(("sampling-fails", f"{case}: {type(e).__name__}: {e}"))
                    break
                loop.settle()
                out = sim.reports()
                if out:
                    for r in out:
                        seen[r["request_id"]] = (r["specifier_id"], [(x[1], float(x[2])) for x in r["intervals"]], k)
                    if len(out) > 1:
                        sim.v.append(("mixed", f"{case}: one job sent {[r['request_id'] for r in out]}"))
                    break
        w = {k: (s, vals * n, n) for k, (s, vals, n) in want_later.items()}
        if seen != w:
            sim.v.append(("periodic", f"{case}: periodic reports {seen}, expected {w}"))
        if loop.errors:
            sim.v.append(("task-error", str(loop.errors[0])[:300]))
        return Outcome(sim.v, obs=(sorted(ids), code, sorted(now), sorted(seen)), steps=len(sim.net.log) + 4)


ITEMS = {None: "", "right": "<power:voltage><power:itemDescription>Voltage</power:itemDescription><power:itemUnits>V</power:itemUnits>"
         "<scale:siScaleCode>none</scale:siScaleCode></power:voltage>",
         "other": "<oadr:current><oadr:itemDescription>Current</oadr:itemDescription><oadr:itemUnits>A</oadr:itemUnits>"
         "<scale:siScaleCode>none</scale:siScaleCode></oadr:current>"}


def item_cases(tier):
    for a, b in itertools.product(ITEMS, repeat=2):
        for way in ("registered", "poll"):
            yield [way, a, b]


def run_items(case):
    way, a, b = case
    xml = [wire.report_request("rr0", "s1", ["a", "b"], "PT10S", "PT10S", measurements={"a": ITEMS[a], "b": ITEMS[b]})]
    with World() as loop:
        sim = VenSim(loop, xml if way == "registered" else ())
        if way == "poll":
            sim.vtn.polls.append(wire.create_report(xml))
            loop.run(periodic(sim.client, "poll")[0].fire())
        sim.net.log.clear()
        for j in sim.report_jobs():
            loop.run(j.fire())
            loop.settle()
        got = [[x[1] for x in r["intervals"]] for r in sim.reports()]
        want = [r for r, m in (("a", a), ("b", b)) if m != "other"]
        if got != ([want] if want else []):
            sim.v.append(("item-base", f"{case}: reports {got}, expected {want}"))
        return Outcome(sim.v, obs=(case, got), steps=3)


def scenarios(tier):
    return [Product("choices", one_report, run_one_report, "every combination of choices for up to three data points", chunk=32),
            Product("crowds", crowd, run_one_report, "reports with up to a hundred (257) data points", chunk=1),
            Product("several-reports", many_reports, run_many_reports, "combinations of report kinds and choices", chunk=16),
            Product("odd-offers", odd_offers, run_odd, "offers without their optional parts", chunk=4),
            Histories("registrations", run_register_hist, {"quick": 3, "thorough": 4}, params=["compact", "full"]),
            Product("set-up", ven_cases, run_ven, "requests for every combination of data points and rates; two and three requests together", chunk=16),
            Product("items", item_cases, run_items, "requests that name the item that is measured", chunk=2)]
