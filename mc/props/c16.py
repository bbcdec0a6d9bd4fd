"""C16: report data reaches exactly the callbacks that asked for it."""
import asyncio
import itertools
from datetime import timedelta

from .. import boot, wire
from ..core import Outcome, Histories, Product, Schedules
from ..vloop import World
from ..vtn import make_server, send

LEVEL = "model_checking"
ASSUMPTIONS = ["a VEN reports under the report requests that were made to it",
               "every interval carries its start time; values are floating point numbers or resource states",
               "while no data point at all was ever asked for, reports go to the general on_update_report handler instead"]
SEC = timedelta(seconds=1)


def num(v):
    return f"<ei:payloadFloat><ei:value>{v}</ei:value></ei:payloadFloat>"


class Sim:
    """A VTN with the data points `asked` per VEN: {ven: {specifier: [r_ids]}}; offered but not asked: '-' prefix"""

    def __init__(self, loop, asked, kind="sync", fail=(), gates=None):
        self.loop, self.kind, self.fail, self.gates = loop, kind, set(fail), gates
        self.server = make_server()
        self.asked = asked
        self.got, self.want, self.v = {}, {}, []
        self.stray = []
        self.request = {}                 # (ven, specifier) -> [report request ids]
        self.generation = 0

        def shared(data):
            self.got.setdefault("all", []).append(list(data))
        self.shared = shared              # an application may have one function for all its data
        self.server.add_handler("on_register_report", self.on_register)
        self.server.add_handler("on_update_report", lambda report: self.stray.append(report["report_request_id"]))

    def on_register(self, report):
        ven, spec = self.current
        return [(r, self.callback((ven, spec, r, self.generation)), timedelta(seconds=10)) for r in self.asked[ven][spec]
                if not r.startswith("-")]

    def callback(self, me):
        if self.kind == "shared":
            return self.shared
        self.got[me] = []
        if self.kind == "sync":
            def cb(data):
                self.got[me].append(list(data))
                if me[2] in self.fail:
                    raise RuntimeError("callback")
            return cb

        async def acb(data):
            self.got[me].append(list(data))
            await asyncio.sleep(0)
            if self.gates is not None:
                f = self.loop.create_future()
                self.gates.append((me, f))
                await f
            if me[2] in self.fail:
                raise RuntimeError("callback")
        return acb

    async def register(self, ven):
        self.generation += 1
        specs = list(self.asked[ven])
        # one message per report keeps the handler's view of "which report" trivial
        for spec in specs:
            self.current = (ven, spec)
            rd = [wire.report_description(r.lstrip("-")) for r in self.asked[ven][spec]]
            r = await send(self.server, wire.register_report([(spec, "METADATA_TELEMETRY_USAGE", rd)], ven))
            for q in r.node.all("oadrReportRequest"):
                q = wire.read_report_request(q)
                self.request.setdefault((ven, q["specifier_id"]), []).append((q["request_id"], self.generation))

    def expect(self, ven, reports):
        """reports: [(specifier or None, generation index, [(dt, [(r_id, value)])])]"""
        xml = []
        for spec, g, groups in reports:
            if spec is None:
                rid, gen = "nobody-asked", None
            else:
                rid, gen = self.request[(ven, spec)][g]
            data = {}
            for dt, payloads in groups:
                for r, x in payloads:
                    data.setdefault(r, []).append((dt, x))
            for r, values in data.items():
                me = "all" if self.kind == "shared" else (ven, spec, r, gen)
                if gen is not None and r in self.asked[ven][spec]:
                    self.want.setdefault(me, []).append(values)
            xml.append({"request_id": rid, "specifier_id": spec or "spec",
                        "groups": None if not groups else
                        [(dt, [(r, num(x)) for r, x in p]) for dt, p in groups]})
        return wire.update_report(xml, ven)

    def judge(self, what):
        for me in sorted(set(self.got) | set(self.want), key=repr):
            g, w = self.got.get(me, []), self.want.get(me, [])
            if me == "all":
                g, w = sorted(g), sorted(w)
            if g != w:
                kind = "not-called" if len(g) < len(w) else "called-again" if len(g) > len(w) else "wrong-data"
                self.v.append((f"callback-{kind}", f"{what}: the callback of {me} got {g}, expected {w}"))
        if self.stray and any(self.got):
            self.v.append(("general-handler", f"{what}: on_update_report got reports {self.stray}"))

    def acknowledged(self, r, what):
        if r.status != 200 or r.type != "oadrUpdatedReport" or r.schema_error or r.resp()[0] != 200:
            self.v.append(("not-acknowledged", f"{what}: the report was answered with {r.summary()} {r.body[:300]!r}"))


T = boot.T0
ASK = {"ven1": {"s1": ["a", "b", "-n"], "s2": ["a", "c"]}, "ven2": {"s1": ["a", "b"]}}


def series(rids, order):
    """one value per position; times ascend, descend or are all the same"""
    n = len(rids)
    t = {"up": range(n), "down": range(n, 0, -1), "same": [0] * n}[order]
    return [(r, T + i * SEC, 10.5 + k) for k, (r, i) in enumerate(zip(rids, t))]


def grouped(s, how):
    """how: single payload intervals, or all payloads of equal time in one interval"""
    if how == "single":
        return [(dt, [(r, v)]) for r, dt, v in s]
    out = []
    for r, dt, v in s:
        if out and out[-1][0] == dt:
            out[-1][1].append((r, v))
        else:
            out.append((dt, [(r, v)]))
    return out


def cases_one(tier):
    L = 3 if tier == "quick" else 4
    for n in range(L + 1):
        for rids in itertools.product("abnz", repeat=n):
            for order, how in (("up", "single"), ("down", "single"), ("same", "single"), ("same", "group")):
                if n < 2 and (order, how) != ("up", "single"):
                    continue
                for kind in ("sync", "async", "shared"):
                    yield [kind, [], [["s1", "".join(rids), order, how]]]
    few = ["", "a", "b", "ab", "aba", "c", "z", "ca"]
    for x, y in itertools.product(few, repeat=2):
        for sx, sy in itertools.product(("s1", "s2", None), repeat=2):
            yield ["sync", [], [[sx, x, "up", "single"], [sy, y, "up", "single"]]]
            yield ["shared", [], [[sx, x, "up", "single"], [sy, y, "up", "single"]]]
    for x in few:                                     # failing callbacks
        for fail in ("a", "b", "c", "ab"):
            for kind in ("sync", "async"):
                yield [kind, list(fail), [["s1", x, "up", "single"], ["s2", "ac", "up", "single"]]]


def cases_crowd(tier):
    for n in (10, 33, 101) if tier == "quick" else (10, 17, 33, 65, 101, 257, 520):
        for pat in ("a", "ab", "aab", "abnz", "z", "zzzb"):
            rids = (pat * n)[:n]
            for order, how in (("up", "single"), ("down", "single"), ("same", "single"), ("same", "group")):
                yield ["sync", [], [["s1", rids, order, how]]]
            yield ["async", [], [[("s1", "s2", None)[k % 3], rids[k:k + 3], "up", "single"] for k in range(min(n, 40))]]


def run_one(case):
    kind, fail, reports = case
    with World() as loop:
        sim = Sim(loop, ASK, kind, fail)
        loop.run(sim.register("ven1"))
        loop.run(sim.register("ven2"))
        msg = sim.expect("ven1", [(s, 0, grouped(series(r, o), h)) for s, r, o, h in reports])
        reply = loop.run(send(sim.server, msg))
        sim.acknowledged(reply, case)
        sim.judge(case)
        return Outcome(sim.v, obs=(reports, sorted(map(repr, sim.got.items()))), steps=4)


# -- shapes the schema permits ------------------------------------------------------------------------------------------------

STATUS = "<oadr:oadrPayloadResourceStatus><oadr:oadrOnline>true</oadr:oadrOnline><oadr:oadrManualOverride>false</oadr:oadrManualOverride>" \
         "</oadr:oadrPayloadResourceStatus>"
VALUES = [(num("0"), 0.0), (num("-1.5"), -1.5), (num("1E3"), 1000.0), (num("1e-7"), 1e-7), (num("3"), 3.0), (num("123456789.125"), 123456789.125),
          (num("0.1"), 0.1), (num("+2.0"), 2.0), (num(" 5.5 "), 5.5)]
NAMES = ("TELEMETRY_USAGE", "HISTORY_USAGE", "HISTORY_GREENBUTTON", "TELEMETRY_STATUS", "METADATA_TELEMETRY_USAGE", "x-own")
# further elements that a report may carry
EXTRAS = {"duration": ("<xcal:duration><xcal:duration>PT1M</xcal:duration></xcal:duration>", "", ""),
          "uid": ("<xcal:uid><xcal:text>7</xcal:text></xcal:uid>", "", ""),
          "confidence": ("", "<ei:confidence>90</ei:confidence>", ""),
          "accuracy": ("", "<ei:accuracy>0.5</ei:accuracy>", ""),
          "both": ("", "<ei:confidence>0</ei:confidence><ei:accuracy>0</ei:accuracy>", ""),
          "quality": ("", "", "<oadr:oadrDataQuality>Quality Good - Non Specific</oadr:oadrDataQuality>"),
          "all": ("<xcal:duration><xcal:duration>PT1M</xcal:duration></xcal:duration><xcal:uid><xcal:text>7</xcal:text></xcal:uid>",
                  "<ei:confidence>90</ei:confidence><ei:accuracy>0.5</ei:accuracy>",
                  "<oadr:oadrDataQuality>Quality Good - Non Specific</oadr:oadrDataQuality>")}


def cases_shape(tier):
    for shape in ("no-reports", "no-intervals", "only-unknown", "status", "status-mixed", "empty-and-full", "no-ven"):
        yield ["shape", shape]
    for k in range(len(VALUES)):
        yield ["value", k]
    for n in NAMES:
        for other in NAMES:
            yield ["name", n, other]
    for extra in EXTRAS:
        yield ["extra", extra]
    for ids in (["1"], ["01"], ["1.0"], ["true", "True"], ["None", "none"], ["a b"], ["<&>\"'"], ["ä€"], ["1e5", "100000"], ["2030-01-01T00:00:00Z"],
                ["PT10S"], ["0"], ["1", "01", "1.0", "+1"], ["x" * 200], ["a.b"], ["a", "A"], ["null", "NaN"],
                [str(i) for i in range(12)], [f"p{i}" for i in range(101)]):
        for kind in ("sync", "async"):
            yield ["ids", kind, ids]


def run_shape(case):
    with World() as loop:
        if case[0] == "ids":
            _, kind, ids = case
            sim = Sim(loop, {"ven1": {"s1": ids, "s2": ids[::-1]}}, kind)
            loop.run(sim.register("ven1"))
            msg = sim.expect("ven1", [("s1", 0, [(T, [(i, 1.5 + k)]) for k, i in enumerate(ids + ids)]),
                                      ("s2", 0, [(T + SEC, [(i, 7.5 + k)]) for k, i in enumerate(ids)])])
            sim.acknowledged(loop.run(send(sim.server, msg)), case)
            sim.judge(case)
            return Outcome(sim.v, obs=sorted(map(repr, sim.got.items())), steps=3)
        sim = Sim(loop, ASK)
        loop.run(sim.register("ven1"))
        me, other = ("ven1", "s1", "a", 1), ("ven1", "s1", "b", 1)
        rr = sim.request[("ven1", "s1")][0][0]
        ven = "ven1"
        if case[0] == "value":
            x, v = VALUES[case[1]]
            xml = [{"request_id": rr, "groups": [(T, [("a", x)])]}]
            sim.want[me] = [[(T, v)]]
        elif case[0] == "name":            # the name of the report does not matter, only the request it answers
            xml = [{"request_id": rr, "name": n, "groups": [(T, [("a", num(2.5 + k)), ("z", num(1))]), (T + SEC, [("b", num(k))])]}
                   for k, n in enumerate(case[1:])]
            sim.want[me], sim.want[other] = [[(T, 2.5)], [(T, 3.5)]], [[(T + SEC, 0.0)], [(T + SEC, 1.0)]]
        elif case[0] == "extra":
            iv, pre, post = EXTRAS[case[1]]
            xml = [{"request_id": rr, "groups": [(T, [("a", pre + num(2.5) + post), ("b", pre + num(7) + post)]), (T + SEC, [("b", num(1.5))])]}]
            sim.want[me], sim.want[other] = [[(T, 2.5)]], [[(T, 7.0), (T + SEC, 1.5)]]
        elif case[1] == "no-reports":
            xml = []
        elif case[1] == "no-intervals":
            xml = [{"request_id": rr}, {"request_id": rr, "groups": [(T, [("b", num(2.5))])]}]
            sim.want[other] = [[(T, 2.5)]]
        elif case[1] == "only-unknown":
            xml = [{"request_id": "x", "groups": [(T, [("a", num(2.5))])]}]
        elif case[1] == "status":
            xml = [{"request_id": rr, "groups": [(T, [("a", STATUS)])]}]
        elif case[1] == "status-mixed":
            xml = [{"request_id": rr, "groups": [(T, [("a", STATUS)]), (T, [("b", num(1.5))])]}]
            sim.want[other] = [[(T, 1.5)]]
        elif case[1] == "empty-and-full":
            xml = [{"request_id": "x"}, {"request_id": rr, "groups": [(T, [("b", num(2.5)), ("a", num(1.5))])]}, {"request_id": "y"}]
            sim.want[other], sim.want[me] = [[(T, 2.5)]], [[(T, 1.5)]]
        elif case[1] == "no-ven":
            xml, ven = [{"request_id": rr, "groups": [(T, [("b", num(2.5))])]}], None
            sim.want[other] = [[(T, 2.5)]]
        msg = wire.update_report(xml, ven)
        if case[0] == "extra" and iv:
            msg = msg.replace("</xcal:dtstart><oadr:oadrReportPayload>", "</xcal:dtstart>" + iv + "<oadr:oadrReportPayload>")
        sim.acknowledged(loop.run(send(sim.server, msg)), case)
        if case[0] == "shape" and case[1].startswith("status"):
            g = sim.got.pop(me)
            if [[dt for dt, _ in c] for c in g] != [[T]]:
                sim.v.append(("callback-status", f"{case}: the callback got {g}"))
        sim.judge(case)
        types = [type(v) for c in sim.got.values() for call in c for _, v in call]
        return Outcome(sim.v, obs=(case, sorted(map(repr, sim.got.items())), [t.__name__ for t in types]), steps=2)


# -- histories ----------------------------------------------------------------------------------------------------------------

def run_hist(param, hist):
    kind, fail = param
    with World() as loop:
        sim = Sim(loop, ASK, kind, fail)
        n = 0
        for op in hist:
            n += 1
            boot.CLOCK.advance(1)
            if op[0] == "register":
                loop.run(sim.register(op[1]))
            else:
                _, ven, spec, g, rids = op
                msg = sim.expect(ven, [(spec, g, [(T + n * SEC, [(r, n + 0.5 + k)]) for k, r in enumerate(rids)])])
                sim.acknowledged(loop.run(send(sim.server, msg)), op)
            sim.judge(hist)
        regs = {k: len(v) for k, v in sim.request.items()}
        ops = [("register", v) for v in ASK if regs.get((v, "s1"), 0) < 2]
        for (ven, spec), k in sorted(regs.items()):
            for g in range(k):
                for rids in ("a", "bna", "cz"):
                    ops.append(("update", ven, spec, g, rids))
        if sim.generation:
            ops.append(("update", "ven1", None, 0, "ab"))
        return Outcome(sim.v, obs=sorted(map(repr, sim.got.items())), steps=len(hist),
                       canon=(sorted(regs.items()), sorted((k, len(v)) for k, v in sim.got.items())), ops=ops)


# -- overlapping messages -----------------------------------------------------------------------------------------------------

def run_sched(param, ch):
    first, second, fail = param
    with World() as loop:
        gates = []
        sim = Sim(loop, ASK, "async", fail, gates)
        loop.run(sim.register("ven1"))
        loop.run(sim.register("ven2"))
        msgs = []
        for k, (ven, reports) in enumerate((first, second)):
            msgs.append(sim.expect(ven, [(s, 0, [(T + (k * 10 + i) * SEC, [(r, 1.5 + k * 100 + i)]) for i, r in enumerate(rids)])
                                         for s, rids in reports]))
        tasks, pending = [], list(range(2))
        for _ in range(40):
            loop.settle()
            if not pending and not gates:
                break
            # a new message may arrive at any moment; any callback that waits may go on
            opts = (["send"] if pending else []) + [f"go-{i}" for i in range(len(gates))]
            c = ch.choose(opts)
            if c == "send":
                k = pending.pop(0)
                tasks.append(loop.create_task(send(sim.server, msgs[k])))
            else:
                gates.pop(int(c[3:]))[1].set_result(None)
        loop.settle()
        for t in tasks:
            if not t.done():
                sim.v.append(("no-answer", "the report was never answered"))
            else:
                sim.acknowledged(t.result(), param)
        # the callback of one data point may be used by both messages in either order
        sim.got = {k: sorted(v) for k, v in sim.got.items()}
        sim.want = {k: sorted(v) for k, v in sim.want.items()}
        sim.judge(param)
        return Outcome(sim.v, obs=sorted(map(repr, sim.got.items())), steps=len(ch.choices))


def sched_params(tier):
    one = [("ven1", (("s1", "ab"),)), ("ven1", (("s1", "bz"), ("s2", "a"))), ("ven2", (("s1", "ba"),))]
    for f, s in itertools.product(one, repeat=2):
        for fail in ([], ["a"]):
            yield (f, s, fail)


def scenarios(tier):
    return [Product("one-message", cases_one, run_one, "every list of up to 3 (thorough 4) data points in a report, and pairs of reports", chunk=32),
            Product("crowds", cases_crowd, run_one, "reports with up to a hundred (520) values, and messages with up to 40 reports", chunk=1),
            Product("shapes", cases_shape, run_shape, "shapes, values and ids that the schema permits", chunk=4),
            Histories("messages", run_hist, {"quick": 4, "thorough": 5}, params=[("sync", ()), ("async", ("a",))]),
            Schedules("overlap", run_sched, list(sched_params(tier)), split=1)]
