"""C27: what a VEN's report callbacks produce arrives at the VTN callbacks chosen for it (a real VEN talking to a real VTN)."""
import asyncio
import itertools
from collections import Counter
from datetime import timedelta, timezone

from .. import boot, sign, vtn
from ..core import Outcome, Product, Histories, Schedules
from ..vloop import World
from ..ven import Net, make_client

LEVEL = "model_checking"
ASSUMPTIONS = ["every message arrives (failures are explored by C17)", "rounds of one request do not overlap",
               "a value that is being collected when its report is cancelled need not be sent",
               "a report that is still being compiled when the VEN stops need not be sent",
               "whole seconds; sampling intervals divide a day",
               "a VTN that asks once more at a re-registration has two requests in force"]
S = timedelta(seconds=1)
MIN_RATE, MAX_RATE = 2, 3600


class Ven:
    """a reporting VEN. reports: [{spec, full, status, points: [{r, kind, rate}]}]"""

    def __init__(self, sim, name, reports):
        self.sim, self.name, self.reports = sim, name, reports
        self.asked = {}              # (specifier, point) -> list of requests; a request is a dict
        self.produced = {}           # (specifier, point) -> [(begin, end, time or None, value, when produced)]
        self.rounds = {}             # (specifier, point) -> number of calls
        self.client = None

    def start(self):
        from apscheduler.schedulers.asyncio import AsyncIOScheduler
        from openleadr.objects import SamplingRate
        sim = self.sim
        kw = {}
        if sim.signed:
            kw = dict(cert=sign.path(self.name), key=sign.path(self.name, "key"), vtn_fingerprint=sign.fingerprint("vtn"))
        c = self.client = make_client(Net(self.transport), self.name, self.name, fake_scheduler=False,
                                      event_status_log_period=10 ** 8, events_clean_up_period=10 ** 8, **kw)
        c.scheduler = AsyncIOScheduler(timezone="UTC")
        self.ids = {}                # what the VEN calls it -> (report index, point index)
        for i, rep in enumerate(self.reports):
            for j, p in enumerate(rep["points"]):
                lo, hi = p.get("rate", (MIN_RATE, MAX_RATE))
                kw = dict(report_name="TELEMETRY_STATUS") if rep.get("status") else dict(measurement="voltage", unit="V", scale="none")
                spec, r = c.add_report(self.callback((i, j), p["kind"], rep.get("full")), resource_id=f"res{i}.{j}",
                                       report_specifier_id=rep["spec"], r_id=p["r"],
                                       data_collection_mode="full" if rep.get("full") else "incremental",
                                       sampling_rate=SamplingRate(min_period=lo * S, max_period=hi * S, on_change=False), **kw)
                if p["r"] is not None and r != p["r"] or rep["spec"] is not None and spec != rep["spec"]:
                    sim.v.append(("declared-ids", f"{rep['spec']!r}, {p['r']!r} declared as {spec!r}, {r!r}"))
                self.ids[spec, r] = (i, j)

    async def transport(self, net, rec):
        kw = dict(secure=True, der=sign.der(self.name)) if self.sim.signed else {}
        self.sim.current = self
        if self.sim.chooser_gate is not None and rec.type == "oadrUpdateReport":
            await self.sim.chooser_gate(self.name + " report")
        r = await vtn.send(self.sim.server, rec.data, rec.service, content_type=rec.content_type, **kw)
        if r.status != 200:
            self.sim.v.append(("http", f"{self.name}'s {rec.type} got HTTP {r.status}: {r.body[:200]}"))
        elif r.type is not None:
            code = r.resp()[0] if r.node.find("responseCode") is not None else 200
            if code != 200:
                self.sim.v.append(("refused", f"{self.name}'s {rec.type} was answered with {r.summary()}"))
        return r.status, r.body

    def note(self, me, begin, pairs):
        now = boot.CLOCK.now()
        self.produced.setdefault(me, []).extend((begin, now, t, x, now) for t, x in pairs)

    def called(self, me):
        self.rounds[me] = self.rounds.get(me, 0) + 1
        if not self.asked.get(me):
            self.sim.v.append(("uncalled-for", f"{self.name}: the callback of {me} is called, but the VTN did not ask for it"))

    def callback(self, me, kind, full):
        sim = self.sim

        def make():
            """-> (result, pairs)"""
            now = boot.CLOCK.now()
            if kind in ("list", "alist", "zone", "same", "mixed"):
                zone = timezone(timedelta(hours=5, minutes=30)) if kind == "zone" else boot.UTC
                n = 2 + (sim.n % 2 if kind == "mixed" else 0)
                pairs = [((now - (0 if kind == "same" else n - k) * S + timedelta(microseconds=7 * k if kind == "list" else 0)).astimezone(zone), sim.value()) for k in range(n)]
                return pairs, pairs
            if kind == "tuple":
                pairs = [(now, sim.value())]
                return tuple(pairs), pairs
            if kind == "empty":
                return [], []
            x = sim.value()
            x = {"int": int(x), "negative": -x, "tiny": x * 1e-9, "huge": x * 1e15, "zero": 0.0, "third": x / 3, "intzero": 0}.get(kind, x)
            return x, [(None, x)]
        if full:
            def f(date_from, date_to, sampling_interval):
                self.called(me)
                begin = boot.CLOCK.now()
                out, t = [], date_from + sampling_interval / 2
                while t < date_to:
                    out.append((t, sim.value()))
                    t += sampling_interval or date_to - date_from      # a single value is asked for
                self.note(me, begin, out)
                return out

            async def af(date_from, date_to, sampling_interval):
                await asyncio.sleep(0)
                return f(date_from, date_to, sampling_interval)
            return af if kind == "async" else f
        if kind in ("async", "alist", "slow"):
            async def ag():
                self.called(me)
                begin = boot.CLOCK.now()
                await asyncio.sleep(0.4 if kind == "slow" else 0)
                result, pairs = make()
                self.note(me, begin, pairs)
                return result
            return ag
        if kind == "gated":
            async def gg():
                self.called(me)
                begin = boot.CLOCK.now()
                await sim.chooser_gate(f"{self.name} value {me}")
                result, pairs = make()
                self.note(me, begin, pairs)
                return result
            return gg

        def g():
            self.called(me)
            begin = boot.CLOCK.now()
            result, pairs = make()
            self.note(me, begin, pairs)
            return result
        return g


class Sim:
    """style: how the VTN's application registers: compact, acompact, full, afull; cb: how its callbacks are made"""

    def __init__(self, loop, vens, choose, style="compact", cb="sync", signed=False, poll=3600, external=False, gate=None):
        self.loop, self.choose, self.style, self.cb, self.signed = loop, choose, style, cb, signed
        self.chooser_gate = gate
        self.v, self.n, self.generation = [], 0, 0
        self.got = {}                # (ven, point, generation) -> [(when, [(time, value)])]
        self.queue = {}
        self.current = None
        kw = {}
        if signed:
            kw = dict(cert=sign.path("vtn"), key=sign.path("vtn", "key"),
                      ven_lookup=lambda ven_id: {"ven_id": ven_id, "ven_name": ven_id, "fingerprint": sign.fingerprint(ven_id), "registration_id": "reg_" + ven_id})
        self.server = s = vtn.make_server(requested_poll_freq=timedelta(seconds=poll), **kw)
        s.add_handler("on_create_party_registration", lambda info: (info["ven_name"], "reg_" + info["ven_name"]))
        s.add_handler("on_register_report", self.register_handler())
        s.add_handler("on_update_report", lambda report: self.v.append(("general-handler", f"on_update_report got {report}")))
        if external:
            s.add_handler("on_poll", lambda ven_id: self.queue[ven_id].pop(0) if self.queue.get(ven_id) else None)
        self.vens = {}
        for name, reports in vens.items():
            self.vens[name] = Ven(self, name, reports)

    def start(self, name):
        ven = self.vens[name]
        ven.start()
        self.loop.run(ven.client.run())

    def value(self):
        self.n += 1
        return self.n + 0.5

    def register_handler(self):
        def compact(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            ven = self.vens[ven_id]
            i, j = (int(x) for x in resource_id[3:].split("."))
            rep = ven.reports[i]
            lo, hi = rep["points"][j].get("rate", (MIN_RATE, MAX_RATE))
            want = ("Status", None, None) if rep.get("status") else ("Voltage", "V", "none")
            if (measurement, unit, scale, min_sampling_interval, max_sampling_interval) != want + (lo * S, hi * S):
                self.v.append(("declaration", f"{resource_id} is offered as {measurement} {unit} {scale} {min_sampling_interval} {max_sampling_interval}"))
            if j == 0:
                self.generation += 1
            return self.pick(ven, (i, j))

        async def acompact(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            await asyncio.sleep(0)
            return compact(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)

        def full(report):
            ven = self.current
            self.generation += 1
            out = []
            for rd in report["report_descriptions"]:
                me = ven.ids.get((report["report_specifier_id"], rd["r_id"]))
                if me is None:
                    self.v.append(("foreign", f"{ven.name}: {report['report_specifier_id']!r}, {rd['r_id']!r} was never offered ({ven.ids})"))
                    continue
                c = self.pick(ven, me)
                if c is not None:
                    out.append((rd["r_id"],) + c)
            return out or None

        async def afull(report):
            await asyncio.sleep(0)
            return full(report)
        return {"compact": compact, "acompact": acompact, "full": full, "afull": afull}[self.style]

    def pick(self, ven, me):
        c = self.choose.get(ven.name, {}).get(me)
        if c is None:
            return None
        sampling, back = c
        key = (ven.name, me, self.generation)
        self.got[key] = []
        ven.asked.setdefault(me, []).append({"key": key, "sampling": sampling, "back": sampling if back is None else back, "since": boot.CLOCK.now(), "over": None})
        cb = self.callback(key)
        return (cb, sampling * S) if back is None else (cb, sampling * S, back * S)

    def callback(self, key):
        def cb(data):
            self.got[key].append((boot.CLOCK.now(), list(data)))
            if self.cb == "fails":
                raise RuntimeError("the VTN's callback fails")

        async def acb(data):
            if self.cb == "slow":
                await asyncio.sleep(0.3)
            elif self.cb == "gated":
                await self.chooser_gate(f"callback {key[:2]}")
            cb(data)
        return acb if self.cb in ("async", "slow", "gated") else cb

    # the specification
    def request_terms(self, ven, me, q):
        """sampling and reporting interval of the request in which this point was asked: those of its whole report"""
        mine = [x for (i, j), qs in ven.asked.items() if i == me[0] for x in qs if x["key"][2] == q["key"][2]]
        return min(x["sampling"] for x in mine), min(x["back"] for x in mine)

    def in_range(self, ven, me, gran):
        lo, hi = ven.reports[me[0]]["points"][me[1]].get("rate", (MIN_RATE, MAX_RATE))
        return gran == 0 or lo <= gran <= hi

    def judge(self, what, regular=True):
        v = self.v
        now = boot.CLOCK.now()
        for ven in self.vens.values():
            points = [(i, j) for i, rep in enumerate(ven.reports) for j in range(len(rep["points"]))]
            for me in points:
                made = ven.produced.get(me, [])
                arrived = [(key, when, t, x) for key, calls in self.got.items() if key[0] == ven.name and key[1] == me for when, data in calls for t, x in data]
                if any(not data for key, calls in self.got.items() if key[:2] == (ven.name, me) for _, data in calls):
                    v.append(("empty-call", f"{what}: {ven.name} {me}: a callback was called without values"))
                qs = ven.asked.get(me, [])
                left = list(made)
                for key, when, t, x in arrived:
                    hit = next((m for m in left if same(m, t, x)), None)
                    if hit is None:
                        again = any(same(m, t, x) for m in made)
                        value = any(float(m[3]) == x for m in left)
                        v.append(("repeated" if again else "wrong-time" if value else "stray", f"{what}: {ven.name} {me}: {x!r} at {t} arrives; produced were {[(m[0], m[2], m[3]) for m in made][:6]}"))
                        break
                    left.remove(hit)
                for key in {a[0] for a in arrived}:            # in the order in which they were produced
                    seq = [next(k for k, m in enumerate(made) if same(m, t, x)) for kk, _, t, x in arrived if kk == key and any(same(m, t, x) for m in made)]
                    if seq != sorted(seq) and len({m[3] for m in made}) == len(made):
                        v.append(("order", f"{what}: {ven.name} {me}: values arrive in the order {seq}"))
                # what may still be under way
                allowed = timedelta(0)
                for q in qs:
                    gran, back = self.request_terms(ven, me, q)
                    if q["over"] is None and gran and back and not ven.reports[me[0]].get("full"):
                        allowed = max(allowed, max(1, back // gran) * gran * S)
                late = [m for m in left if now - m[4] >= allowed + 2 * S] if allowed else [m for m in left if now - m[4] > 2 * S]
                if late and not self.v:
                    v.append(("lost", f"{what}: {ven.name} {me}: at {now}, {[(m[0], m[2], m[3]) for m in late][:4]} of {len(made)} values have not arrived"))
                if regular:
                    for q in qs:
                        gran, back = self.request_terms(ven, me, q)
                        ok = self.in_range(ven, me, gran)
                        n = ven.rounds.get(me, 0)
                        if not ok:
                            if n:
                                v.append(("not-offered", f"{what}: {ven.name} {me}: sampled every {gran} s, which it does not offer"))
                        elif gran == 0 or back == 0:
                            if n != 1:
                                v.append(("once", f"{what}: {ven.name} {me}: one single report was asked for, and it was sampled {n} times"))
                        else:
                            step = max(gran, back) if ven.reports[me[0]].get("full") else gran
                            k = (now - q["since"]) // (step * S)
                            if not k - 1 <= n <= k + 1:
                                v.append(("rate", f"{what}: {ven.name} {me}: {n} rounds in {now - q['since']} at {step} s"))
        if self.loop.errors:
            v.append(("task-error", f"{what}: {self.loop.errors[0]}"[:400]))

    def stop(self):
        for ven in self.vens.values():
            if ven.client is not None:
                self.loop.run(ven.client.stop())

    def obs(self):
        return tuple(sorted((repr(k[:2]), len(c), sum(len(d) for _, d in c)) for k, c in self.got.items()))


def same(m, t, x):
    begin, end, at, val, _ = m
    if float(val) != float(x):
        return False
    if at is not None:
        return t == at
    ms = timedelta(milliseconds=1)
    return begin - ms <= t <= end + ms


def play(vens, choose, style="compact", cb="sync", signed=False, seconds=None, what=""):
    with World(boot.T0 + timedelta(seconds=3.3)) as loop:
        sim = Sim(loop, vens, choose, style, cb, signed)
        for name in vens:
            sim.start(name)
        terms = [c for d in choose.values() for c in d.values() if c is not None]
        seconds = seconds or 3 * max([max(s, b or s) for s, b in terms] + [1]) + 1.7
        loop.run_for(seconds)
        sim.judge(what)
        sim.stop()
        return Outcome(sim.v, obs=(what, sim.obs()), steps=sum(len(c) for c in sim.got.values()) + 1)


# -- which points, at which intervals
def unkey(d):
    return {tuple(int(x) for x in k.split(".")): None if c is None else tuple(c) for k, c in d.items()}


CHOICES = [None, (10, None), (20, None), (10, 30), (20, 40), (10, 15), (0, None)]
CHOICES_T = CHOICES + [(5, 30), (30, 10), (10, 0), (0, 10), (60, None)]


def cases_choices(tier):
    few = [None, (10, None), (10, 30), (20, 40), (0, None)]
    for full in (False, True):
        for style in ("compact", "acompact", "full", "afull"):
            alphabet = few if tier == "quick" and style in ("acompact", "full") else CHOICES if tier == "quick" else CHOICES_T
            for a, b in itertools.product(alphabet, repeat=2):                 # two points of one report
                yield [full, False, style, "sync", {"0.0": a, "0.1": b}]
            for a, b in itertools.product(few, repeat=2):                      # the points of two reports
                yield [full, False, style, "async", {"0.0": a, "1.0": b}]
        for ch in itertools.product([None, (10, None), (10, 30)] if tier == "quick" else few, repeat=4):
            yield [full, False, "compact", "sync", dict(zip(("0.0", "0.1", "1.0", "1.1"), ch))]
            if tier != "quick":
                yield [full, True, "afull", "slow", dict(zip(("0.0", "0.1", "1.0", "1.1"), ch))]
    for a, b in itertools.product(few, repeat=2):                              # status and usage
        for style in ("compact", "full"):
            yield [False, True, style, "sync", {"0.0": a, "1.0": b}]
    for cb in ("slow", "fails"):
        for a, b in itertools.product(few, repeat=2):
            yield [False, False, "compact", cb, {"0.0": a, "0.1": b}]


def run_choices(case):
    full, status, style, cb, ch = case
    reports = [{"spec": "s0", "full": full, "points": [{"r": "a", "kind": "number"}, {"r": "b", "kind": "async"}]},
               {"spec": "s1", "full": False, "status": status, "points": [{"r": "a", "kind": "number"}, {"r": "c", "kind": "number"}]}]
    return play({"ven1": reports}, {"ven1": unkey(ch)}, style, cb, what=str(case))


# -- sampling rates that some points do not offer
def cases_rates(tier):
    offers = [(2, 3600), (10, 10), (5, 15), (20, 60)]
    for o1, o2 in itertools.product(offers, repeat=2):
        for a, b in itertools.product([(5, None), (10, None), (20, None), (10, 30), (20, 40), None], repeat=2):
            if a is None and b is None:
                continue
            for style in ("compact", "full") if tier != "quick" else ("compact",):
                yield [o1, o2, a, b, style]


def run_rates(case):
    o1, o2, a, b, style = case
    reports = [{"spec": "s0", "points": [{"r": "a", "kind": "number", "rate": tuple(o1)}, {"r": "b", "kind": "number", "rate": tuple(o2)}]}]
    return play({"ven1": reports}, {"ven1": {(0, 0): a and tuple(a), (0, 1): b and tuple(b)}}, style, what=str(case))


# -- names
NAMES = ["12", "007", "a&b <c>", "über \u2603", "x y", "True", "1e5", "None", None, "a/b?c=d#e", "a.b:c-d_e", "{{ x }}", "]]>", "'\"", "0", "-1", "12.0", "REPORT" * 12, "&amp;", "%d%s"]
NAMES_Q = [n for n in NAMES if n not in ("12.0", "-1", "x y", "a/b?c=d#e")]


def cases_names(tier):
    names = NAMES_Q if tier == "quick" else NAMES
    for full in (False, True):
        for a, b in itertools.product(names, repeat=2):
            if a == b and a is not None:
                continue
            for style in ("compact", "full"):
                if tier != "quick" or style == ("full" if full else "compact") or None in (a, b) or "12" in (a, b):
                    yield ["points", a, b, full, style]
                    yield ["specs", a, b, full, style]
    for a in names:
        for b in names:
            yield ["both", a, b, False, "compact"]


def run_names(case):
    what, a, b, full, style = case
    if what == "points":
        reports = [{"spec": "s0", "full": full, "points": [{"r": a, "kind": "number"}, {"r": b, "kind": "number"}]}]
        choose = {(0, 0): (10, None), (0, 1): (10, None)}
    elif what == "specs":                   # reports without a name of their own share one: make the modes differ
        reports = [{"spec": a, "full": full, "points": [{"r": "p", "kind": "number"}]}, {"spec": b, "full": not full if None in (a, b) else full, "points": [{"r": "p", "kind": "number"}]}]
        if a is None and b is None:
            reports[1]["spec"] = "s1"
        choose = {(0, 0): (10, None), (1, 0): (10, None)}
    else:
        reports = [{"spec": a, "full": full, "points": [{"r": b, "kind": "number"}, {"r": "other", "kind": "number"}]}]
        choose = {(0, 0): (10, 20)}
    return play({"ven1": reports}, {"ven1": choose}, style, seconds=41.7, what=str(case))


# -- values
KINDS = ["number", "int", "async", "list", "alist", "slow", "zone", "same", "mixed", "tuple", "empty", "negative", "tiny", "huge", "zero", "third", "intzero"]


def cases_values(tier):
    for a, b in itertools.product(KINDS, repeat=2):
        for c in ([10, None], [10, 30]) if tier == "quick" else ([10, None], [10, 30], [10, 25], [0, None], [20, 40]):
            yield [a, b, c, "sync" if tier == "quick" else "async"]
    if tier != "quick":
        for a, b, c in itertools.product(KINDS, repeat=3):
            yield [a, b, c, "sync"]


def run_values(case):
    a, b, c, cb = case
    if isinstance(c, str):
        kinds, c = (a, b, c), (10, 20)
    else:
        kinds = (a, b)
    reports = [{"spec": "s0", "points": [{"r": f"p{k}", "kind": x} for k, x in enumerate(kinds)]}]
    return play({"ven1": reports}, {"ven1": {(0, k): tuple(c) for k in range(len(kinds))}}, "compact", cb, what=str(case))


# -- two VENs that use the same names; signed messages
def cases_parties(tier):
    few = [None, (10, None), (10, 30)] if tier == "quick" else [None, (10, None), (10, 30), (20, 40), (0, None)]
    for signed in (False, True):
        for style in ("compact", "afull"):
            for ch in itertools.product(few, repeat=3):
                for full in (False, True):
                    if signed and tier == "quick" and full:
                        continue
                    yield [signed, style, full, {"0.0": ch[0], "0.1": ch[1]}, {"0.0": ch[2], "0.1": ch[0]}]


def run_parties(case):
    signed, style, full, one, two = case
    reports = [{"spec": "s0", "full": full, "points": [{"r": "a", "kind": "number"}, {"r": "b", "kind": "list"}]}]
    return play({"ven1": reports, "ven2": reports}, {"ven1": unkey(one), "ven2": unkey(two)}, style, "sync", signed, what=str(case))


# -- histories
def run_history(param, hist):
    full, kind, choice, follow, signed, offset = param
    reports = [{"spec": "s0", "full": full, "points": [{"r": "a", "kind": kind}, {"r": "b", "kind": "number"}]},
               {"spec": "s1", "points": [{"r": "a", "kind": "number"}]}]
    with World(boot.T0 + timedelta(seconds=offset)) as loop:
        sim = Sim(loop, {"ven1": reports}, {"ven1": {(0, 0): tuple(choice), (1, 0): (10, 20)}}, "compact", signed=signed, poll=5, external=True)
        ven = sim.vens["ven1"]
        sim.start("ven1")
        queue = sim.queue.setdefault("ven1", [])
        stopped = []
        for op in hist:
            k = op[0]
            if k == "time":
                loop.run_for(op[1])
            elif k == "cancel":
                spec = f"s{op[1]}"
                rq = [q["report_request_id"] for q in ven.client.report_requests if q["report_specifier_id"] == spec]
                for i, rid in enumerate(rq):
                    queue.append(("oadrCancelReport", {"request_id": f"rq{i}", "report_request_id": rid, "report_to_follow": follow, "ven_id": "ven1"}))
                before = boot.CLOCK.now()
                loop.run_for(5.1 * max(1, len(rq)))
                for me, qs in ven.asked.items():
                    if me[0] == op[1]:
                        for q in qs:
                            q["over"] = q["over"] or boot.CLOCK.now()
                drop_overtaken(sim, ven, op[1], before, len(rq))
                left = [q for q in ven.client.report_requests if q["report_specifier_id"] == spec]
                if left:
                    sim.v.append(("not-cancelled", f"{hist}: {left} still in force"))
                stopped.append((op[1], {me: ven.rounds.get(me, 0) for me in ven.asked if me[0] == op[1]}))
            elif k == "reregister":
                queue.append(("oadrRequestReregistration", {"ven_id": "ven1"}))
                stopped = []
                loop.run_for(5.1)
            elif k == "restart":
                stopped = []
                loop.run(ven.client.stop())
                for me in list(ven.produced):            # what was being compiled need not be sent
                    keep = [(t, x) for key, calls in sim.got.items() if key[1] == me for _, d in calls for t, x in d]
                    ven.produced[me] = [m for m in ven.produced[me] if any(same(m, t, x) for t, x in keep)]
                for qs in ven.asked.values():
                    for q in qs:
                        q["over"] = boot.CLOCK.now()
                sim.start("ven1")
            loop.settle()
            sim.judge(op, regular=False)
            for i, n in stopped:
                now = {me: ven.rounds.get(me, 0) for me in n}
                if now != n:
                    sim.v.append(("after-cancel", f"{hist}: sampled after the cancellation: {n}, then {now}"))
        for me, qs in ven.asked.items():                 # every request in force is served
            for q in qs:
                since = boot.CLOCK.now() - q["since"]
                gran, back = sim.request_terms(ven, me, q)
                if q["over"] is None and ven.rounds.get(me, 0) < since // (max(gran, back if full else 0) * S) - 1:
                    sim.v.append(("rate", f"{hist}: {me}: {ven.rounds.get(me, 0)} rounds in {since}"))
        canon = [list(o) for o in hist]
        sim.stop()
        n = sum(len(q) for q in ven.asked.values())
        ops = [("time", 5.3), ("time", 21.9), ("cancel", 0), ("cancel", 1), ("restart",)]
        if n < 8:
            ops.append(("reregister",))
        return Outcome(sim.v, obs=(hist[-1:] and hist[-1], sim.obs()), steps=1, canon=canon, ops=ops)


def drop_overtaken(sim, ven, i, since, n):
    """values that were being collected when the cancellation came need not be sent"""
    for me, made in ven.produced.items():
        if me[0] == i:
            arrived = [(t, x) for key, calls in sim.got.items() if key[1] == me for _, d in calls for t, x in d]
            lost = [m for m in made if m[0] < m[1] and m[4] >= since and not any(same(m, t, x) for t, x in arrived)]
            for m in lost[:n]:
                made.remove(m)


# -- every order of slow values, slow messages and slow callbacks
def run_slow(param, ch):
    two, back, cb, bundles = param
    pending = []

    with World(boot.T0 + timedelta(seconds=3.3)) as loop:
        active = [False]

        async def gate(name):
            if not active[0]:
                return
            f = loop.create_future()
            pending.append((name, f))
            await f
        reports = [{"spec": "s0", "points": [{"r": "a", "kind": "gated"}, {"r": "b", "kind": "number"}]}]
        vens = {"ven1": reports, "ven2": reports} if two else {"ven1": reports + [{"spec": "s1", "points": [{"r": "a", "kind": "gated"}]}]}
        choose = {n: {(0, 0): (10, back), (0, 1): (10, back), (1, 0): (10, back)} for n in vens}
        sim = Sim(loop, vens, choose, "compact", cb, gate=gate)
        for n in vens:
            sim.start(n)
        active[0] = True
        steps = 0
        for rnd in range(bundles * max(1, (back or 10) // 10)):
            loop.run_for(10)
            while pending:
                steps += 1
                names = sorted({n for n, _ in pending})
                k = ch.choose(names)
                i = next(i for i, (n, _) in enumerate(pending) if n == k)
                pending.pop(i)[1].set_result(None)
                loop.settle()
        active[0] = False
        loop.settle()
        sim.judge(f"{param} {ch}", regular=True)
        sim.stop()
        return Outcome(sim.v, obs=(param, sim.obs()), steps=steps)


def scenarios(tier):
    hist_params = [(False, "number", (10, None), False, False, 3.3), (False, "list", (10, 30), False, False, 3.3), (False, "number", (10, 30), True, False, 0.0),
                   (True, "number", (5, 20), False, False, 3.3)]
    if tier != "quick":
        hist_params += [(False, "async", (20, 40), True, False, 4.9), (False, "slow", (10, 30), False, False, 1.0), (True, "async", (10, 20), True, False, 3.3),
                        (False, "number", (10, 30), False, True, 3.3)]
    return [Product("choices", cases_choices, run_choices, "every combination of what is asked for the points of two reports; four kinds of registration handlers; several kinds of callbacks", chunk=8),
            Product("rates", cases_rates, run_rates, "points that offer different sampling rates, asked at different ones", chunk=8),
            Product("names", cases_names, run_names, "all pairs of awkward report and data point ids", chunk=8),
            Product("values", cases_values, run_values, "all pairs of kinds of values", chunk=8),
            Product("parties", cases_parties, run_parties, "two VENs that use the same names, with and without signatures", chunk=4),
            Histories("histories", run_history, {"quick": 4, "thorough": 5}, hist_params, "time, cancellations by the VTN, re-registrations, restarts of the VEN; the client's real scheduler", max_states=400000),
            Schedules("slow", run_slow, [(t, b, c, n) for t in (False, True) for b, c, n in
                                         ([(None, "sync", 2), (None, "gated", 1), (20, "sync", 1), (20, "gated", 1)] if tier == "quick" else
                                          [(None, "gated", 2), (20, "sync", 2), (20, "gated", 2), (30, "sync", 1)])],
                      "every order in which slow values, messages and callbacks of two reports or two VENs complete")]
