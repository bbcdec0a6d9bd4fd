"""C18: samples are taken at the agreed interval (the client's real scheduler, in virtual time)."""
import asyncio
import itertools
from datetime import timedelta

from .. import boot, wire
from ..core import Outcome, Product, Histories
from ..vloop import World
from ..ven import Net, AutoVTN, make_client

LEVEL = "model_checking"
ASSUMPTIONS = ["whole seconds; the local time zone has a fixed offset", "a round of samples takes less than one interval",
               "for intervals that divide neither a minute, an hour nor a day only the continuation of sampling is required"]
S = timedelta(seconds=1)
DAY = 86400
DIVISORS = [d for d in range(1, DAY + 1) if DAY % d == 0]
OTHERS = [7, 11, 13, 22, 35, 59, 61, 100, 7 * 60, 11 * 60, 59 * 60, 1000, 7 * 3600, 3601, 25 * 3600, 36 * 3600, 2 * DAY]
MIDNIGHT = boot.real_datetime(2031, 1, 1, tzinfo=boot.UTC)       # also the end of a month and of a year


class Sim:
    def __init__(self, loop, zone="UTC", points=1, full=False, mode="number", lasts=0):
        from apscheduler.schedulers.asyncio import AsyncIOScheduler
        from openleadr.objects import SamplingRate
        self.loop, self.mode, self.lasts = loop, mode, lasts
        self.vtn = AutoVTN(poll_freq="PT24H")
        self.net = Net(self.vtn)
        self.client = c = make_client(self.net, fake_scheduler=False, event_status_log_period=10 ** 8, events_clean_up_period=10 ** 8)
        c.scheduler = AsyncIOScheduler(timezone=zone)
        self.calls = {}
        for i in range(points):
            c.add_report(self.callback(f"p{i}", full), resource_id=f"res{i}", measurement="voltage", report_specifier_id=f"s{i}", r_id=f"p{i}",
                         data_collection_mode="full" if full else "incremental",
                         sampling_rate=SamplingRate(min_period=1 * S, max_period=10 * DAY * S, on_change=False))

    def callback(self, r, full):
        def note():
            self.calls.setdefault(r, []).append(boot.CLOCK.now())
            if len(self.calls[r]) > 2000:
                self.client.scheduler.remove_all_jobs()          # far too often: enough has been seen
        if full:
            def f(date_from, date_to, sampling_interval):
                note()
                return [(date_from, 1.0)]
        elif self.mode == "number":
            def f():
                note()
                return 1.0
        elif self.mode == "raise":
            def f():
                note()
                raise RuntimeError("fails")
        else:
            async def f():
                note()
                await asyncio.sleep(self.lasts)
                return 1.0
        return f

    def request(self, requests, way):
        xml = []
        for rid, spec, r, g, b, at in requests:
            xml.append(wire.report_request(rid, spec, [r], g * S, b * S, interval=None if at is None else (at, 0 * S)))
        if way == "registered":
            self.vtn.report_requests = xml
        else:
            self.vtn.polls.append(wire.create_report(xml))

    def stop(self):
        self.loop.run(self.client.stop())


def check(v, case, calls, asked, interval, horizon, exact=True):
    """asked: when the report was requested"""
    tol = timedelta(milliseconds=1)
    step = interval * S
    want = (horizon - asked) // step
    if not calls:
        v.append(("never-sampled", f"{case}: not a single sample in {horizon - asked}"))
        return
    if exact:
        if not asked - tol <= calls[0] <= asked + step + tol:
            v.append(("late-start", f"{case}: requested at {asked}, first sampled at {calls[0]}"))
        for a, b in zip(calls, calls[1:]):
            if abs((b - a) - step) > tol:
                v.append(("spacing", f"{case}: samples at {a} and {b} are {b - a} apart instead of {step}"))
                break
        if calls[-1] < horizon - step - tol:
            v.append(("stopped", f"{case}: the last sample is at {calls[-1]}, now it is {horizon}"))
    else:
        for a, b in zip([asked] + calls, calls + [horizon]):
            if b - a > 2 * step + tol:
                v.append(("stopped", f"{case}: no sample between {a} and {b}"))
                break


def moments(i):
    return [MIDNIGHT - timedelta(seconds=2.5 * i), MIDNIGHT - timedelta(seconds=3 * i), MIDNIGHT - timedelta(milliseconds=1300),
            boot.T0 + timedelta(seconds=34 * 60 + 56.789), MIDNIGHT + 59 * timedelta(days=1) - timedelta(seconds=1.25 * i) - timedelta(milliseconds=400)]


def cases(tier):
    zones = ["UTC", "Asia/Kathmandu"] if tier == "quick" else ["UTC", "Asia/Kathmandu", "Asia/Kolkata", "Etc/GMT+7"]
    for i in DIVISORS + OTHERS:
        for m in range(5):
            for way in ("registered", "poll"):
                for zone in zones:
                    if zone != "UTC" and way == "poll":
                        continue
                    yield [i, m, way, zone, "number", 1]
        yield [i, 0, "poll", "UTC", "slow", 1]
        yield [i, 3, "registered", "UTC", "raise", 1]
        yield [i, 0, "poll", "UTC", "number", 3]
        yield [i, 3, "poll", "UTC", "full", 1]
        if i > 1:
            yield [i, 0, "registered", "UTC", "full", -1]


def run(case):
    i, m, way, zone, mode, ratio = case
    start = moments(i)[m]
    with World(start) as loop:
        full = mode == "full"
        sim = Sim(loop, zone, 1, full, "number" if full else mode, 0.4 * i)
        g, b = (i, ratio * i) if ratio > 0 else (1, i)
        sim.request([("rr", "s0", "p0", g, b, None)], way)
        loop.run(sim.client.run())
        asked = boot.CLOCK.now()
        horizon = asked + timedelta(seconds=6.6 * i)
        loop.run_for(6.6 * i)
        v = []
        check(v, case, sim.calls.get("p0", []), asked, i, horizon, exact=DAY % i == 0)
        sim.stop()
        if loop.errors:
            v.append(("task-error", str(loop.errors[0])[:300]))
        return Outcome(v, obs=(case, len(sim.calls.get("p0", []))), steps=7)


def cases_several(tier):
    few = [1, 8, 10, 45, 60, 90, 960, 1800, 3600, 5400]
    for n in (2, 3):
        for xs in itertools.combinations(few if n == 2 else few[1:9:2] if tier == "quick" else few[1:9], n):
            if max(xs) / min(xs) > 400:
                continue
            for way in ("registered", "poll"):
                yield [list(xs), way]


def run_several(case):
    xs, way = case
    with World(MIDNIGHT - timedelta(seconds=2.2 * max(xs))) as loop:
        sim = Sim(loop, "UTC", len(xs))
        sim.request([(f"rr{k}", f"s{k}", f"p{k}", x, x, None) for k, x in enumerate(xs)], way)
        loop.run(sim.client.run())
        asked = boot.CLOCK.now()
        loop.run_for(4.4 * max(xs))
        v = []
        for k, x in enumerate(xs):
            check(v, case, sim.calls.get(f"p{k}", []), asked, x, boot.CLOCK.now())
        sim.stop()
        return Outcome(v, obs=(case, [len(sim.calls.get(f"p{k}", [])) for k in range(len(xs))]), steps=len(xs))


ATS = [None, -3600, -5, -0.5, 0, 0.75, 1, 10, 59, 3600, 86400 * 3]


def cases_once(tier):
    for at in ATS:
        for way in ("registered", "poll"):
            for m in (0, 2, 3):
                for zone in ("UTC", "Asia/Kathmandu"):
                    for g, b in ((0, 0), (10, 0), (0, 10)):
                        yield [[at], way, m, zone, g, b]
    for a, b in itertools.product(ATS, repeat=2):
        yield [[a, b], "poll", 3, "UTC", 0, 0]
    for a, b, c in itertools.permutations([None, -5, 1, 59], 3):
        yield [[a, b, c], "registered", 3, "UTC", 0, 0]


def run_once(case):
    ats, way, m, zone, g, b = case
    with World(moments(10)[m]) as loop:
        sim = Sim(loop, zone, len(ats))
        sim.request([(f"rr{k}", f"s{k}", f"p{k}", g, b, None if a is None else boot.CLOCK.now() + timedelta(seconds=a)) for k, a in enumerate(ats)], way)
        began = boot.CLOCK.now()
        loop.run(sim.client.run())
        loop.run_for(86400 * 4)
        v = []
        for k, a in enumerate(ats):
            calls = sim.calls.get(f"p{k}", [])
            want = began + timedelta(seconds=max(0, a or 0))
            if len(calls) != 1:
                v.append(("sampled-once", f"{case}: point {k} was sampled {len(calls)} times"))
            elif abs(calls[0] - want) > timedelta(seconds=1) or calls[0] < want - timedelta(milliseconds=1):
                v.append(("time", f"{case}: point {k} was sampled at {calls[0]} instead of {want}"))
        n = [wire.read_update_report(s.node)["reports"][0]["request_id"] for s in sim.net.sent("oadrUpdateReport")]
        if sorted(n) != sorted(f"rr{k}" for k in range(len(ats))):
            v.append(("sent-once", f"{case}: reports sent for {n}"))
        sim.stop()
        return Outcome(v, obs=(case, n), steps=len(ats))


def scenarios(tier):
    return [Product("intervals", cases, run, "all 96 divisors of a day and others; requested just before midnight (month, year), at odd moments; slow and failing callbacks",
                    chunk=8),
            Product("several", cases_several, run_several, "reports of different intervals side by side", chunk=2),
            Product("one-off", cases_once, run_once, "one-off reports at every kind of time, several at once", chunk=8)]
