"""A reporting VEN: what its callbacks produced, for whom, and what left for the VTN."""
import asyncio
import contextvars
from datetime import timedelta, timezone

from . import boot, wire
from .ven import Net, AutoVTN, make_client, start, periodic

S = timedelta(seconds=1)
WHO = contextvars.ContextVar("WHO", default=None)      # the report request on whose behalf callbacks are being called


def secs(td):
    return td.total_seconds()


class Rep:
    """offers: {specifier: {point: mode}}; modes of a point: number int async list alist empty none raise araise gated"""

    def __init__(self, loop, offers, full=(), rates=None, scheduler=True, answer=None, registered=(), zones=False, **kw):
        from openleadr.objects import SamplingRate
        self.loop, self.v = loop, []
        self.vtn = AutoVTN(report_requests=list(registered))
        self.net = Net(answer or self.vtn)
        self.client = c = make_client(self.net, fake_scheduler=scheduler, **kw)
        self.n = 0
        self.zones = zones           # does the meter give its times in changing time zones?
        self.taken = {}              # request -> list of rounds; a round is a list of (point, begin, end, time or None, value)
        self.round = {}              # request -> the round being taken
        self.gates = []              # callbacks waiting for the explorer
        self.jobs = {}               # request -> job
        self.windows = {}            # request or None -> list of (point, from, to, sampling interval)
        for spec, points in offers.items():
            for r, mode in points.items():
                lo, hi = (rates or {}).get((spec, r), (1, 86400 * 2))
                c.add_report(self.callback(spec, r, mode, spec in full), resource_id=f"{spec}-{r}", measurement="voltage",
                             report_specifier_id=spec, r_id=r, data_collection_mode="full" if spec in full else "incremental",
                             sampling_rate=SamplingRate(min_period=lo * S, max_period=hi * S, on_change=False))
        start(loop, c)
        loop.settle()

    def value(self):
        self.n += 1
        return self.n + 0.5

    def note(self, r, begin, pairs):
        who = WHO.get()
        rnd = self.taken.setdefault(who, [])
        if not rnd or rnd[-1][0] != self.token(who):
            rnd.append((self.token(who), []))
        for t, val in pairs:
            rnd[-1][1].append((r, begin, boot.CLOCK.now(), t, val))

    def token(self, who):
        return self.round.get(who, 0)

    def rounds(self, who):
        return [r[1] for r in self.taken.get(who, [])]

    def callback(self, spec, r, mode, full):
        if full:
            def window(date_from, date_to, sampling_interval):
                self.windows.setdefault(spec, []).append((r, date_from, date_to, sampling_interval))
                return self.meter(spec, r, date_from, date_to, sampling_interval)
            if mode == "async":
                async def awindow(date_from, date_to, sampling_interval):
                    await asyncio.sleep(0)
                    return window(date_from, date_to, sampling_interval)
                return awindow
            return window
        if mode in ("number", "int"):
            def f():
                val = self.value()
                val = int(val) if mode == "int" else val
                self.note(r, boot.CLOCK.now(), [(None, val)])
                return val
        elif mode in ("async", "slow"):
            async def f():
                begin = boot.CLOCK.now()
                val = self.value()
                await asyncio.sleep(0 if mode == "async" else 0.3)
                self.note(r, begin, [(None, val)])
                return val
        elif mode in ("list", "alist", "one"):
            def g():
                now = boot.CLOCK.now()
                pairs = [(now - (2 - i) * S, self.value()) for i in range(1 if mode == "one" else 2)]
                self.note(r, now, pairs)
                return pairs

            async def ag():
                await asyncio.sleep(0)
                return g()
            f = ag if mode == "alist" else g
        elif mode == "empty":
            def f():
                return []
        elif mode == "none":
            def f():
                return None
        elif mode == "raise":
            def f():
                raise RuntimeError("this callback fails")
        elif mode == "keyerror":
            def f():
                raise KeyError("missing")
        elif mode == "araise":
            async def f():
                await asyncio.sleep(0)
                raise RuntimeError("this callback fails")
        elif mode == "flaky":
            calls = [0]

            def f():
                calls[0] += 1
                if calls[0] % 2 == 0:
                    raise RuntimeError("this callback fails every other time")
                val = self.value()
                self.note(r, boot.CLOCK.now(), [(None, val)])
                return val
        elif mode == "gated":
            async def f():
                begin = boot.CLOCK.now()
                fut = self.loop.create_future()
                self.gates.append(((str(WHO.get()), r), fut))
                await fut
                val = self.value()
                self.note(r, begin, [(None, val)])
                return val
        else:
            raise AssertionError(mode)
        return f

    def meter(self, spec, r, date_from, date_to, step):
        """a meter that has a reading half-way every sampling interval"""
        out = []
        k = int((date_from - boot.T0) / step) - 2
        while True:
            t = boot.T0 + k * step + step / 2
            if t >= date_to:
                return out
            if t >= date_from:
                out.append((t.astimezone(timezone(timedelta(minutes=(330, 0, -480)[k % 3]))) if self.zones else t, float(k)))
            k += 1

    # -- driving
    def report_jobs(self):
        own = set(map(id, periodic(self.client, "poll") + periodic(self.client, "log") + periodic(self.client, "clean")))
        return [j for j in self.client.scheduler.jobs if id(j) not in own]

    def ask(self, rid, spec, points, gran, back, at=None, expect_job=True):
        """the VTN requests a report (by poll); notes the job that appears"""
        before = set(map(id, self.client.scheduler.jobs))
        alive = [r for r in self.jobs if r != rid and self.alive(r)]
        self.vtn.polls.append(wire.create_report([wire.report_request(rid, spec, points, gran * S, back * S,
                                                                      interval=None if at is None else (at, 0 * S))]))
        tok = WHO.set(rid)
        self.round[rid] = self.round.get(rid, 0) + 1
        try:
            self.loop.run(self.poll_job().fire())
        finally:
            WHO.reset(tok)
        self.loop.settle()
        new = [j for j in self.client.scheduler.jobs if id(j) not in before]
        if len(new) != (1 if expect_job else 0):
            self.v.append(("not-scheduled", f"request {rid}: {len(new)} jobs were added"))
        if new:
            self.jobs[rid] = new[0]
        for r in alive:
            if not self.alive(r):
                self.v.append(("unscheduled", f"request {r} is no longer sampled after request {rid} was set up"))

    def poll_job(self):
        return periodic(self.client, "poll")[0]

    def poll(self):
        self.loop.run(self.poll_job().fire())
        self.loop.settle()

    def alive(self, rid):
        j = self.jobs.get(rid)
        return j is not None and j in self.client.scheduler.jobs

    async def fire_async(self, rid):
        WHO.set(rid)
        self.round[rid] = self.round.get(rid, 0) + 1
        job = self.jobs[rid]
        if job.trigger == "date" and job in self.client.scheduler.jobs:
            self.client.scheduler.jobs.remove(job)       # a scheduler forgets a job that runs once
        await job.fire()

    def fire(self, rid):
        self.loop.run(self.fire_async(rid))
        self.loop.settle()

    # -- judging
    def messages(self, since=0):
        """[(request id, specifier, [(time, point, value)])] of every report sent; reports without values are left out"""
        out = []
        for s in self.net.sent("oadrUpdateReport")[since:]:
            if s.schema_error:
                self.v.append(("invalid-report", f"{s.schema_error} {s.data}"))
                continue
            m = wire.read_update_report(s.node)
            if len(m["reports"]) != 1:
                self.v.append(("several-reports", f"a message with {len(m['reports'])} reports: {m}"))
            if m["ven_id"] != self.client.ven_id:
                self.v.append(("ven-id", f"{m}"))
            for r in m["reports"]:
                if r["name"] is not None and r["name"] != "TELEMETRY_USAGE":
                    self.v.append(("report-name", f"{r['name']!r}"))
                if r["intervals"]:
                    if r["start"] is not None and r["start"] != min(x[0] for x in r["intervals"]):
                        self.v.append(("report-start", f"starts at {r['start']}, its values at {r['intervals'][0]}"))
                    out.append((r["request_id"], r["specifier_id"], r["intervals"]))
        return out

    def same(self, who, sent, taken):
        """sent: [(time, point, value)]; taken: [(point, begin, end, time, value)] in the order sampled"""
        if len(sent) != len(taken) or {x[1] for x in sent} != {x[0] for x in taken}:
            return f"{len(sent)} values {sent} instead of {len(taken)} {[(x[0], x[4]) for x in taken]}"
        for p in {x[1] for x in sent}:
            for (t, _, val), (_, begin, end, at, want) in zip([x for x in sent if x[1] == p], [x for x in taken if x[0] == p]):
                if val is None or float(val) != float(want):
                    return f"point {p} has value {val} instead of {want}"
                if at is not None and t != at or at is None and not begin - timedelta(milliseconds=1) <= t <= end + timedelta(milliseconds=1):
                    return f"point {p} has time {t} instead of {at or (begin, end)}"
        return None

    def judge(self, requests, what):
        """requests: {rid: (specifier, rounds per message)}: every complete bundle of rounds is one message, in order"""
        sent = {}
        for rid, spec, ivs in self.messages():
            sent.setdefault(rid, []).append((spec, ivs))
        for rid in set(sent) - set(requests):
            self.v.append(("stray-report", f"{what}: a report for {rid!r} was sent"))
        for rid, (spec, per) in requests.items():
            rounds = self.all_rounds(rid)
            bundles = []
            for k in range(len(rounds) // per):
                vals = [x for r in rounds[k * per:(k + 1) * per] for x in r]
                if vals:
                    bundles.append(vals)
            got = sent.get(rid, [])
            if any(s != spec for s, _ in got):
                self.v.append(("specifier", f"{what}: {rid}: {got}"))
            if len(got) != len(bundles):
                few = "lost" if len(got) < len(bundles) else "extra"
                self.v.append((f"{few}-messages", f"{what}: {rid}: {len(got)} messages {[x[1] for x in got]} for {len(bundles)} full bundles {bundles}"))
                continue
            for (_, ivs), b in zip(got, bundles):
                bad = self.same(rid, ivs, b)
                if bad:
                    self.v.append(("content", f"{what}: {rid}: {bad}"))
                    break
        if self.loop.errors:
            self.v.append(("task-error", f"{what}: {self.loop.errors[0]}"[:400]))

    def all_rounds(self, rid):
        """every round in order, also those in which no callback produced a value"""
        d = dict(self.taken.get(rid, []))
        return [d.get(i, []) for i in range(1, self.round.get(rid, 0) + 1) if not (i == 1 and rid in self.jobs)]
