"""C12: registration state on VEN and VTN follows the protocol."""
import asyncio
import itertools
from datetime import timedelta

from .. import boot, wire, evspec
from ..core import Outcome, Product, Histories, Schedules, exc_key
from ..vloop import World
from ..ven import Net, AutoVTN, make_client
from ..vtn import make_server, send

LEVEL = "model_checking"
ASSUMPTIONS = ["an exchange is completed when the VTN answered without an error; an answer that grants a registration carries both a VEN id and a registration id",
               "after a VEN has stopped itself because its registration was refused it is not used again",
               "a re-registration answer without a poll frequency leaves that open; whether report declarations survive a cancelled registration is open",
               "stop() is called before run() or once it has returned, and not twice at the same time",
               "a refused registration may be answered with or without the VEN's own id, but carries no registration id"]
S = timedelta(seconds=1)
ERRORS = (OSError,)


def unreachable():
    from ..props.c13 import fault
    return fault("exc:connector")


# -- 1. the VEN: histories of registrations, cancellations and their outcomes ------------------------------------------------------------

GRANTS = {"granted": ("ven1", "reg1", "PT10S"), "other-ids": ("ven2", "reg2", "PT10S"), "other-frequency": ("ven1", "reg3", "PT30S"), "both": ("ven3", "reg1", "PT25S"),
          "number": ("77", "12", "PT10S")}
REFUSALS = {"refused": dict(), "refused-no-tags": dict(ids_tags=False)}
FAILURES = ["error", "error-with-ids", "unreachable", "http-500", "empty", "response", "response-error", "cut"]
CREATE = list(GRANTS) + list(REFUSALS) + FAILURES
QUERY = ["normal", "with-ids", "unreachable", "error", "response"]
CANCEL = {"confirmed": True, "confirmed-bare": True, "error": False, "unreachable": False, "response": False, "empty": False, "http-500": False}


def create_answer(kind, rid):
    if kind in GRANTS:
        ven, reg, freq = GRANTS[kind]
        return wire.created_party_registration(ven, reg, poll_freq=freq, request_id=rid)
    if kind in REFUSALS:
        return wire.created_party_registration(None, None, request_id=rid, **REFUSALS[kind])
    return {"error": lambda: wire.created_party_registration(None, None, code=463, request_id=rid),
            "error-with-ids": lambda: wire.created_party_registration("venE", "regE", code=463, poll_freq="PT15S", request_id=rid),
            "unreachable": unreachable, "http-500": lambda: (500, b"oops"), "empty": lambda: (200, b""), "response": lambda: wire.oadr_response("ven1"),
            "response-error": lambda: wire.oadr_response("ven1", 452),
            "cut": lambda: wire.created_party_registration("ven1", "reg1", request_id=rid)[:-30]}[kind]()


def query_answer(kind, rid):
    return {"normal": lambda: wire.created_party_registration(None, None, request_id=rid),
            "with-ids": lambda: wire.created_party_registration("ven1", "regQ", request_id=rid),
            "unreachable": unreachable, "error": lambda: wire.created_party_registration(None, None, code=452, request_id=rid, ids_tags=False),
            "response": lambda: wire.oadr_response("ven1")}[kind]()


def cancel_answer(kind, reg, ven, rid):
    return {"confirmed": lambda: wire.canceled_party_registration(reg, ven, rid), "confirmed-bare": lambda: wire.canceled_party_registration(reg, None, rid),
            "error": lambda: wire.canceled_party_registration(reg, ven, rid, 452), "unreachable": unreachable, "response": lambda: wire.oadr_response("ven1"),
            "empty": lambda: (200, b""), "http-500": lambda: (500, b"oops")}[kind]()


class Sim:
    WINDOW = 65

    def __init__(self, loop, ven_id, reports):
        from apscheduler.schedulers.asyncio import AsyncIOScheduler
        self.loop, self.reports = loop, reports
        self.bad = []
        self.next = {}                    # message type -> answer to the next such message
        self.polls = []
        self.times = []
        self.auto = AutoVTN()
        self.net = Net(self.answer)
        self.client = c = make_client(self.net, ven_id=ven_id, fake_scheduler=False, event_status_log_period=10 ** 8, events_clean_up_period=10 ** 8)
        c.scheduler = AsyncIOScheduler(timezone="UTC")
        self.calls, self.samples, self.since = [], 0, 0
        c.add_handler("on_event", lambda e: self.calls.append(e["event_descriptor"]["event_id"]) or "optIn")
        self.declare()
        # the model
        self.ven, self.reg, self.freq, self.phase = ven_id, None, None, "new"       # new, working, cancelled, over
        self.n = 0

    def declare(self):
        c = self.client
        if self.reports:
            def sample():
                self.samples += 1
                return float(self.samples)
            c.add_report(sample, resource_id="dev", measurement="voltage", report_specifier_id="s1", r_id="a", sampling_rate=10 * S, report_name="TELEMETRY_USAGE")

    def answer(self, net, rec):
        t = rec.type
        self.times.append((boot.CLOCK.now(), rec))
        if t in self.next:
            return self.next.pop(t)(rec.node.get("requestID") or "rq")
        if t == "oadrPoll":
            return self.polls.pop(0) if self.polls else wire.oadr_response(rec.node.get("venID"))
        if t == "oadrRegisterReport":
            ids = [r.get("reportSpecifierID") for r in rec.node.all("oadrReport")]
            return wire.registered_report([wire.report_request("rr1", "s1", ["a"], "PT10S", "PT40S")] if "s1" in ids else [], self.auto.ven_id,
                                          request_id=rec.node.get("requestID"))
        return self.auto(net, rec)

    def do(self, coro, what):
        try:
            self.loop.run(coro)
            self.loop.settle()
        except Exception as e:
            self.bad.append((f"escaped:{exc_key(e)}", f"{what}: {type(e).__name__}: {e}"))

    def step(self, op):
        self.bad = []
        c = self.client
        k = len(self.times)
        name = op[0]
        self.n += 1
        if name == "run":
            _, q, a = op
            self.next = {"oadrQueryRegistration": lambda rid: query_answer(q, rid), "oadrCreatePartyRegistration": lambda rid: create_answer(a, rid)}
            self.since = self.samples
            self.do(c.run(), str(op))
            if a in GRANTS:
                self.ven, self.reg, self.freq = GRANTS[a]
                self.phase = "working"
            else:
                self.reg, self.phase = None, "over"
        elif name == "rereg":
            _, how, a = op
            self.next = {"oadrCreatePartyRegistration": lambda rid: create_answer(a, rid)}
            if how == "asked":
                self.polls.append(wire.request_reregistration(self.ven))
                self.wait_for("oadrCreatePartyRegistration")
            else:
                self.do(c.create_party_reregistration(), str(op))
            reqs = [r for _, r in self.times[k:] if r.type == "oadrCreatePartyRegistration"]
            if len(reqs) != 1:
                self.bad.append(("not-carried-out", f"{op}: {len(reqs)} registration requests"))
            elif (reqs[0].node.get("venID"), reqs[0].node.get("registrationID")) != (self.ven, self.reg):
                self.bad.append(("re-registration-ids", f"{op}: asked as {reqs[0].node.get('venID')!r}, {reqs[0].node.get('registrationID')!r} instead of {(self.ven, self.reg)}"))
            if a in GRANTS:
                self.ven, self.reg, self.freq = GRANTS[a]
            elif a in REFUSALS:
                self.reg, self.phase = None, "over"
        elif name == "cancel":
            _, a = op
            self.next = {"oadrCancelPartyRegistration": lambda rid: cancel_answer(a, self.reg, self.ven, rid)}
            self.do(c.cancel_party_registration(), str(op))
            sent = [r for _, r in self.times[k:] if r.type == "oadrCancelPartyRegistration"]
            if self.phase in ("working",):
                if len(sent) != 1 or (sent[0].node.get("venID"), sent[0].node.get("registrationID")) != (self.ven, self.reg):
                    self.bad.append(("cancel-request", f"{op}: sent {[(r.node.get('venID'), r.node.get('registrationID')) for r in sent]} for {(self.ven, self.reg)}"))
                if CANCEL[a]:
                    self.reg, self.phase = None, "cancelled"
            elif sent:
                self.bad.append(("cancel-request", f"{op}: a VEN without a registration sent a cancellation"))
        elif name == "canceled":
            _, which, fate = op
            reg = self.reg if which == "own" else "foreign"
            self.polls.append(wire.cancel_party_registration(reg, self.ven, f"can{self.n}"))
            if fate == "lost":
                self.next = {"oadrCanceledPartyRegistration": lambda rid: unreachable()}
            self.wait_for("oadrCanceledPartyRegistration")
            sent = [r for _, r in self.times[k:] if r.type == "oadrCanceledPartyRegistration"]
            want = 200 if which == "own" else 452
            if len(sent) != 1:
                self.bad.append(("cancel-confirmation", f"{op}: {len(sent)} confirmations"))
            else:
                r = wire.resp(sent[0].node)
                if (r[0], r[2], sent[0].node.get("registrationID"), sent[0].node.get("venID")) != (want, f"can{self.n}", self.reg, self.ven):
                    self.bad.append(("cancel-confirmation", f"{op}: confirmed with {r}, {sent[0].node.get('registrationID')!r}, {sent[0].node.get('venID')!r}; registered as "
                                     f"{(self.ven, self.reg)}"))
            if which == "own":
                self.reg, self.phase = None, "cancelled"
        elif name == "declare":
            try:
                if self.reports and not any(utils_member(r) == "s1" for r in c.reports or []):
                    self.declare()
            except Exception as e:
                self.bad.append((f"escaped:{exc_key(e)}", f"declaring a report after a cancelled registration: {type(e).__name__}: {e}"))
        self.next = {}
        self.polls.clear()
        if c.registration_id != self.reg and str(c.registration_id) != str(self.reg):
            self.bad.append(("registration", f"{op}: the VEN has registration {c.registration_id!r} instead of {self.reg!r}"))
        if self.reg and str(c.ven_id) != self.ven:
            self.bad.append(("ven-id", f"{op}: the VEN calls itself {c.ven_id!r} instead of {self.ven!r}"))
        if self.reg and c.poll_frequency != freq(self.freq):
            self.bad.append(("poll-frequency", f"{op}: the poll frequency is {c.poll_frequency} instead of {self.freq}"))
        for _, r in self.times[k:]:
            if r.schema_error:
                self.bad.append(("invalid-message", f"{op}: sent an invalid {r.type}: {r.schema_error}"))
        self.watch(op)
        old = [v for _, r in self.times[k:] if r.type == "oadrUpdateReport" for v in reported(r) if v <= self.since]
        if old:
            self.bad.append(("old-values", f"{op}: the values {old} were reported, collected before the VEN was started again"))
        return self.bad

    def wait_for(self, typ):
        """let time pass until the VEN has polled and done what it was told"""
        n = len(self.times)
        for _ in range(8):
            self.loop.run_for(10)
            self.loop.settle()
            if any(r.type == typ for _, r in self.times[n:]):
                return

    def watch(self, op):
        """what the VEN does when left alone for a while"""
        t0, k, calls, samples = boot.CLOCK.now(), len(self.times), len(self.calls), self.samples
        ev = f"e{self.n}"
        if self.phase == "working":
            self.polls.append(wire.distribute_event([wire.event(ev, start=t0 + timedelta(hours=1))]))
        self.loop.run_for(self.WINDOW)
        self.loop.settle()
        seen = self.times[k:]
        polls = [t for t, r in seen if r.type == "oadrPoll"]
        if self.phase == "working":
            step = freq(self.freq)
            points = [t0] + polls + [t0 + self.WINDOW * S]
            if any(b - a > step + timedelta(milliseconds=5) for a, b in zip(points, points[1:])) or any(
                    b - a < step - timedelta(milliseconds=5) for a, b in zip(polls, polls[1:])):
                self.bad.append(("polling", f"after {op}: polls every {self.freq} expected, but they are at {[str(t - t0) for t in polls]}"))
            wrong = {r.node.get("venID") for _, r in seen if r.type in ("oadrPoll", "oadrUpdateReport")} - {self.ven}
            if wrong:
                self.bad.append(("ven-id", f"after {op}: messages name {wrong} instead of {self.ven!r}"))
            if self.calls[calls:] != [ev]:
                self.bad.append(("not-working", f"after {op}: a new event reached the handler as {self.calls[calls:]}"))
            if [(r.node.get("eiCreatedEvent/venID")) for _, r in seen if r.type == "oadrCreatedEvent"] != [self.ven]:
                self.bad.append(("not-working", f"after {op}: the new event was answered with {[r.type for _, r in seen]}"))
            if self.reports and self.offered() and not any(r.type == "oadrUpdateReport" for _, r in seen):
                self.bad.append(("not-reporting", f"after {op}: no report in {self.WINDOW} s; samples {self.samples - samples}"))
        else:
            if seen:
                self.bad.append(("not-silent", f"after {op}, {self.phase}: the VEN sent {[r.type for _, r in seen]}"))
            if self.samples != samples:
                self.bad.append(("sampling", f"after {op}, {self.phase}: the report callback was called {self.samples - samples} times"))
        if self.loop.errors:
            self.bad.append(("task-error", f"after {op}: {self.loop.errors[0]!r}"[:500]))
            self.loop.errors.clear()

    def offered(self):
        """did the last registration offer the report (and the VTN ask for it)?"""
        regs = [r for _, r in self.times if r.type == "oadrRegisterReport"]
        return bool(regs) and any(x.get("reportSpecifierID") == "s1" for x in regs[-1].node.all("oadrReport"))

    def ops(self, tier="quick"):
        if self.phase == "new":
            return [("run", q, a) for a in CREATE for q in QUERY] + [("cancel", "confirmed")]
        if self.phase == "working":
            return [("rereg", how, a) for how in ("asked", "called") for a in CREATE] + [("cancel", a) for a in CANCEL] + \
                   [("canceled", w, f) for w in ("own", "foreign") for f in ("arrives", "lost")]
        if self.phase == "cancelled":
            out = [("cancel", "confirmed")] + [("run", q, a) for a in ("granted", "other-ids", "other-frequency", "refused", "error", "unreachable") for q in ("normal", "unreachable")]
            return out + ([("declare",)] if self.reports else [])
        return []


def reported(rec):
    """the values in an update report"""
    return [float(val) for r in wire.read_update_report(rec.node)["reports"] for _, _, val in r["intervals"]]


def utils_member(report):
    return getattr(report, "report_specifier_id", None) if not isinstance(report, dict) else report.get("report_specifier_id")


def freq(s):
    return timedelta(seconds=int(s[2:-1]))


def run_history(param, hist):
    ven_id, reports = param
    with World() as loop:
        sim = Sim(loop, ven_id, reports)
        bad, over = [], False
        for op in hist:
            bad = sim.step(op)
        bad = [("history/" + k, f"{'with' if reports else 'without'} reports, configured as {ven_id!r}, history {hist}: {m}") for k, m in bad]
        c = sim.client
        canon = (sim.phase, sim.ven, sim.reg, sim.freq, c.registration_id, c.ven_id, str(c.poll_frequency), repr(c.report_requests)[:300] if sim.phase != "over" else "",
                 len(c.reports or []), sorted(str(j.trigger) for j in c.scheduler.get_jobs()), c.scheduler.running, sim.offered(),
                 )
        ops = sim.ops()
        try:
            if c.scheduler.running:
                c.scheduler.shutdown(wait=False)
        except Exception:
            pass
    return Outcome(bad, obs=(canon[:6], [k for k, _ in bad]), canon=canon, ops=ops, steps=sim.n)


def again_cases(tier):
    """a VEN that reports, is cancelled in the middle of a report, declares its report anew and starts again"""
    for end in [("cancel", "confirmed"), ("canceled", "own", "arrives"), ("canceled", "own", "lost")]:
        for first in ("granted", "other-ids") if tier == "quick" else GRANTS:
            for then in GRANTS:
                yield [("run", "normal", first), end, ("declare",), ("run", "normal", then)]
                yield [("run", "normal", first), ("cancel", "error"), end, ("declare",), ("run", "normal", then), ("rereg", "asked", first)]
                if tier != "quick":
                    for end2 in [("cancel", "confirmed"), ("canceled", "own", "arrives")]:
                        yield [("run", "normal", first), end, ("declare",), ("run", "normal", then), end2, ("declare",), ("run", "normal", first)]


def run_again(hist):
    bad = []
    with World() as loop:
        sim = Sim(loop, "ven1", True)
        for op in hist:
            bad += sim.step(op)
        if sim.client.scheduler.running:
            sim.client.scheduler.shutdown(wait=False)
    bad = [("again/" + k, f"history {hist}: {m}") for k, m in bad]
    return Outcome(bad, obs=(sim.phase, sim.ven, sim.reg, sim.samples), steps=len(hist))


# -- 2. poll frequencies ----------------------------------------------------------------------------------------------------------------

FREQS = ["PT1S", "PT5S", "PT10S", "PT59S", "PT1M", "PT90S", "PT1H", "PT23H59M59S", "PT24H", "P1D", "P1DT1S", "P2D", None]


def seconds_of(f):
    table = {"PT1S": 1, "PT5S": 5, "PT10S": 10, "PT59S": 59, "PT1M": 60, "PT90S": 90, "PT1H": 3600, "PT23H59M59S": 86399, "PT24H": 86400, "P1D": 86400}
    return table.get(f, 86400 if f else None)


def frequency_cases(tier):
    return [[a, b, how] for a in FREQS for b in [0] + FREQS for how in (("asked", "called") if b != 0 else ("none",))]


def run_frequency(case):
    """the polls come at the frequency of the last registration"""
    first, second, how = case
    bad = []
    with World() as loop:
        sim = Sim(loop, "ven1", False)
        current = [first]
        sim.auto = AutoVTN()

        def answer(net, rec):
            sim.times.append((boot.CLOCK.now(), rec))
            if rec.type == "oadrCreatePartyRegistration":
                return wire.created_party_registration("ven1", "reg1", poll_freq=current[0])
            if rec.type == "oadrPoll":
                return sim.polls.pop(0) if sim.polls else wire.oadr_response("ven1")
            return sim.auto(net, rec)
        sim.net.answer = answer
        sim.do(sim.client.run(), "run")

        def check(f, what):
            sec = seconds_of(f)
            if sec is None:
                return
            t0, k = boot.CLOCK.now(), len(sim.times)
            for _ in range(60):
                loop.run_for((3 * sec + 0.5) / 60)
                polls = [t for t, r in sim.times[k:] if r.type == "oadrPoll"]
                if len(polls) > 20:
                    break
            points = [t0] + polls
            ms = timedelta(milliseconds=5)
            if not 3 <= len(polls) <= 4 or any(b - a > sec * S + ms for a, b in zip(points, points[1:])) or any(b - a < sec * S - ms for a, b in zip(polls, polls[1:])):
                bad.append((f"frequency/{what}", f"{case}: polls {[str(t - t0) for t in polls]} after a registration with poll frequency {f} ({what})"))
        check(first, "first")
        if second != 0 and not bad:
            current[0] = second
            if how == "asked":
                sim.polls.append(wire.request_reregistration("ven1"))
                loop.run_for((seconds_of(first) or 10) + 1)
            else:
                sim.do(sim.client.create_party_reregistration(), "re-registration")
            if not [r for _, r in sim.times if r.type == "oadrCreatePartyRegistration"][1:]:
                bad.append(("frequency/rereg", f"{case}: no re-registration"))
            check(second, "second")
        bad += [("frequency/" + k, m) for k, m in sim.bad]
        if sim.client.scheduler.running:
            sim.client.scheduler.shutdown(wait=False)
    return Outcome(bad, obs=case, steps=2)


# -- 3. cancelling while something is going on ----------------------------------------------------------------------------------------------

BUSY = ["poll-event", "poll-nothing", "poll-create-report", "poll-reregister", "sample", "sample-full", "update", "updates", "cancel-report"]


def sched_params(tier):
    out = [(by, (a,)) for by in ("ven", "vtn") for a in BUSY]
    pairs = itertools.combinations(BUSY, 2)
    out += [(by, p) for by in ("ven", "vtn") for p in pairs if not (p[0].startswith("poll") and p[1].startswith("poll"))]
    return out


def run_sched(param, ch):
    """exchanges and samples are under way while the registration is cancelled; every order of completion; then nothing more is sent until a new registration"""
    by, busy = param
    with World() as loop:
        from apscheduler.schedulers.asyncio import AsyncIOScheduler
        gates, log, calls = [], [], []
        slow = [False]
        auto = AutoVTN(report_requests=[wire.report_request("rr1", "s1", ["a"], "PT10S", "PT10S"), wire.report_request("rr2", "s2", ["b"], "PT10S", "PT10S")])
        polls = []

        async def answer(net, rec):
            log.append(rec)
            if slow[0]:
                g = loop.create_future()
                gates.append((rec.type, g))
                await g
            if rec.type == "oadrPoll" and polls:
                return polls.pop(0)
            return auto(net, rec)
        net = Net(answer)
        c = make_client(net, event_status_log_period=10 ** 8, events_clean_up_period=10 ** 8)

        async def sample(**kw):
            if slow[0]:
                g = loop.create_future()
                gates.append(("sample", g))
                await g
            return 1.0 if not kw else [(kw["date_from"], 1.0)]

        async def full(date_from, date_to, sampling_interval):
            return await sample(date_from=date_from)
        c.add_handler("on_event", lambda e: calls.append(e) or "optIn")
        c.add_report(sample, resource_id="dev", measurement="voltage", report_specifier_id="s1", r_id="a", sampling_rate=10 * S, report_name="TELEMETRY_USAGE")
        c.add_report(full, resource_id="dev", measurement="voltage", report_specifier_id="s2", r_id="b", sampling_rate=10 * S, report_name="TELEMETRY_USAGE",
                     data_collection_mode="full")
        loop.run(c.run())
        loop.settle()
        bad = []
        jobs = list(c.scheduler.jobs)
        cron = [j for j in jobs if j.trigger == "cron" or "report" in repr(j.func)]
        poll = [j for j in jobs if j.trigger == "interval" and j.trig_args.get("seconds") == 10]
        tasks = []
        slow[0] = True

        def spawn(coro):
            async def quiet():
                try:
                    await coro
                except Exception as e:
                    bad.append((f"cancel/escaped:{exc_key(e)}", f"{param}: {type(e).__name__}: {e}"))
            tasks.append(loop.create_task(quiet()))
        boot.CLOCK.advance(10)
        for b in busy:
            if b.startswith("poll"):
                polls.append({"poll-event": wire.distribute_event([wire.event("e1", start=boot.CLOCK.now() + timedelta(hours=1))]), "poll-nothing": wire.oadr_response("ven1"),
                              "poll-create-report": wire.create_report([wire.report_request("rr3", "s1", ["a"], "PT10S", "PT10S")]),
                              "poll-reregister": wire.request_reregistration("ven1")}[b])
                spawn(poll[0].fire())
            elif b == "cancel-report":
                spawn(c.cancel_report({"report_request_id": "rr1", "report_to_follow": True, "request_id": "q", "ven_id": "ven1"}))
            else:
                if b == "updates":
                    spawn(cron[1].fire())
                if len(cron) == 2:
                    spawn(cron[1 if b == "sample-full" else 0].fire())
            if b in ("update", "updates"):
                loop.settle()
                for g in [g for g in gates if g[0] == "sample"]:
                    gates.remove(g)
                    g[1].set_result(None)
                loop.settle()
        loop.settle()
        if by == "ven":
            spawn(c.cancel_party_registration())
        else:
            spawn(c.on_cancel_party_registration({"registration_id": "reg1", "request_id": "q", "ven_id": "ven1"}))
        loop.settle()
        gates[:] = [g for g in gates if not g[1].done()]
        mark = None
        while gates:
            i = ch.choose([f"{k}:{g[0]}" for k, g in enumerate(gates)])
            gates.pop(int(i.split(":")[0]))[1].set_result(None)
            loop.settle()
            gates[:] = [g for g in gates if not g[1].done()]
            if mark is None and c.registration_id is None:
                mark = len(log)
        if not all(t.done() for t in tasks):
            bad.append(("cancel/stuck", f"{param}: something never ends"))
        rereg = "poll-reregister" in busy and any(r.type == "oadrCreatePartyRegistration" for r in log)
        if not rereg:
            if c.registration_id is not None:
                bad.append(("cancel/registration", f"{param}: still registered as {c.registration_id}"))
            slow[0] = False
            before = len(log)
            boot.CLOCK.advance(10)
            for j in list(c.scheduler.jobs):
                try:
                    loop.run(j.fire())
                except Exception as e:
                    bad.append((f"cancel/escaped:{exc_key(e)}", f"{param}: job {j.func}: {type(e).__name__}: {e}"))
            loop.settle()
            late = [r.type for r in (log[mark:] if mark is not None else log[before:]) if r.type in ("oadrPoll", "oadrUpdateReport")]
            if late:
                bad.append(("cancel/late", f"{param}: after the cancellation the VEN sent {late}"))
            # and it can start again
            n = len(log)
            try:
                for spec, r, f in (("s1", "a", sample),):
                    if not any(x.report_specifier_id == spec for x in c.reports):
                        c.add_report(f, resource_id="dev", measurement="voltage", report_specifier_id=spec, r_id=r, sampling_rate=10 * S, report_name="TELEMETRY_USAGE")
                loop.run(c.run())
                loop.settle()
                boot.CLOCK.advance(10)
                for j in list(c.scheduler.jobs):
                    loop.run(j.fire())
                loop.settle()
                types = {r.type for r in log[n:]}
                if not {"oadrCreatePartyRegistration", "oadrPoll", "oadrUpdateReport"} <= types or not c.registration_id:
                    bad.append(("cancel/again", f"{param}: after a new registration the VEN sends only {sorted(types)}"))
                # its reports can be cancelled
                n = len(log)
                polls.append(wire.cancel_report("rr1"))
                for j in list(c.scheduler.jobs):
                    if "poll" in repr(j.func):
                        loop.run(j.fire())
                loop.settle()
                if not any(r.type == "oadrCanceledReport" for r in log[n:]):
                    bad.append(("cancel/again-report", f"{param}: after a new registration the cancellation of a report is not confirmed: {[r.type for r in log[n:]]}"))
            except Exception as e:
                bad.append((f"cancel/again:{exc_key(e)}", f"{param}: starting again: {type(e).__name__}: {e}"))
        if loop.errors:
            bad.append(("cancel/task-error", f"{param}: {loop.errors[0]!r}"[:600]))
        return Outcome(bad, obs=(param, [r.type for r in log][-12:], len(calls)))


# -- 3b. stopping --------------------------------------------------------------------------------------------------------------------------------

MOMENTS = {"new": None, "refused": None, "idle": None, "cancelled": None, "poll": "oadrPoll", "event-handler": "handler", "update-handler": "handler", "created-event": "oadrCreatedEvent",
           "sample": "sample", "update": "oadrUpdateReport", "rereg": "oadrCreatePartyRegistration", "rereg-reports": "oadrRegisterReport", "cancel-report": "oadrCanceledReport",
           "created-report": "oadrCreatedReport", "cancel": "oadrCancelPartyRegistration"}


def stop_cases(tier):
    for moment in MOMENTS:
        for how in ("once", "twice"):
            for then in ("answers", "breaks", "hangs") if MOMENTS[moment] else ("hangs",):
                for wait in (0, 1, 9.9, 10, 35) if tier == "quick" else (0, 0.5, 1, 5, 9.9, 10, 10.1, 20, 35, 61):
                    yield [moment, how, then, wait]


def run_stop(case):
    """the VEN is stopped while it is busy with something"""
    from apscheduler.schedulers.asyncio import AsyncIOScheduler
    import aiohttp
    moment, how, then, wait = case
    bad, hold, gates, acts = [], set(), [], []
    with World() as loop:
        auto, polls = AutoVTN(), []

        async def gate(what):
            if what in hold:
                f = loop.create_future()
                gates.append(f)
                await f

        async def answer(net, rec):
            acts.append(rec.type)
            await gate(rec.type)
            if rec.type == "oadrPoll":
                return polls.pop(0) if polls else wire.oadr_response("ven1")
            if rec.type == "oadrCreatePartyRegistration":
                return create_answer("refused" if moment == "refused" else "granted", rec.node.get("requestID") or "rq")
            if rec.type == "oadrCancelPartyRegistration":
                return cancel_answer("confirmed", "reg1", "ven1", rec.node.get("requestID") or "rq")
            if rec.type == "oadrRegisterReport":
                return wire.registered_report([wire.report_request("rr1", "s1", ["a"], "PT10S", "PT10S")], "ven1", request_id=rec.node.get("requestID"))
            return auto(net, rec)
        c = make_client(Net(answer), fake_scheduler=False, event_status_log_period=300, events_clean_up_period=300)
        c.scheduler = AsyncIOScheduler(timezone="UTC")

        async def sample():
            acts.append("sample")
            await gate("sample")
            return 1.0

        async def on_event(e):
            acts.append("handler")
            await gate("handler")
            return "optIn"
        c.add_handler("on_event", on_event)
        c.add_handler("on_update_event", on_event)
        c.add_report(sample, resource_id="dev", measurement="voltage", report_specifier_id="s1", r_id="a", sampling_rate=10 * S, report_name="TELEMETRY_USAGE")
        tasks = []
        try:
            if moment != "new":
                loop.run(c.run())
                loop.settle()
                loop.run_for(wait)
            ev = [wire.distribute_event([wire.event("e1", mod=m, start=boot.CLOCK.now() + timedelta(hours=1))]) for m in (0, 1)]
            if moment == "update-handler":
                polls.append(ev[0])
                loop.run_for(11)
            polls.extend({"event-handler": ev[:1], "update-handler": ev[1:], "created-event": ev[:1], "rereg": [wire.request_reregistration("ven1")],
                          "rereg-reports": [wire.request_reregistration("ven1")], "cancel-report": [wire.cancel_report("rr1")],
                          "created-report": [wire.create_report([wire.report_request("rr3", "s1", ["a"], "PT10S", "PT10S")])]}.get(moment, []))
            if MOMENTS[moment]:
                hold.add(MOMENTS[moment])
            if moment == "cancel":
                tasks.append(loop.create_task(c.cancel_party_registration()))
                loop.settle()
            elif MOMENTS[moment]:
                loop.run_for(21)
            if moment == "cancelled":
                loop.run(c.cancel_party_registration())
            if MOMENTS[moment] and not gates:
                raise AssertionError(f"{case}: the moment does not come: {acts}")
            stops = [loop.create_task(c.stop())]
            loop.run_for(1)
            if how == "twice":
                stops.append(loop.create_task(c.stop()))
                loop.run_for(1)
            for t in stops:
                if not t.done():
                    bad.append(("stop/stuck", f"{case}: stop() does not return"))
                elif t.exception():
                    bad.append((f"stop/escaped:{exc_key(t.exception())}", f"{case}: stop() raised {t.exception()!r}"))
            mark = len(acts)
            hold.clear()
            for g in gates:
                if not g.done() and then == "answers":
                    g.set_result(None)
                elif not g.done() and then == "breaks":
                    g.set_exception(aiohttp.ServerDisconnectedError() if MOMENTS[moment].startswith("oadr") else RuntimeError("cut short"))
            loop.run_for(400)
            loop.settle()
            if acts[mark:]:
                bad.append(("stop/not-silent", f"{case}: after stop() the VEN goes on: {acts[mark:]}"))
            if getattr(c, "client_session", None) is not None and not c.client_session.closed:
                bad.append(("stop/open", f"{case}: stop() leaves the VEN's connections open"))
            if loop.errors:
                bad.append(("stop/task-error", f"{case}: {loop.errors[0]!r}"[:500]))
        finally:
            for t in tasks:
                t.cancel()
            if c.scheduler.running:
                c.scheduler.shutdown(wait=False)
    return Outcome(bad, obs=(case, acts), steps=len(acts))


# -- 4. the VTN: what the handlers get and what the answers say ---------------------------------------------------------------------------------

RESULTS = {"pair": ("v", "r"), "list": ["v", "r"], "false": False, "none": None, "other": ("venX", "regY"), "numbers": ("0", "00"), "odd": ("a&b", "<x>"), "triple": ("a", "b", "c"),
           "single": ("a",), "no-ids": (None, None), "no-registration": ("v", None)}


def vtn_cases(tier):
    for result, style, freq_ in itertools.product(RESULTS, ("sync", "async"), (1, 10, 3600)):
        yield [result, style, freq_]


def run_vtn(case):
    result, style, poll = case
    bad, n = [], 0
    with World() as loop:
        got = []

        def decide(info):
            got.append(dict(info))
            return RESULTS[result]

        async def adecide(info):
            return decide(info)
        server = make_server(requested_poll_freq=timedelta(seconds=poll))
        server.add_handler("on_create_party_registration", adecide if style == "async" else decide)
        canceled = []

        def on_cancel(p):
            canceled.append(dict(p))

        async def aon_cancel(p):
            canceled.append(dict(p))
        server.add_handler("on_cancel_party_registration", aon_cancel if style == "async" else on_cancel)
        for ven, reg, name, transport, profile in itertools.product((None, "ven1", "0"), (None, "reg1", "007"), ("me", "a & b", "12"), ("simpleHttp", "xmpp"), ("2.0b", "2.0a")):
            xml = wire.create_party_registration(name, ven, reg, "rq1", profile, transport)
            n += 1
            r = loop.run(send(server, xml))
            what = f"{case}: a registration as {(ven, reg, name, transport, profile)}"
            if r.status != 200 or r.type != "oadrCreatedPartyRegistration" or r.schema_error:
                bad.append(("vtn/answer", f"{what}: {r.summary()} {r.schema_error if r.status == 200 else ''}"))
                continue
            g = got.pop()
            want = {"ven_name": name, "transport_name": transport, "profile_name": profile, "http_pull_model": True, "report_only": False, "xml_signature": False,
                    "request_id": "rq1", "ven_id": ven, "registration_id": reg}
            diff = {k: (g.get(k), v) for k, v in want.items() if g.get(k) != v and not (k in ("ven_name", "ven_id", "registration_id") and str(g.get(k)) == str(v))}
            if diff:
                bad.append(("vtn/handler", f"{what}: the handler saw {diff}"))
            x = RESULTS[result]
            accepted = isinstance(x, (tuple, list)) and len(x) == 2 and x[0] is not None and x[1] is not None
            ids = (r.node.get("venID") or None, r.node.get("registrationID") or None)
            if accepted:
                if ids != (str(x[0]), str(x[1])):
                    bad.append(("vtn/granted", f"{what}: the handler granted {x}, the answer says {ids}"))
                if r.resp()[0] != 200:
                    bad.append(("vtn/granted", f"{what}: granted, but answered {r.resp()}"))
                f = r.node.get("oadrRequestedOadrPollFreq/duration")
                if f is None or wire.parse_dur(f) != timedelta(seconds=poll):
                    bad.append(("vtn/frequency", f"{what}: the poll frequency is {f}, not {poll} s"))
            elif ids[1] is not None:
                bad.append(("vtn/refused", f"{what}: the handler decided {x}, but the answer carries registration {ids}"))
            elif ids[0] is not None and ids[0] != ven and x not in (("v", None),):
                bad.append(("vtn/refused", f"{what}: the handler decided {x}, but the answer names {ids}"))
        r = loop.run(send(server, wire.query_registration("q1")))
        if r.status != 200 or r.type != "oadrCreatedPartyRegistration" or r.schema_error or r.node.get("registrationID") or wire.parse_dur(
                r.node.get("oadrRequestedOadrPollFreq/duration")) != timedelta(seconds=poll):
            bad.append(("vtn/query", f"{case}: a query is answered with {r.summary()}"))
        for ven, reg in itertools.product((None, "ven1"), ("reg1", "0", "007", "a&b")):
            n += 1
            r = loop.run(send(server, wire.cancel_party_registration(reg, ven, "rq5")))
            if r.status != 200 or r.type != "oadrCanceledPartyRegistration" or r.schema_error or r.resp()[0] != 200 or r.node.get("registrationID") != reg or (
                    r.node.get("venID") or None) != ven:
                bad.append(("vtn/cancel", f"{case}: cancelling {(ven, reg)} is answered with {r.summary()} {r.body[-400:]}"))
            elif not canceled or str(canceled[-1].get("registration_id")) != reg or canceled[-1].get("ven_id") != ven:
                bad.append(("vtn/cancel-handler", f"{case}: cancelling {(ven, reg)} gave the handler {canceled[-1:]}"))
            canceled.clear()
    return Outcome(bad, obs=case, steps=n)


# -- 5. both together -------------------------------------------------------------------------------------------------------------------

def pair_cases(tier):
    decisions = ["grant", "other", "refuse", "none", "raise", "oos"]
    for first in decisions:
        for seq in itertools.product(decisions, repeat=1 if tier == "quick" else 2):
            for ven_id in ("ven1", None):
                yield [first, list(seq), ven_id]


def run_pair(case):
    """a real VEN registers, and then re-registers, with a real VTN whose application decides as told"""
    first, seq, ven_id = case
    bad = []
    with World() as loop:
        from openleadr import errors
        decision = [first]
        seen = []

        def decide(info):
            seen.append(info.get("ven_id"))
            d = decision[0]
            if d == "raise":
                raise ValueError("no")
            if d == "oos":
                raise errors.OutOfSequenceError()
            return {"grant": ("ven1", "reg1"), "other": ("ven2", "reg2"), "refuse": False, "none": None}[d]
        server = make_server(requested_poll_freq=timedelta(seconds=10))
        server.add_handler("on_create_party_registration", decide)

        async def answer(net, rec):
            r = await send(server, rec.data, rec.service)
            return boot.FakeResponse(r.status, r.body)
        net = Net(answer)
        c = make_client(net, ven_id=ven_id)
        loop.run(c.run())
        loop.settle()
        ids = {"grant": ("ven1", "reg1"), "other": ("ven2", "reg2")}
        reg = ids.get(first)

        def check(what):
            if (c.registration_id is not None) != (reg is not None) or reg and (c.ven_id, c.registration_id) != reg:
                bad.append(("pair/registration", f"{case}: {what}: the VEN has {(c.ven_id, c.registration_id)}, the VTN decided {reg}"))
            if c.scheduler.running != (reg is not None):
                bad.append(("pair/polling", f"{case}: {what}: registered {reg}, polling {c.scheduler.running}"))
        check("first")
        for d in seq:
            if reg is None or bad:
                break
            decision[0] = d
            loop.run(c.create_party_reregistration())
            loop.settle()
            if d in ids:
                reg = ids[d]
            elif d in ("refuse", "none"):
                reg = None
            check(d)
    return Outcome(bad, obs=(case, reg), steps=1 + len(seq))


def scenarios(tier):
    return [
        Histories("ven", run_history, depth={"quick": 3, "thorough": 5}, params=[("ven1", True), (None, False)] + ([(None, True), ("ven1", False)] if tier != "quick" else []),
                  note="starting, re-registering, cancelling by either side with every outcome; after each operation the VEN is watched for 65 s on its real scheduler"),
        Product("again", again_cases, run_again, note="cancelled in the middle of a report, declared anew and started again: nothing from before is sent"),
        Product("frequency", frequency_cases, run_frequency, note="every pair of poll frequencies of a registration and a re-registration"),
        Schedules("cancel", run_sched, sched_params(tier), note="cancelling while polls, samples and reports are under way; every order of completion; then a new start"),
        Product("stop", stop_cases, run_stop, note="stopped at any moment, once or twice, while something is under way; the VEN is then watched for 400 s"),
        Product("vtn", vtn_cases, run_vtn, note="every decision of the application x requests of all shapes"),
        Product("pair", pair_cases, run_pair, note="a real VEN and a real VTN; sequences of decisions"),
    ]
