"""C17: reporting keeps going through failures and stops on cancellation."""
import asyncio
import itertools

from .. import boot, wire
from ..core import Outcome, Histories, Product, Schedules
from ..vloop import World
from ..ven import AutoVTN
from ..rep import Rep, WHO, S, secs
from .c15 import REQS, per

LEVEL = "model_checking"
ASSUMPTIONS = ["at a cancellation the VEN may sample a periodic report one last time; a callback in progress at that moment may be dropped",
               "a report that could not be sent is not sent again",
               "if the VTN announces that a report is to follow, the remaining samples may follow the confirmation"]

OFFERS = {"s1": {"a": "number", "b": "number"}, "s2": {"c": "number", "d": "number"}}


def fault(kind):
    import aiohttp
    if kind == "refused":
        return aiohttp.ClientConnectionError("refused")
    if kind == "timeout":
        return asyncio.TimeoutError()
    return {"500": (500, b"oops"), "garbage": (200, b"<not-xml"), "empty": (200, b""), "wrong": (200, wire.oadr_response("ven1", 200)),
            "error": (200, wire.updated_report("ven1", code=450)), "nocode": (200, wire.created_opt("x"))}[kind]


FAULTS = ["refused", "timeout", "500", "garbage", "empty", "wrong", "error", "nocode"]


class Bad:
    def __str__(self):
        raise RuntimeError("cannot be written")
    __repr__ = __str__


class Sim(Rep):
    """records in self.trace what left the VEN and when reports were cancelled"""

    def __init__(self, loop, **kw):
        self.next_update = None
        self.unsendable = False
        super().__init__(loop, OFFERS, **kw)
        self.vtn.override["oadrUpdateReport"] = self.update_answer
        self.dead = {}               # rid -> is a report to follow?
        self.want_confirmed = []     # request ids of cancellations to be confirmed

    def update_answer(self, rec):
        a, self.next_update = self.next_update, None
        if a is None:
            return wire.updated_report("ven1")
        return a

    def cancel_xml(self, ids, follow, how):
        if how == "poll":
            return wire.cancel_report(ids, to_follow=follow)
        return wire.updated_report("ven1", cancel=ids, to_follow=follow)

    def note_cancel(self, ids, follow):
        known = [i for i in (ids if isinstance(ids, list) else [ids]) if i in self.known and i not in self.dead]
        for i in known:
            self.dead[i] = follow
        return known

    def judge17(self, what, per_of, once=()):
        conf = [i for i, r in enumerate(self.net.log) if r.type == "oadrCanceledReport"]
        if len(conf) != len(self.want_confirmed):
            self.v.append(("confirmations", f"{what}: {len(conf)} cancellations confirmed, expected {self.want_confirmed}"))
        for i in conf:
            r = self.net.log[i]
            if r.schema_error or wire.resp(r.node)[0] != 200:
                self.v.append(("confirmation", f"{what}: {r.schema_error} {r.data}"))
        got_ids = sorted(wire.resp(self.net.log[i].node)[2] for i in conf)
        if got_ids != sorted(self.want_confirmed):
            self.v.append(("confirmation-id", f"{what}: confirmed {got_ids}, expected {sorted(self.want_confirmed)}"))
        msgs = {}
        pos = {}
        for i, r in enumerate(self.net.log):
            if r.type == "oadrUpdateReport":
                m = wire.read_update_report(r.node)
                for rep in m["reports"]:
                    if rep["intervals"]:
                        msgs.setdefault(rep["request_id"], []).append(rep["intervals"])
                        pos[rep["request_id"]] = i
        for rid in set(msgs) - set(per_of):
            self.v.append(("stray-report", f"{what}: a report for {rid!r}"))
        extra = [x for r in self.rounds(None) for x in r]       # sampled outside any regular round
        for rid, n in per_of.items():
            rounds = self.all_rounds(rid)
            m = msgs.get(rid, [])
            last = []
            if rid in self.dead:
                follow = self.dead[rid]
                rounds = self.rounds(rid)
                if not follow and m and conf and not any(i > pos[rid] for i in conf):
                    self.v.append(("sent-after-confirmation", f"{what}: the last of {rid} was sent after the confirmation"))
                want = [x for r in rounds for x in r]
                sent = [x for ivs in m for x in ivs]
                for x in sent[len(want):]:                   # one last round, taken at the cancellation
                    mine = next((y for y in extra if y[0] == x[1] and float(y[4]) == float(x[2])), None)
                    if mine and rid not in once and mine[0] in REQS[rid][1] and mine[0] not in [y[0] for y in last]:
                        last.append(mine)
                        extra.remove(mine)
                want += last
            else:
                want = [x for r in rounds[:len(rounds) // n * n] for x in r]
            flat = [x for ivs in m for x in ivs]
            bad = self.same(rid, flat, want)
            if bad:
                self.v.append(("cancelled-content" if rid in self.dead else "content", f"{what}: {rid}: {bad}"))
                continue
            size = [len(r) for r in rounds[:1]]
            if m and size and any(len(ivs) != n * size[0] for ivs in (m[:-1] if rid in self.dead else m)):
                self.v.append(("bundles", f"{what}: {rid}: messages of {[len(x) for x in m]} values"))
        if extra:
            self.v.append(("sampled-after-cancel", f"{what}: samples {extra} were taken and not reported"))
        if self.loop.errors:
            self.v.append(("task-error", f"{what}: {self.loop.errors[0]}"[:400]))


def run_hist(param, hist):
    rs = param
    with World() as loop:
        sim = Sim(loop)
        for rid in rs:
            spec, pts, g, b = REQS[rid]
            sim.ask(rid, spec, pts, g, b)
        sim.known = list(rs)
        per_of = {rid: per(rid) for rid in rs}
        for op in hist:
            boot.CLOCK.advance(7)
            if op[0] == "fire":
                sim.fire(op[1])
            elif op[0] == "fault":
                sim.next_update = fault(op[2])
                sim.fire(op[1])
                sim.next_update = None
            elif op[0] == "cancel":
                _, ids, follow, how, rid = op
                ids = list(ids) if isinstance(ids, tuple) else ids
                if how == "poll":
                    if sim.note_cancel(ids, follow):
                        sim.want_confirmed.append("vtnreq1")
                    sim.vtn.polls.append(sim.cancel_xml(ids, follow, "poll"))
                    sim.poll()
                else:
                    before = len(sim.net.sent("oadrUpdateReport"))
                    sim.next_update = sim.cancel_xml(ids, follow, "answer")
                    sim.fire(rid)
                    if len(sim.net.sent("oadrUpdateReport")) > before:
                        known = sim.note_cancel(ids, follow)
                        if known:
                            sim.want_confirmed.append("vtncancel1")
                    sim.next_update = None
                loop.run_for(2)
            elif op[0] == "late":
                # the scheduler had already started a round when the job was removed
                n = len(sim.rounds(op[1]))
                loop.run(sim.fire_async(op[1]))
                loop.settle()
                if len(sim.rounds(op[1])) != n:
                    sim.v.append(("sampled-after-cancel", f"{hist}: a round that started after the cancellation was sampled"))
            elif op[0] == "rereg":
                sim.vtn.polls.append(wire.request_reregistration("ven1"))
                sim.poll()
            # a cancelled report has no job any more, the others do
            for rid in rs:
                if (rid in sim.dead) == sim.alive(rid):
                    sim.v.append(("job", f"{hist}: {rid} {'is still' if rid in sim.dead else 'is not'} scheduled"))
        sim.judge17([rs, hist], per_of)
        live = [r for r in rs if r not in sim.dead]
        ops = [("fire", r) for r in live]
        if live:
            ops += [("cancel", live[0], False, "poll", None), ("cancel", live[-1], True, "poll", None), ("cancel", "nobody", False, "poll", None),
                    ("cancel", live[0], False, "answer", live[0]), ("cancel", live[-1], False, "answer", live[0]),
                    ("cancel", live[0], True, "answer", live[-1]), ("fault", live[0], "refused"), ("rereg",)]
        if len(live) > 1:
            ops += [("cancel", tuple(live[:2]), False, "poll", None)]
        if live and len(hist) < 2:
            ops += [("cancel", (live[0], "nobody"), False, "poll", None), ("cancel", ("nobody", live[-1]), False, "answer", live[0])]
        if hist and hist[-1][0] == "cancel":
            ops += [("late", r) for r in sim.dead]
        return Outcome(sim.v, obs=[hist, len(sim.net.log)], steps=len(hist), canon=hist, ops=ops)


def fault_cases(tier):
    """a run of faults at each place in a sequence of reports; unsendable contents"""
    for n in (1, 2, 3):
        for ks in itertools.product(FAULTS + ["bad"], repeat=n):
            if n == 3 and tier == "quick" and len(set(ks)) == 3:
                continue
            for pos in (0, 1):
                yield [list(ks), pos]


def run_faults(case):
    ks, pos = case
    with World() as loop:
        sim = Sim(loop)
        sim.known = []
        for rid in ("rr2", "rr1"):
            spec, pts, g, b = REQS[rid]
            sim.ask(rid, spec, pts, g, b)
        order = [None] * pos + list(ks) + [None] * 3
        bad = 0
        real = dict(sim.client.report_callbacks)
        for i, k in enumerate(order):
            boot.CLOCK.advance(10)
            if k == "bad":
                sim.client.report_callbacks[("s1", "a")] = lambda: [(boot.VirtualDatetime.now(boot.UTC), Bad())]
                bad += 1
                sim.fire("rr2")
                sim.round["rr2"] -= 1
                sim.client.report_callbacks.update(real)
            elif k:
                sim.next_update = fault(k)
                sim.fire("rr2")
                sim.next_update = None
            else:
                sim.fire("rr2")
            sim.fire("rr1")
        sim.judge17(case, {"rr2": 1, "rr1": 2})
        return Outcome(sim.v, obs=(case, len(sim.net.log)), steps=len(order) * 2)


def once_cases(tier):
    for at in (None, 45, -5, 3600):
        for ran in (False, True):
            for follow in (False, True):
                for how in ("poll", "answer"):
                    for other in (False, True):
                        yield [at, ran, follow, how, other]


def run_once(case):
    """one-off reports, still to come or already sent, and their cancellation"""
    at, ran, follow, how, other = case
    with World() as loop:
        sim = Sim(loop)
        sim.known = ["once"]
        sim.ask("once", "s1", ["a", "b"], 0, 0, at=None if at is None else boot.T0 + at * S, expect_job=at is not None)
        spec, pts, g, b = REQS["rr3"]
        sim.ask("rr3", spec, pts, g, b)
        if at is not None and ran:
            boot.CLOCK.advance(max(0, at))
            sim.fire("once")
        if other:
            sim.fire("rr3")
        if how == "poll":
            sim.note_cancel("once", follow)
            sim.vtn.polls.append(sim.cancel_xml("once", follow, "poll"))
            sim.poll()
            sim.want_confirmed.append("vtnreq1")
        else:
            sim.next_update = sim.cancel_xml("once", follow, "answer")
            while not sim.net.sent("oadrUpdateReport") or sim.next_update is not None:
                if sim.round["rr3"] > 6:
                    break
                boot.CLOCK.advance(10)
                sim.fire("rr3")
            sim.note_cancel("once", follow)
            sim.want_confirmed.append("vtncancel1")
        loop.run_for(2)
        if "once" in sim.jobs and sim.jobs["once"] in sim.client.scheduler.jobs:
            sim.v.append(("job", f"{case}: the cancelled one-off report is still scheduled"))
        taken = len(sim.rounds("once"))
        if taken != (1 if at is None or ran else 0):
            sim.v.append(("sampled", f"{case}: the one-off report was sampled {taken} times"))
        for _ in range(3):
            boot.CLOCK.advance(10)
            sim.fire("rr3")
        sim.judge17(case, {"once": 1, "rr3": 3}, once=("once",))
        return Outcome(sim.v, obs=case, steps=8)


# -- one at a time, in order: every schedule of rounds, answers, cancellations and a re-registration ------------------------------

SCHED = [dict(fires={"rr2": 2, "rr5": 2}, polls=[], answers=["ok", "refused"], hold=["oadrUpdateReport"]),
         dict(fires={"rr2": 2, "rr1": 2}, polls=["rereg"], answers=["ok", "500"], hold=["oadrUpdateReport"]),
         dict(fires={"rr2": 2, "rr5": 1}, polls=["cancel rr2"], answers=["ok"], hold=["oadrUpdateReport", "oadrCanceledReport"]),
         dict(fires={"rr2": 2, "rr1": 2}, polls=["cancel rr1"], answers=["ok", "refused"], hold=["oadrUpdateReport"]),
         dict(fires={"rr2": 2, "rr1": 1}, polls=[], answers=["ok", "cancel rr2", "cancel rr1"], hold=["oadrUpdateReport"]),
         dict(fires={"rr2": 2, "rr1": 1}, polls=["cancel rr1"], answers=["ok", "cancel rr1"], hold=["oadrUpdateReport"]),
         dict(fires={"rr2": 2, "rr1": 1}, polls=["follow rr1"], answers=["ok", "follow rr2"], hold=["oadrUpdateReport", "oadrCanceledReport"])]
MORE = [dict(fires={"rr2": 3, "rr5": 2}, polls=["rereg"], answers=["ok", "refused"], hold=["oadrUpdateReport"]),
        dict(fires={"rr2": 2, "rr1": 2}, polls=["cancel rr1", "cancel rr2"], answers=["ok", "refused"], hold=["oadrUpdateReport", "oadrCanceledReport"]),
        dict(fires={"rr2": 2, "rr1": 2}, polls=["cancel rr1"], answers=["ok", "cancel rr1", "cancel rr2"], hold=["oadrUpdateReport"])]


def run_sched(param, chooser):
    with World() as loop:
        held = []
        vtn = AutoVTN()
        over = []

        def answer(net, rec):
            a = vtn(net, rec)
            if rec.type in param["hold"]:
                if rec.type == "oadrUpdateReport" and any(t == "oadrUpdateReport" for t, _ in held):
                    over.append(rec)

                async def later():
                    f = loop.create_future()
                    held.append((rec.type, f))
                    r = await f
                    return a if r is None else r
                return later()
            return a
        sim = Sim(loop, answer=answer)
        sim.vtn = vtn
        vtn.override.pop("oadrUpdateReport", None)
        sim.known = list(param["fires"])
        for rid in param["fires"]:
            spec, pts, g, b = REQS[rid]
            sim.ask(rid, spec, pts, g, b)
        left = dict(param["fires"])
        polls = list(param["polls"])
        ready = []
        tasks = []
        polling = None
        used = set()
        while True:
            loop.settle()
            opts = [("fire", r) for r in left if left[r] and sim.alive(r) and r not in sim.dead]
            if polls and (polling is None or polling.done()):
                opts.append(("poll", polls[0]))
            for i, (t, _) in enumerate(held):
                if t == "oadrUpdateReport":
                    opts += [("answer", i, a) for a in param["answers"] if a in ("ok", "refused", "500") or a not in used]
                else:
                    opts.append(("answer", i, "ok"))
            if not opts:
                if held or loop.next_timer() is None:
                    break
                loop.run_for(1.5)
                loop.settle()
                if not held and not polls and loop.next_timer() is None:
                    break
                continue
            op = chooser.choose(opts)
            boot.CLOCK.advance(1)
            if op[0] == "fire":
                left[op[1]] -= 1
                sim.loop.run(sim.fire_async(op[1]))
                if len(sim.all_rounds(op[1])) % per(op[1]) == 0:
                    ready.append(op[1])
            elif op[0] == "poll":
                p = polls.pop(0)
                if p == "rereg":
                    vtn.polls.append(wire.request_reregistration("ven1"))
                else:
                    kind, rid = p.split()
                    if sim.note_cancel(rid, kind == "follow"):
                        sim.want_confirmed.append("vtnreq1")
                    vtn.polls.append(wire.cancel_report(rid, to_follow=kind == "follow"))

                async def dopoll():
                    await sim.poll_job().fire()
                polling = loop.create_task(dopoll())
                tasks.append(polling)
            else:
                t, f = held.pop(op[1])
                a = op[2]
                if a == "ok":
                    f.set_result(None)
                elif a in FAULTS:
                    r = fault(a)
                    f.set_result(r)
                else:
                    used.add(a)
                    kind, rid = a.split()
                    if sim.note_cancel(rid, kind == "follow"):
                        sim.want_confirmed.append("vtncancel1")
                    f.set_result(wire.updated_report("ven1", cancel=rid, to_follow=kind == "follow"))
        for t in tasks:
            if not t.done():
                sim.v.append(("stuck", f"a poll never finishes: {chooser.labels}"))
            elif t.exception():
                sim.v.append(("poll-fails", f"{t.exception()!r}: {chooser.labels}"))
        if over:
            sim.v.append(("not-one-at-a-time", f"{chooser.labels}: a report was sent while another was under way"))
        order = [rid for rid, _, _ in sim.messages()]
        # final reports of cancelled requests apart, messages leave in the order in which they became ready
        want, rest = list(ready), []
        for rid in order:
            if want and rid == want[0]:
                want.pop(0)
            else:
                rest.append(rid)
        if want or any(r not in sim.dead for r in rest):
            sim.v.append(("order", f"{chooser.labels}: sent {order}, ready {ready}"))
        sim.judge17(chooser.labels, {rid: per(rid) for rid in param["fires"]})
        return Outcome(sim.v, obs=[order, sorted(sim.dead), len(sim.net.log)], steps=len(chooser.labels))


# -- a report request that is sent again -------------------------------------------------------------------------------------

VARIANTS = {"same": {}, "point": {"points": ["a"]}, "rate": {"g": 20, "b": 40}, "once": {"g": 0, "b": 0}}


def run_repeat(param, hist):
    """the VTN sends a request again, by poll or when the VEN re-registers: the last one with that id counts"""
    with World() as loop:
        sim = Sim(loop)
        sim.known = []
        conf, want_points = {}, {}
        most = {}

        def settings(rid, variant):
            spec, pts, g, b = REQS[rid]
            v = VARIANTS[variant]
            return spec, v.get("points", pts), v.get("g", g), v.get("b", b)

        def xml(rid):
            spec, pts, g, b = conf[rid]
            return wire.report_request(rid, spec, pts, g * S, b * S)

        def adopt(before, rids):
            """which job belongs to which request now"""
            for rid, j in zip(rids, [j for j in sim.report_jobs() if id(j) not in before]):
                sim.jobs[rid] = j
        base = {}            # rid -> values sent and sampled until its last cancellation

        def judge(rid):
            sent = [x for r, _, ivs in sim.messages() if r == rid for x in ivs]
            taken = [x for r in sim.rounds(rid) for x in r]
            s0, t0 = base.get(rid, (0, 0))
            base[rid] = len(sent), len(taken)
            sent, taken = sent[s0:], taken[t0:]
            if rid not in sim.dead:
                if len(taken) - len(sent) not in range(0, most[rid]):
                    sim.v.append(("values", f"{hist}: {rid}: {len(sent)} values were sent of {len(taken)}"))
                    return
                taken = taken[:len(sent)]
            extra = sent[len(taken):]          # a last round at the cancellation
            bad = len(sent) < len(taken) or (sim.same(rid, sent[:len(taken)], taken) if taken else None)
            if bad or len(extra) > len(conf[rid][1]):
                sim.v.append(("content", f"{hist}: {rid}: {bad} {extra}"))
        for n, op in enumerate((("ask", "rr1", "same"), ("ask", "rr2", "same")) + tuple(hist)):
            boot.CLOCK.advance(7)
            before = set(map(id, sim.report_jobs()))
            if op[0] == "ask":
                rid = op[1]
                conf[rid] = settings(rid, op[2])
                if rid not in sim.known:
                    sim.known.append(rid)
                sim.dead.pop(rid, None)
                sim.vtn.polls.append(wire.create_report([xml(rid)]))
                tok = WHO.set(rid)
                sim.round[rid] = sim.round.get(rid, 0) + 1
                sim.poll()
                WHO.reset(tok)
                adopt(before, [rid])
            elif op[0] == "rereg":
                sim.vtn.report_requests = [xml(r) for r in sim.known if r not in sim.dead and conf[r][2]]
                sim.vtn.polls.append(wire.request_reregistration("ven1"))
                sim.poll()
                adopt(before, [r for r in sim.known if r not in sim.dead and conf[r][2]])
            elif op[0] == "fire":
                sim.fire(op[1])
                got = {x[0] for x in sim.rounds(op[1])[-1]} if sim.rounds(op[1]) else set()
                if got != set(conf[op[1]][1]):
                    sim.v.append(("points", f"{hist}: {op}: sampled {sorted(got)}, last requested {conf[op[1]][1]}"))
            else:
                sim.note_cancel(op[1], False)
                sim.vtn.polls.append(wire.cancel_report(op[1]))
                sim.poll()
                loop.run_for(2)
                judge(op[1])
            for rid in conf:
                spec, pts, g, b = conf[rid]
                most[rid] = max(most.get(rid, 1), len(pts) * max(1, b // g if g else 1))
            # exactly the requests in force are sampled, at the rate that was asked for last
            live = sorted(conf[r][2] for r in sim.known if r not in sim.dead and conf[r][2])
            have = sorted(job_seconds(j) for j in sim.report_jobs())
            if have != live:
                sim.v.append(("jobs", f"{hist}: after {op} the VEN samples every {have} s, expected {live}"))
        for rid in sim.known:
            if rid not in sim.dead:
                judge(rid)
        if loop.errors:
            sim.v.append(("task-error", f"{hist}: {loop.errors[0]}"[:400]))
        ops = [("rereg",)]
        for rid in ("rr1", "rr2"):
            ops += [("ask", rid, v) for v in (VARIANTS if rid == "rr1" else ("same",))]
            if rid not in sim.dead:
                ops += [("cancel", rid)] + ([("fire", rid)] if conf[rid][2] else [])
        return Outcome(sim.v, obs=[hist, len(sim.net.log)], steps=len(hist) + 2, canon=hist, ops=ops)


def job_seconds(job):
    """the rate of a job, whatever its trigger"""
    if job.trigger == "interval":
        t = job.trig_args
        return t.get("seconds", 0) + 60 * t.get("minutes", 0) + 3600 * t.get("hours", 0)
    from apscheduler.triggers.cron import CronTrigger
    tr = CronTrigger(**{k: v for k, v in job.trig_args.items() if k != "jitter"}, timezone=boot.UTC)
    t = tr.get_next_fire_time(None, boot.T0)
    return secs(tr.get_next_fire_time(t, t + S / 1000) - t)


def scenarios(tier):
    return [Histories("cancellations", run_hist, {"quick": 4, "thorough": 5}, params=[["rr1", "rr2"], ["rr3", "rr1"]],
                      note="every history of rounds, cancellations (by poll, in an answer, several, unknown, with a report to follow), a fault and a re-registration"),
            Product("faults", fault_cases, run_faults, "runs of faults and unsendable reports", chunk=16),
            Product("one-off", once_cases, run_once, "cancellation of one-off reports before and after they were sent", chunk=2),
            Histories("repeated", run_repeat, {"quick": 3, "thorough": 4}, params=[None],
                      note="every history of requests sent again, the same or changed, by poll or at a re-registration, rounds and cancellations"),
            Schedules("one-at-a-time", run_sched, SCHED + (MORE if tier != "quick" else []),
                      note="every schedule of rounds, slow answers (good, failing, cancelling), cancellations by poll, a re-registration")]
