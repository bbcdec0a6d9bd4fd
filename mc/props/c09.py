"""C09: a signed message is accepted at most once, and only while fresh."""
import functools
import itertools
from datetime import timedelta

from .. import boot, wire, sign, sec
from ..core import Outcome, Histories, Product, Schedules
from ..vloop import World
from ..ven import Net, AutoVTN, make_client, start, periodic

LEVEL = "model_checking"
ASSUMPTIONS = ["timestamps are written in UTC with the Z suffix and the clock does not run backwards",
               "a message whose timestamp lies in the future, or that uses a nonce again with another timestamp, may be refused at first sight, but is accepted at most once"]
AGE = timedelta(seconds=5)
# the signed messages that exist from the start: name -> (timestamp, nonce, form of the timestamp)
POOL = {"A": (0, "n1"), "B": (0, "n2"), "C": (2, "n1"), "F": (8, "n3"), "G": (1.5, "n2"), "P": (-3, "n4"), "O": (-5.000001, "n5")}
STEPS = {"half": 0.5, "2": 2, "5": 5, "most": 4.999999, "tiny": 0.000001, "13": 13}


def stamp(seconds):
    t = boot.T0 + timedelta(seconds=seconds)
    return wire.when(t)


@functools.lru_cache(None)
def body(receiver, label, seconds, nonce):
    if receiver == "ven":
        return sign.sign(wire.request_reregistration("ven1"), "vtn", stamp(seconds), nonce)
    return sign.sign(sec.messages("ven1")[label][1], "ven1", stamp(seconds), nonce)


class VtnSide:
    def __init__(self, loop, label, lookup="ven", style="sync", gate=None):
        self.loop, self.label = loop, label
        self.app = sec.Vtn(lookup=lookup, style=style, gate=gate)
        self.ep = sec.messages("ven1")[label][0]

    def post(self, body):
        return self.app.post(body, der=sign.der("ven1"), endpoint=self.ep)

    def deliver(self, body):
        n = len(self.app.calls)
        reply = self.loop.run(self.post(body))
        return self.judge(reply, len(self.app.calls) - n)

    def judge(self, reply, calls):
        if sec.accepted(reply) and calls == 1:
            return True
        if sec.refusal(reply) in ("463", "403", "400") and calls == 0:
            return False
        return f"answered {reply.summary()}, {calls} handler calls"


class VenSide:
    def __init__(self, loop, label=None):
        self.loop, self.n = loop, 0
        auto = AutoVTN()
        self.next = []

        def answer(net, rec):
            if rec.type == "oadrPoll" and self.next:
                return self.next.pop(0)
            x = auto(net, rec)
            if isinstance(x, tuple):
                return x
            self.n += 1
            return sign.sign(x, "vtn", nonce=f"auto{self.n}").decode()
        self.net = Net(answer)
        self.client = make_client(self.net, vtn_fingerprint=sign.fingerprint("vtn"))
        start(loop, self.client)
        loop.settle()

    def deliver(self, body):
        self.next.append(body.decode())
        k = len(self.net.log)
        jobs = periodic(self.client, "poll")
        if len(jobs) != 1:
            return f"{len(jobs)} poll jobs"
        self.loop.run(jobs[0].fire())
        self.loop.settle()
        sent = [r.type for r in self.net.log[k:]]
        if self.next:
            return "did not poll"
        if sent == ["oadrPoll"]:
            return False
        if "oadrCreatePartyRegistration" in sent:
            return True
        return f"sent {sent}"


def run_history(param, hist):
    receiver, label = param
    bad = []
    with World() as loop:
        side = VtnSide(loop, label) if receiver == "vtn" else VenSide(loop)
        accepted, fresh, last, late = [], 0, None, set()
        for i, op in enumerate(hist):
            bad = []
            if op[0] == "wait":
                boot.CLOCK.advance(STEPS[op[1]])
                last = ("wait",)
                continue
            now = boot.CLOCK.now()
            if op[0] == "new":
                fresh += 1
                seconds, nonce = (now - boot.T0) / timedelta(seconds=1), f"fresh{fresh}"
                name = "new" + str(fresh)
            else:
                name = op[1]
                seconds, nonce = POOL[name]
            ts = boot.T0 + timedelta(seconds=seconds)
            got = side.deliver(body(receiver, label, seconds, nonce))
            reused = any(POOL[a][1] == nonce for a in accepted if a in POOL and a != name)
            if now - ts > AGE:
                want, why = {False}, f"it was signed {now - ts} ago"
            elif name in accepted:
                want, why = {False}, "it was accepted before"
            elif ts > now:
                want, why = {True, False}, "it is from the future"
            elif reused and [POOL[a][0] for a in accepted if a in POOL and POOL[a][1] == nonce].count(seconds) == 0 or name in late:
                want, why = {True, False}, "its nonce was used before"
            else:
                want, why = {True}, f"it is {now - ts} old and new"
            if got not in (True, False):
                bad.append(("history/neither", f"{param} after {hist[:i]}: {op}: {got}"))
            elif got not in want:
                bad.append((f"history/{'accepted' if got else 'refused'}", f"{param} after {hist[:i]}: message {name} (timestamp {stamp(seconds)}, nonce {nonce}) is "
                            f"{'accepted' if got else 'refused'} at {wire.when(now)} although {why}"))
            if got is True:
                accepted.append(name)
            last = (name, got)
        import openleadr.messaging as m
        cache = getattr(m, "NONCE_CACHE", None)
        canon = (boot.CLOCK.us, tuple(accepted), repr(sorted(map(repr, cache))) if cache is not None else hist)
        if receiver == "ven" and bad == [] and isinstance(last, tuple) and len(last) == 2 and last[1] not in (True, False):
            bad.append(("history/neither", repr(last)))
    ops = [("deliver", n) for n in POOL] + [("new",)]
    if not hist or hist[-1][0] != "wait" or len(hist) > 1 and hist[-2][0] != "wait":
        ops += [("wait", s) for s in STEPS]
    return Outcome(bad, obs=(hist[-1:], last), canon=canon, ops=ops)


# -- every moment around the permitted age ------------------------------------------------------------------------------------------------

AGES = [-1e-6, 0, 1e-6, 1, 3.5, 4, 4.5, 4.999999, 5, 5.000001, 5.5, 6, 9.999999, 10, 60, 3600, 86400, 86404, 86405, 31536000]


def age_cases(tier):
    return [[r, l, a, n] for r, l in (("vtn", "poll"), ("vtn", "update"), ("vtn", "offer"), ("vtn", "register"), ("ven", None)) for a in AGES for n in (0, 1, 3)]


def run_age(case):
    """one message, delivered at each age, after n other messages; then delivered again at every later age"""
    receiver, label, age, others = case
    bad, obs = [], []
    with World() as loop:
        side = VtnSide(loop, label) if receiver == "vtn" else VenSide(loop)
        sent = boot.CLOCK.now() - timedelta(seconds=age)
        seconds = (sent - boot.T0) / timedelta(seconds=1)
        for k in range(others):
            if side.deliver(body(receiver, label, 0, f"o{k}")) is not True:
                bad.append(("age/other", f"{case}: message {k} is not accepted"))
        x = body(receiver, label, seconds, "m")
        first = side.deliver(x)
        want = {True} if 0 <= age <= 5 else {True, False} if age < 0 else {False}
        if first not in want:
            bad.append((f"age/{'accepted' if first is True else 'refused'}", f"{receiver} {label}: a message that is {age} s old: {first}"))
        got = [first]
        for step in (0, 0.000001, 0.5, 0.5, 2, 1.5, 0.499999, 0.000001, 1, 3, 60):
            boot.CLOCK.advance(step)
            side_fresh = side.deliver(body(receiver, label, (boot.CLOCK.now() - boot.T0) / timedelta(seconds=1), f"f{len(got)}"))
            if side_fresh is not True:
                bad.append(("age/fresh", f"{case}: a fresh message is not accepted {boot.CLOCK.now() - sent} later: {side_fresh}"))
            again = side.deliver(x)
            late = boot.CLOCK.now() - sent > AGE
            if again not in (True, False) or again and (True in got or late):
                bad.append(("age/again", f"{receiver} {label}: a message first delivered {age} s old ({got}) and again {boot.CLOCK.now() - sent} after it was signed: {again}"))
            got.append(again)
        obs = got
    return Outcome(bad, obs=(case[2], obs), steps=24 + others)


# -- many messages in between ---------------------------------------------------------------------------------------------------------------

SIZES = sorted({b ** k for b in (2, 10) for k in range(20)} | {m * 10 ** k for m in (2, 5) for k in range(8)})


def flood_cases(tier):
    n = {"quick": (2100, 1030, 260), "thorough": (8300, 4100, 2100)}[tier]
    return [["vtn", "poll", n[0], "still"], ["vtn", "update", n[1], "passing"], ["vtn", "poll", n[1], "passing"], ["ven", None, n[2], "still"]]


def run_flood(case):
    """one message that was accepted is delivered again after 1, 2, 4 ... other messages, all of them within the permitted age"""
    receiver, label, n, clock = case
    bad, tries = [], 0
    with World() as loop:
        side = VtnSide(loop, label) if receiver == "vtn" else VenSide(loop)
        x = body(receiver, label, 0, "m")
        if side.deliver(x) is not True:
            return Outcome([("flood/first", f"{case}: the first message is not accepted")])
        for k in range(1, n):
            if clock == "passing":
                boot.CLOCK.advance(4.9 / n)
            if side.deliver(body.__wrapped__(receiver, label, 0, f"o{k}")) is not True:
                bad.append(("flood/fresh", f"{case}: message {k} is not accepted"))
                break
            if k in SIZES or k - 1 in SIZES or k == n - 1:
                tries += 1
                if side.deliver(x) is not False:
                    bad.append(("flood/again", f"{case}: a message is accepted once more after {k} others"))
                    break
    return Outcome(bad, obs=case, steps=n + tries)


run_flood.cpu_limit = 300

# -- copies at the same moment ------------------------------------------------------------------------------------------------------------

def sched_params(tier):
    n = 3 if tier == "quick" else 4
    return [(lookup, label, copies, extra) for lookup in ("ven", "fp", "ven+fp") for label in ("poll", "update", "register") for copies in range(2, n + 1) for extra in (0, 1)
            if copies + extra <= n]


def run_sched(param, ch):
    lookup, label, copies, extra = param
    with World() as loop:
        gates = []

        async def gate(name):
            f = loop.create_future()
            gates.append(f)
            await f
        side = VtnSide(loop, label, lookup, "async", gate)
        msgs = [body("vtn", label, 0, "n1")] * copies + [body("vtn", label, 0, f"x{i}") for i in range(extra)]
        tasks = [loop.create_task(side.post(m)) for m in msgs]
        loop.settle()
        while gates:
            gates.pop(ch.choose(list(range(len(gates))))).set_result(None)
            loop.settle()
        bad = []
        replies = [t.result() if t.done() else None for t in tasks]
        if None in replies:
            bad.append(("copies/stuck", f"{param}: not all requests are answered"))
        else:
            n = sum(sec.accepted(r) for r in replies[:copies])
            if n != 1:
                bad.append(("copies/accepted", f"{param}: {n} of {copies} copies of one message are accepted: {[r.summary() for r in replies]}"))
            if not all(sec.accepted(r) for r in replies[copies:]):
                bad.append(("copies/others", f"{param}: other messages are refused: {[r.summary() for r in replies]}"))
            if len(side.app.calls) != 1 + extra:
                bad.append(("copies/calls", f"{param}: {len(side.app.calls)} handler calls for {1 + extra} messages"))
        return Outcome(bad, obs=(param, [sec.refusal(r) for r in replies if r]))


def scenarios(tier):
    return [
        Histories("history", run_history, depth={"quick": 4, "thorough": 6}, params=[("vtn", "poll"), ("vtn", "update")],
                  note="delivering any of seven signed messages (equal timestamps, equal nonces, from the future, nearly too old, too old), newly signed ones, waiting"),
        Histories("ven", run_history, depth={"quick": 3, "thorough": 5}, params=[("ven", None)], note="the same with the VEN as the receiver"),
        Product("age", age_cases, run_age, note="a message delivered at every age around the limit, and then again and again while time passes and fresh ones arrive"),
        Product("flood", flood_cases, run_flood, note="a message delivered again after up to thousands of others (retried after every power of two and round number)", chunk=1),
        Schedules("copies", run_sched, sched_params(tier), note="copies of one message at the same moment, every order in which asynchronous lookups complete"),
    ]
