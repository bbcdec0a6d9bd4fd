"""C01: no event change is lost to a concurrent poll."""
from .. import boot, wire, evspec
from ..core import Outcome, Schedules
from ..vloop import World
from ..vtn import make_server, send

# the longer ones, for the thorough tier
LONG = {
    "add-add-3": {"v1": [("poll", "ven1"), ("poll", "ven1"), ("poll", "ven1")], "app": [("add", "ven1", "x"), ("add", "ven1", "y")]},
    "mixed-3": {"v1": [("poll", "ven1"), ("poll", "ven1"), ("poll", "ven1")], "app": [("cancel", "ven1", "a"), ("add", "ven1", "x"), ("cancel", "ven1", "x")]},
    "two-vens-2": {"v1": [("poll", "ven1"), ("poll", "ven1")], "v2": [("poll", "ven2"), ("poll", "ven2")],
                   "app": [("add", "ven1", "x"), ("add", "ven2", "y")]},
    "two-vens-cancel-2": {"v1": [("poll", "ven1"), ("poll", "ven1")], "v2": [("poll", "ven2"), ("poll", "ven2")],
                          "app": [("cancel", "ven1", "a"), ("cancel", "ven2", "b")]},
    "retry-2": {"v1": [("poll", "ven1"), ("poll", "ven1")], "v1b": [("poll", "ven1"), ("poll", "ven1")], "app": [("add", "ven1", "x")]},
}

LEVEL = "model_checking"
ASSUMPTIONS = ["the only points where requests can interleave are awaits of application code (delivery callbacks, VEN look-ups, request handlers)"]

# scripts: per actor an ordered list of actions; actors interleave freely
#  poll/req: (kind, ven)   end: ("end", ven, id) time passes until the event is over   add: ("add", ven, id)   cancel: ("cancel", ven, id)   answer: ("answer", ven, id)
SCRIPTS = {
    "add-add": {"v1": [("poll", "ven1"), ("poll", "ven1")], "app": [("add", "ven1", "x"), ("add", "ven1", "y")]},
    "add-cancel": {"v1": [("poll", "ven1"), ("poll", "ven1")], "app": [("cancel", "ven1", "a"), ("add", "ven1", "x")]},
    "two-vens": {"v1": [("poll", "ven1")], "v2": [("poll", "ven2")],
                 "app": [("add", "ven1", "x"), ("add", "ven2", "y")]},
    "request": {"v1": [("poll", "ven1"), ("poll", "ven1")], "v1b": [("req", "ven1")], "app": [("cancel", "ven1", "a"), ("add", "ven1", "x")]},
    "answering": {"v1": [("poll", "ven1"), ("answer", "ven1", "a"), ("poll", "ven1")], "app": [("cancel", "ven1", "a"), ("add", "ven1", "x")]},
    "retry": {"v1": [("poll", "ven1"), ("poll", "ven1")], "v1b": [("poll", "ven1")], "app": [("add", "ven1", "x")]},
    "cancel-twice": {"v1": [("poll", "ven1"), ("poll", "ven1")], "app": [("cancel", "ven1", "a"), ("cancel", "ven1", "a")]},
    "ending": {"v1": [("poll", "ven1"), ("poll", "ven1")], "app": [("end", "ven1", "a"), ("add", "ven1", "x"), ("add", "ven1", "y")]},
    "ending-cancel": {"v1": [("poll", "ven1"), ("poll", "ven1")], "app": [("end", "ven1", "a"), ("cancel", "ven1", "c"), ("add", "ven1", "x")]},
    "ending-request": {"v1": [("poll", "ven1")], "v1b": [("req", "ven1")], "app": [("end", "ven1", "a"), ("cancel", "ven1", "c"), ("add", "ven1", "x")]},
    "two-vens-cancel": {"v1": [("poll", "ven1")], "v2": [("poll", "ven2")],
                        "app": [("cancel", "ven1", "a"), ("cancel", "ven2", "b")]},
}
GATES = ("delivery", "lookup", "both", "callback-fails")


class P:
    """one poll or request in flight"""
    def __init__(self, kind, ven, start):
        self.kind, self.ven, self.start, self.end, self.reply = kind, ven, start, None, None


def run(param, ch):
    name, gate = param
    script = {k: list(v) for k, v in {**SCRIPTS, **LONG}[name].items()}
    with World() as loop:
        gates = []

        async def wait(label):
            f = loop.create_future()
            gates.append((label, f))
            if await f:
                raise RuntimeError("application error")

        async def lookup(ven_id):
            if live[0] and gate in ("lookup", "both"):
                await wait("lookup " + ven_id)
            return {"ven_id": ven_id, "ven_name": ven_id, "fingerprint": None, "registration_id": "reg_" + ven_id}
        live = [False]
        kw = {"ven_lookup": lookup}
        server = make_server(**kw)

        def delivery(eid):
            async def cb():
                if live[0] and gate in ("delivery", "both", "callback-fails") and eid in "abc":
                    await wait("delivery " + eid)
            return cb
        evs = {}

        def add(ven, eid):
            evs[ven, eid] = e = evspec.Ev(eid, "A", ven)
            evspec.add(server, e, delivery=delivery(eid))
        add("ven1", "a")
        add("ven2", "b")
        if name.startswith("ending"):
            boot.CLOCK.advance(600)
            add("ven1", "c")           # ends ten minutes after a
        changes = []               # (ven, event id, mod, time of change)
        for v in ("ven1", "ven2"):
            loop.run(send(server, wire.poll(v)))
        live[0] = True
        clock = 0
        polls, tasks, errs = [], {}, []
        busy = {}

        def finish():
            for actor, (p, t) in list(busy.items()):
                if t.done():
                    p.end, p.reply = clock, t.result()
                    del busy[actor]
                    judge(p)

        def version(p, ven, eid):
            """the modification number of the event in this answer, or None"""
            if p.reply is None or p.reply.status != 200 or p.reply.type != "oadrDistributeEvent":
                return None
            return next((g["mod"] for g in p.reply.events() if g["event_id"] == eid), None)

        def judge(p):
            if p.reply.status != 200 and gate != "callback-fails":
                errs.append(("http-error", f"{p.kind} {p.ven}: {p.reply.summary()}"))
            if p.kind != "poll" or p.reply.status != 200:
                return
            earlier = [q for q in polls if q.ven == p.ven and q is not p and q.kind == "poll" and q.start < p.start]
            overlapped = any(q.end is None or q.end > p.start for q in polls if q is not p and q.ven == p.ven and q.kind == "poll")
            for ven, eid, mod, when in changes:
                if ven != p.ven or when > p.start:
                    continue
                later = [q for q in polls if q.ven == ven and q.end is not None and q.end > when]
                if any(version(q, ven, eid) is not None and version(q, ven, eid) >= mod for q in later):
                    continue
                if overlapped:
                    continue      # promised only once the earlier polls have been answered
                if evs[ven, eid].gone:
                    continue
                errs.append(("change-lost", f"the poll of {ven} did not deliver the change to '{eid}' (modification {mod}) "
                             f"made before it; it got {p.reply.summary()}"))
            # nothing to deliver -> empty answer
            prev = [q for q in earlier if q.reply is not None and q.reply.status == 200]
            if p.reply.type == "oadrDistributeEvent" and prev and not overlapped:
                last = max(q.start for q in prev)
                unanswered = [q for q in earlier if q.reply is None or q.reply.status != 200]      # failed polls before
                since = [c for c in changes if c[0] == p.ven and c[3] > last]
                if not since and not unanswered:
                    errs.append(("stray-delivery", f"the poll of {p.ven} got {[(e['event_id'], e['mod']) for e in p.reply.events()]} though "
                                 "nothing changed for it since its previous poll"))
            if p.reply.type == "oadrDistributeEvent":
                for g in p.reply.events():
                    if (p.ven, g["event_id"]) not in evs:
                        errs.append(("foreign-event", f"{p.ven} got {g['event_id']}"))

        while True:
            opts = [("next", a, s[0]) for a, s in script.items() if s and a not in busy]
            for i, (label, f) in enumerate(gates):
                if not f.done():
                    opts.append(("release", i, label))
                    if gate == "callback-fails":
                        opts.append(("fail", i, label))
            if not opts:
                break
            c = ch.choose(opts)
            clock += 1
            if c[0] == "release":
                gates[c[1]][1].set_result(False)
            elif c[0] == "fail":
                gates[c[1]][1].set_result(True)
            else:
                op = script[c[1]].pop(0)
                if op[0] in ("poll", "req"):
                    p = P(op[0], op[1], clock)
                    polls.append(p)
                    x = wire.poll(op[1]) if op[0] == "poll" else wire.request_event(op[1])
                    busy[c[1]] = (p, loop.create_task(send(server, x)))
                elif op[0] == "answer":
                    p = P("answer", op[1], clock)
                    e = evs[op[1], op[2]]
                    busy[c[1]] = (p, loop.create_task(send(server, wire.created_event(op[1], [(e.id, e.mod, "optIn")]))))
                    if e.cancelled:
                        e.gone = True
                elif op[0] == "end":
                    boot.CLOCK.advance(660)
                    evs[op[1], op[2]].gone = True
                elif op[0] == "add":
                    add(op[1], op[2])
                    changes.append((op[1], op[2], 0, clock))
                else:
                    e = evs[op[1], op[2]]
                    server.cancel_event(op[1], op[2])
                    if not e.gone:
                        e.cancelled, e.mod = True, e.mod + 1
                        changes.append((op[1], op[2], e.mod, clock))
            loop.settle()
            clock += 1
            finish()
        for a, (p, t) in busy.items():
            errs.append(("never-answered", f"{p.kind} of {p.ven} got no answer"))
        # once all is quiet: one more poll of each VEN settles what is still owed
        live[0] = False
        for ven in ("ven1", "ven2"):
            clock += 1
            p = P("poll", ven, clock)
            polls.append(p)
            p.reply = loop.run(send(server, wire.poll(ven)))
            clock += 1
            p.end = clock
            judge(p)
        if loop.errors:
            errs.append(("loop-error", repr(loop.errors)[:300]))
        obs = tuple((p.kind, p.ven, p.reply.summary() if p.reply else None) for p in polls)
        return Outcome(errs, obs=obs)


def scenarios(tier):
    names = list(SCRIPTS) + list(LONG)
    params = [(n, g) for n in names for g in GATES
              if tier == "thorough" or not (n.startswith("two-vens") and n.endswith("-2") and g in ("lookup", "both"))]
    return [Schedules("interleavings", run, params,
                      "every interleaving of polls, requests, answers, additions and cancellations at the awaits of application code",
                      split=4, max_execs=3000 if tier == "quick" else 100000)]
