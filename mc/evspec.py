"""Specification of the VTN's event queue and helpers to fill a real server with events."""
from datetime import timedelta
from fractions import Fraction

from . import boot

MIN = timedelta(minutes=1)

# kind -> (offset of the start, durations of the intervals, ramp-up, priority)
KINDS = {"A": (0, [20], None, 0),        # active now
         "F": (30, [10], 15, 0),         # far, then near, then active
         "P": (-30, [10], None, 0),      # already over
         "M": (15, [15, 15], None, 2),   # two intervals, no ramp-up
         "O": (10, [0], 5, 1)}           # open-ended


class Ev:
    """What the specification knows about one event."""
    def __init__(self, event_id, kind, ven):
        off, durs, ramp, prio = KINDS[kind]
        self.id, self.kind, self.ven = event_id, kind, ven
        self.start = boot.CLOCK.now() + off * MIN
        self.ivs, t = [], self.start
        for n, d in enumerate(durs):
            self.ivs.append((t, d * MIN, n + 1))
            t += d * MIN
        self.duration = t - self.start
        self.ramp = None if ramp is None else ramp * MIN
        self.priority = prio
        self.mod, self.cancelled, self.gone = 0, False, False
        self.required = "always"      # must its VEN answer?
        self.delivered_mods = []      # modification numbers its VEN has seen

    def status(self):
        if self.cancelled:
            return "cancelled"
        now = boot.CLOCK.now()
        if self.duration and now >= self.start + self.duration:
            return "completed"
        if now >= self.start:
            return "active"
        if self.ramp is not None and now >= self.start - self.ramp:
            return "near"
        return "far"

    def expect(self):
        return {"event_id": self.id, "mod": self.mod, "status": self.status(), "start": self.start, "duration": self.duration,
                "ramp_up": self.ramp, "priority": self.priority, "market_context": "http://ctx/" + self.kind,
                "response_required": self.required, "targets": [("venID", self.ven)],
                "signals": [{"name": "SIMPLE", "type": "level",
                             "intervals": [(s, d, Fraction(v)) for s, d, v in self.ivs]}]}


def add(server, ev, how="add_event", callback=None, delivery=None):
    """Add the event to the real server, by one of the three interfaces."""
    from openleadr import objects
    cb = callback if callback is not None else (lambda ven_id, event_id, opt_type: None)
    ivs = [{"dtstart": s, "duration": d, "signal_payload": v} for s, d, v in ev.ivs]
    if how == "add_event":
        off = KINDS[ev.kind]
        server.add_event(ven_id=ev.ven, signal_name="SIMPLE", signal_type="level", intervals=ivs, callback=cb,
                         delivery_callback=delivery, event_id=ev.id, market_context="http://ctx/" + ev.kind,
                         ramp_up_period=ev.ramp, response_required=ev.required)
        if off[3]:
            # add_event has no priority argument: the application sets it on the queued event
            from openleadr import utils
            e = utils.find_by(server.events[ev.ven], "event_descriptor.event_id", ev.id)
            utils.setmember(e, "event_descriptor.priority", ev.priority)
        return
    desc = dict(event_id=ev.id, modification_number=0, market_context="http://ctx/" + ev.kind, priority=ev.priority)
    period = dict(dtstart=ev.start, duration=ev.duration, ramp_up_period=ev.ramp)
    if how == "dict":
        raw = {"event_descriptor": {**desc, "event_status": "far", "created_date_time": boot.CLOCK.now()},
               "active_period": {**period, "notification_period": None, "recovery_period": None, "tolerance": None},
               "event_signals": [{"signal_name": "SIMPLE", "signal_type": "level", "signal_id": "s0", "intervals": ivs}],
               "targets": [{"ven_id": ev.ven}], "response_required": ev.required}
    else:
        raw = objects.Event(event_descriptor=objects.EventDescriptor(event_status="far", **desc),
                            active_period=objects.ActivePeriod(**period),
                            event_signals=[objects.EventSignal(signal_name="SIMPLE", signal_type="level", signal_id="s0",
                                                               intervals=[objects.Interval(**i) for i in ivs])],
                            targets=[objects.Target(ven_id=ev.ven)], response_required=ev.required)
    server.add_raw_event(ev.ven, raw, callback=cb, delivery_callback=delivery)


def diff(got, ev):
    """Differences between a delivered event (wire dict) and the specification."""
    out = []
    for k, want in ev.expect().items():
        g = got[k]
        if k == "signals":
            g = [{kk: s[kk] for kk in ("name", "type", "intervals")} for s in g]
        if g != want:
            out.append(f"{k}: got {g!r}, expected {want!r}")
    return out


def snapshot(x, depth=0, seen=None):
    """Canonical form of implementation state, by walking plain data (ignores functions)."""
    import asyncio
    if depth > 12:
        return "…"
    if x is None or isinstance(x, (bool, int, float, str, bytes, boot.real_datetime, timedelta)):
        return x if not isinstance(x, boot.real_datetime) else x.isoformat()
    if isinstance(x, dict):
        return tuple(sorted(((repr(snapshot(k, depth + 1)), snapshot(v, depth + 1)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return tuple(snapshot(v, depth + 1) for v in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted((repr(snapshot(v, depth + 1)) for v in x)))
    if isinstance(x, asyncio.Queue):
        return ("queue", snapshot(list(x._queue), depth + 1))
    if isinstance(x, asyncio.Future):
        return ("future", x.done(), repr(x.result()) if x.done() and not x.cancelled() and not x.exception() else None)
    if hasattr(x, "__dataclass_fields__"):
        return (type(x).__name__,) + tuple((k, snapshot(getattr(x, k), depth + 1)) for k in x.__dataclass_fields__)
    return type(x).__name__


def server_state(server):
    return tuple((n, tuple((k, snapshot(v)) for k, v in sorted(vars(s).items()) if k not in ("handlers", "event_service", "report_service")
                           and not callable(v)))
                 for n, s in sorted(server.services.items()))
