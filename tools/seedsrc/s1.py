SEEDS = [
 dict(id="c01-clear-after-send", property="C01",
  needs="an event added or cancelled for a VEN while the delivery callback of an earlier event for it is being awaited",
  breaks="the change is marked as delivered although the answer in progress did not carry it: the next poll gets an empty response",
  edits=[("openleadr/service/poll_service.py", "            self.events_updated[payload['ven_id']] = False\n            try:\n", "            try:\n"),
         ("openleadr/service/poll_service.py", "                raise\n        else:\n", "                raise\n            self.events_updated[payload['ven_id']] = False\n        else:\n")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    add = lambda i, **k: server.add_event("ven1", "SIMPLE", "level", [{"dtstart": now(), "duration": timedelta(hours=1), "signal_payload": 1}],
                                    callback=cb, event_id=i, **k)
    async def delivered():
        await asyncio.sleep(0.01)
        add("e2")
    add("e1", delivery_callback=delivered)
    async with Vtn(server) as vtn:
        t, p = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        first = [e["event_descriptor"]["event_id"] for e in p.get("events", [])]
        if "e2" in first:
            return True
        t, p = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        return "e2" in [e["event_descriptor"]["event_id"] for e in p.get("events", [])]
main(demo())
'''),
 dict(id="c02-whole-days", property="C02",
  needs="an event whose total duration is a whole number of days, after it has ended",
  breaks="the event never completes: it stays active in every distribution and is never reported as completed",
  edits=[("openleadr/utils.py", "    if now >= active_period_end and getmember(active_period, 'duration').total_seconds() > 0:",
          "    if now >= active_period_end and getmember(active_period, 'duration').seconds > 0:")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    server.add_event("ven1", "SIMPLE", "level", [{"dtstart": now() - timedelta(days=1, seconds=30), "duration": timedelta(days=1), "signal_payload": 1}],
                     callback=cb, event_id="e1")
    async with Vtn(server) as vtn:
        t, p = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        return [e["event_descriptor"]["event_status"] for e in p["events"]] == ["completed"]
main(demo())
'''),
 dict(id="c03-wall-clock-order", property="C03",
  needs="two upcoming events whose start times are given in different time zones",
  breaks="upcoming events are ordered by their local wall-clock time instead of the instant they start",
  edits=[("openleadr/utils.py", "    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))",
          "    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart').replace(tzinfo=None))")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    t = now() + timedelta(hours=2)
    tz = timezone(timedelta(hours=9))
    for i, start in (("late", t + timedelta(hours=1)), ("early", t.astimezone(tz))):
        server.add_event("ven1", "SIMPLE", "level", [{"dtstart": start, "duration": timedelta(hours=1), "signal_payload": 1}],
                         callback=cb, event_id=i)
    async with Vtn(server) as vtn:
        t, p = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        return [e["event_descriptor"]["event_id"] for e in p["events"]] == ["early", "late"]
main(demo())
'''),
 dict(id="c05-code-leaks", property="C05",
  needs="one distribution that holds an event with an unsupported signal before another event",
  breaks="the events that follow an event with an unsupported signal are reported as unsupported as well",
  edits=[("openleadr/client.py", "        event_responses = []\n        for i, event in enumerate(events):\n", "        event_responses = []\n        response_code = 200\n        for i, event in enumerate(events):\n"),
         ("openleadr/client.py", "                j = 0\n                response_code = 200\n", "                j = 0\n")],
  demo='''
from lib import *

async def demo():
    c = make_client()
    c.add_handler("on_event", lambda e: "optIn")
    odd = event("e1")
    odd["event_signals"][0]["signal_name"] = "x-odd"
    t, p = parse_message(distribute([odd, event("e2")]))
    await c._on_event(p)
    t, p = c.client_session.sent[-1]
    return t == "oadrCreatedEvent" and [(r["event_id"], r["response_code"]) for r in p["event_responses"]] == [("e1", 460), ("e2", 200)]
main(demo())
'''),
 dict(id="c07-weeks", property="C07",
  needs="a duration of a whole number of weeks plus some hours, minutes or seconds",
  breaks="the duration is written as weeks followed by a time, which is no valid duration and cannot be read back",
  edits=[("openleadr/utils.py", "    if days:\n        formatted += f\"{days}D\"\n", "    if days and days % 7 == 0:\n        formatted += f\"{days // 7}W\"\n    elif days:\n        formatted += f\"{days}D\"\n")],
  demo='''
from lib import *

async def demo():
    for td in (timedelta(weeks=1, minutes=5), timedelta(weeks=2), timedelta(days=3, hours=1), timedelta(weeks=3, seconds=1)):
        t, p = parse_message(distribute([event("e1", duration=td)]))
        if p["events"][0]["active_period"]["duration"] != td:
            return False
    return True
main(demo())
'''),
 dict(id="c20-middle-signal", property="C20",
  needs="an event with at least three signals of which only a middle one has another total duration",
  breaks="an event whose signals have different total durations is sent instead of refused",
  edits=[("openleadr/preflight.py", "            if not all([d == signal_durations[0] for d in signal_durations]):",
          "            if signal_durations[0] != signal_durations[-1]:")],
  demo='''
from lib import *

async def demo():
    start = now()
    sig = lambda n, m: {"signal_name": "LOAD_CONTROL", "signal_type": "x-loadControlCapacity", "signal_id": n, "current_value": 0,
                        "intervals": [{"dtstart": start, "duration": timedelta(minutes=m), "signal_payload": 1, "uid": 0}]}
    for ms in ((10, 5, 10), (10, 5), (5, 10, 10)):
        try:
            distribute([event("e1", start=start, duration=timedelta(minutes=7), signals=[sig(f"s{i}", m) for i, m in enumerate(ms)])])
        except Exception:
            continue
        return False
    return True
main(demo())
'''),
 dict(id="c25-naive-utc", property="C25", env="TZ=America/New_York",
  needs="an interval with a naive start time, on a machine whose local time zone is not UTC",
  breaks="a naive start time is taken for UTC instead of local time, so the event starts at another instant",
  edits=[("openleadr/server.py", "                                utils.getmember(interval, 'dtstart').astimezone(timezone.utc))",
          "                                utils.getmember(interval, 'dtstart').replace(tzinfo=timezone.utc))")],
  demo='''
from lib import *

async def demo():
    server = OpenADRServer(vtn_id="TheVTN", show_fingerprint=False)
    start = datetime.now().replace(microsecond=0) + timedelta(hours=2)
    server.add_event("ven1", "SIMPLE", "level", [{"dtstart": start, "duration": timedelta(hours=1), "signal_payload": 1}], callback=cb, event_id="e1")
    async with Vtn(server) as vtn:
        t, p = await vtn.send("OadrPoll", "oadrPoll", ven_id="ven1")
        return p["events"][0]["active_period"]["dtstart"] == start.astimezone(UTC)
main(demo())
'''),
 dict(id="c24-break-at-cancelled", property="C24",
  needs="a VEN that remembers a cancelled event received before another event whose status then changes",
  breaks="the status update stops at the first cancelled event, so the events after it keep a stale status",
  edits=[("openleadr/client.py", "            if event['event_descriptor']['event_status'] == 'cancelled':\n                continue\n            \n", "            if event['event_descriptor']['event_status'] == 'cancelled':\n                return\n            \n")],
  demo='''
from lib import *

async def demo():
    c = make_client()
    c.add_handler("on_event", lambda e: "optIn")
    c.add_handler("on_update_event", lambda e: "optIn")
    e2 = event("e2", start=now() + timedelta(seconds=1))
    t, p = parse_message(distribute([event("e1", status="cancelled"), e2]))
    await c._on_event(p)
    await asyncio.sleep(1.5)
    await c._event_status_log()
    return {e["event_descriptor"]["event_id"]: e["event_descriptor"]["event_status"] for e in c.received_events}.get("e2") == "active"
main(demo())
'''),
]
