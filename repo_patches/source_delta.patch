From 49ff793ecf3713727e7bc33af908cb298f31ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:19 +0000
Subject: [PATCH 01/75] fix: write negative and zero durations in a valid
 notation

---
 openleadr/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..463f8a5 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -331,10 +331,16 @@ def timedeltaformat(value):
     """
     if not isinstance(value, timedelta):
         return value
+    formatted = "P"
+    if value < timedelta(0):
+        # A timedelta carries its sign in the days only, a duration in front of the whole
+        formatted = "-P"
+        value = -value
+    if value < timedelta(seconds=1):
+        return formatted + "T0S"
     days = value.days
     hours, seconds = divmod(value.seconds, 3600)
     minutes, seconds = divmod(seconds, 60)
-    formatted = "P"
     if days:
         formatted += f"{days}D"
     if hours or minutes or seconds:
-- 
2.43.0


From 6a922e35832484c02eec7db213854e1d78ba22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:19 +0000
Subject: [PATCH 02/75] fix: read durations in weeks (P2W) and refuse trailing
 text in a duration

---
 openleadr/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 463f8a5..7444a2b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -290,11 +290,11 @@ def parse_duration(value):
     """
     if isinstance(value, timedelta):
         return value
-    regex = r'(\+|\-)?P(?:(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)|(?:(\d+)W)'
-    matches = re.match(regex, value)
+    regex = r'(\+|\-)?P?(?:(\d+)W|(?<=P)(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)'
+    matches = re.fullmatch(regex, value)
     if not matches:
         raise ValueError(f"The duration '{value}' did not match the requested format")
-    years, months, days, hours, minutes, seconds, weeks = (int(g) if g else 0 for g in matches.groups()[1:])
+    weeks, years, months, days, hours, minutes, seconds = (int(g) if g else 0 for g in matches.groups()[1:])
     if years != 0:
         logger.warning("Received a duration that specifies years, which is not a determinate duration. "
                        "It will be interpreted as 1 year = 365 days.")
-- 
2.43.0


From 0ba52174f045100e0ed437ea1be2be33c6a386de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 03/75] fix: keep the active period (ramp-up, notification,
 recovery) an event was added with

---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..352c015 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From 76e7ba634b2ebe441b323c867ef42eb916f5f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 04/75] fix: deliver the final 'completed' notice of a VEN's
 only event

---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 7444a2b..5da0235 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -821,9 +821,9 @@ def order_events(events, limit=None, offset=None):
                 setmember(event, 'event_descriptor.event_status', event_status)
                 setmember(event, 'event_descriptor.created_date_time', datetime.now(timezone.utc))
 
-    # Short circuit if we only have one event:
+    # Always return a new list, so that the caller can change the original while iterating over it
     if len(events) == 1:
-        return events
+        return list(events)
 
     # Get all the active events first
     active_events = [event for event in events
-- 
2.43.0


From 6649c3b38bd402d05e85667d3c520b4c06d65c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 05/75] fix: order active events by priority before start date

---
 openleadr/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 5da0235..3505d7f 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -831,11 +831,8 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
-    # Sort the active events by start date
-    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
+    # Sort the active events by priority, and by start date within the same priority
+    active_events.sort(key=lambda e: (event_priority(e), getmember(e, 'active_period.dtstart')))
 
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
-- 
2.43.0


From 234b026f2aa8d6e312f6332e5e7921893fc1d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 06/75] fix: order and write events that have no priority

---
 openleadr/templates/parts/eiEventDescriptor.xml | 2 +-
 openleadr/utils.py                              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openleadr/templates/parts/eiEventDescriptor.xml b/openleadr/templates/parts/eiEventDescriptor.xml
index 8b4de05..a58dab8 100644
--- a/openleadr/templates/parts/eiEventDescriptor.xml
+++ b/openleadr/templates/parts/eiEventDescriptor.xml
@@ -7,7 +7,7 @@
     {% if event.event_descriptor.modification_reason is defined and event.event_descriptor.modification_reason is not none %}
     <ei:modificationReason>{{ event.event_descriptor.modification_reason }}</ei:modificationReason>
     {% endif %}
-    {%if event.event_descriptor.priority is not none %}
+    {% if event.event_descriptor.priority is defined and event.event_descriptor.priority is not none %}
     <ei:priority>{{ event.event_descriptor.priority }}</ei:priority>
     {% endif %}
     <ei:eiMarketContext>
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 3505d7f..bad5095 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -800,9 +800,9 @@ def order_events(events, limit=None, offset=None):
     - earlier before later
     """
     def event_priority(event):
-        # The default and lowest priority is 0, which we should interpret as a high value.
-        priority = getmember(event, 'event_descriptor.priority', missing=float('inf'))
-        if priority == 0:
+        # The default and lowest priority is 0 (or unset), which we should interpret as a high value.
+        priority = getmember(event, 'event_descriptor.priority', missing=None)
+        if not priority:
             priority = float('inf')
         return priority
 
-- 
2.43.0


From 05d27568b3148c369d3f32d4422358e9eb41eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 07/75] fix: judge every event response by itself and keep
 callbacks per VEN

---
 openleadr/server.py                |  4 ++--
 openleadr/service/event_service.py | 32 ++++++++++++++++++------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 352c015..1a889f2 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -311,9 +311,9 @@ class OpenADRServer:
 
         # Add the callback for the response to this event
         if callback is not None:
-            self.event_callbacks[event_id] = (event, callback)
+            self.event_callbacks[(ven_id, event_id)] = (event, callback)
         if delivery_callback is not None:
-            self.event_delivery_callbacks[event_id] = delivery_callback
+            self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback
         return event_id
 
     def cancel_event(self, ven_id, event_id):
diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..0529286 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -28,7 +28,7 @@ class EventService(VTNService):
         super().__init__(vtn_id)
         self.polling_method = polling_method
         self.events = {}
-        self.completed_event_ids = {}   # Holds the ids of completed events
+        self.completed_event_ids = {}   # Holds the ids and modification numbers of completed events, per VEN
         self.event_callbacks = {}
         self.event_opt_types = {}
         self.event_delivery_callbacks = {}
@@ -47,9 +47,10 @@ class EventService(VTNService):
                     # Pop the event from the events so that this is the last time it is communicated
                     if event_status == enums.EVENT_STATUS.COMPLETED:
                         if ven_id not in self.completed_event_ids:
-                            self.completed_event_ids[ven_id] = []
+                            self.completed_event_ids[ven_id] = {}
                         event_id = utils.getmember(event, 'event_descriptor.event_id')
-                        self.completed_event_ids[ven_id].append(event_id)
+                        modification_number = utils.getmember(event, 'event_descriptor.modification_number')
+                        self.completed_event_ids[ven_id][event_id] = modification_number
                         self.events[ven_id].pop(self.events[ven_id].index(event))
             else:
                 events = None
@@ -68,8 +69,8 @@ class EventService(VTNService):
             # Fire the delivery callbacks, if any
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if event_id in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[event_id]())
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
@@ -90,24 +91,27 @@ class EventService(VTNService):
         """
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
-            for event_response in payload['event_responses']:
+            invalid_responses = False
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
-                    if event_id not in self.completed_event_ids.get(ven_id, []):
+                    if self.completed_event_ids.get(ven_id, {}).get(event_id) != modification_number:
                         logger.warning(f"""Got an oadrCreatedEvent message from ven '{ven_id}' """
                                        f"""for event '{event_id}' with modification number """
                                        f"""{modification_number} that does not exist.""")
-                        raise errors.InvalidIdError
+                        # Still process the other responses in this message
+                        invalid_responses = True
+                        continue
                 # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
-                if event_response['event_id'] in self.event_callbacks:
-                    event, callback = self.event_callbacks.pop(event_id)
+                if (ven_id, event_id) in self.event_callbacks:
+                    event, callback = self.event_callbacks.pop((ven_id, event_id))
                     if isinstance(callback, asyncio.Future):
                         if callback.done():
                             logger.warning(f"Got a second response '{opt_type}' from ven '{ven_id}' "
@@ -120,8 +124,10 @@ class EventService(VTNService):
                         result = callback(ven_id=ven_id, event_id=event_id, opt_type=opt_type)
                         if asyncio.iscoroutine(result):
                             result = await result
+            if invalid_responses:
+                raise errors.InvalidIdError
         else:
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 opt_type = event_response['opt_type']
                 result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
-- 
2.43.0


From e1e50784664abfa6e515f81e5b2867ee99ec4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 08/75] fix: do not lose an event update that is made during a
 poll

---
 openleadr/service/poll_service.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..ab39f3c 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -119,9 +119,14 @@ class PollService(VTNService):
         if self.polling_method == 'external':
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
-            # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            # Send a oadrDistributeEvent whenever the events were updated. Any update that
+            # is made while we are collecting the events will be sent at the next poll.
             self.events_updated[payload['ven_id']] = False
+            try:
+                result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            except Exception:
+                self.events_updated[payload['ven_id']] = True
+                raise
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From 8d2b5b25a82d482b65d069934df31701d70e2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 09/75] fix: distribute a list of events returned by the
 on_poll handler

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index ab39f3c..14d8130 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -137,7 +137,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From caed9a50b868c8b9a7fe4e7f7d5eb6fe46dc134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 10/75] fix: do not write one VEN's details into a message that
 a handler reuses

---
 openleadr/service/vtn_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..a254c9b 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -176,6 +176,9 @@ class VTNService:
                     response_payload = asdict(response_payload)
                 elif response_payload is None:
                     response_payload = {}
+                else:
+                    # Don't change the handler's own dict, it may be reused for another VEN
+                    response_payload = dict(response_payload)
             else:
                 response_type, response_payload = 'oadrResponse', {}
 
-- 
2.43.0


From fef4ad62d19bbe5bea220e78e5012630bd488348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 11/75] fix: keep the current value of an active SIMPLE signal

---
 openleadr/preflight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index d3eca74..8068748 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -102,7 +102,7 @@ def _preflight_oadrDistributeEvent(message_payload):
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
-                        and event['event_descriptor']['event_status'] != "ACTIVE":
+                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-- 
2.43.0


From 2b8a06c386d6cd3b6f67df3b23572067c27fd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 12/75] fix: accept an event of which only one of 'targets' and
 'targets_by_type' is set

---
 openleadr/preflight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index 8068748..a7c5a81 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -139,11 +139,11 @@ def _preflight_oadrDistributeEvent(message_payload):
 
     # Check that the target designations are correct and consistent
     for event in message_payload['events']:
-        if 'targets' in event and 'targets_by_type' in event:
+        if event.get('targets') is not None and event.get('targets_by_type') is not None:
             if utils.group_targets_by_type(event['targets']) != event['targets_by_type']:
                 raise ValueError("You assigned both 'targets' and 'targets_by_type' in your event, "
                                  "but the two were not consistent with each other. "
                                  f"You supplied 'targets' = {event['targets']} and "
                                  f"'targets_by_type' = {event['targets_by_type']}")
-        elif 'targets_by_type' in event and 'targets' not in event:
+        elif event.get('targets_by_type') is not None:
             event['targets'] = utils.ungroup_targets_by_type(event['targets_by_type'])
-- 
2.43.0


From 45a499e30d94224463975800237aeca187cf8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 13/75] fix: know the namespace of the measurement
 currencyPerKW

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 61619999705fa5379d65716feb95f935779f9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 14/75] fix: refuse an event that can never be sent when it is
 added

---
 openleadr/server.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 1a889f2..8114524 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -18,10 +18,12 @@ from aiohttp import web
 from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
                               VTNService
 from openleadr.messaging import create_message
+from openleadr.preflight import preflight_message
 from openleadr import objects, enums, utils
 from functools import partial
 from datetime import datetime, timedelta, timezone
 import asyncio
+import copy
 import inspect
 import logging
 import ssl
@@ -290,9 +292,6 @@ class OpenADRServer:
                                      "your 'callback' handler.")
 
         event_id = utils.getmember(event, 'event_descriptor.event_id')
-        # Create the event queue if it does not exist yet
-        if ven_id not in self.events:
-            self.events[ven_id] = []
 
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
@@ -305,6 +304,13 @@ class OpenADRServer:
         if not utils.getmember(event, 'event_descriptor.priority', None):
             utils.setmember(event, 'event_descriptor.priority', 0)
 
+        # Refuse an event that can never be sent, since it would hold up all events for this VEN
+        preflight_message('oadrDistributeEvent', {'events': [copy.deepcopy(event)]})
+
+        # Create the event queue if it does not exist yet
+        if ven_id not in self.events:
+            self.events[ven_id] = []
+
         # Add event to the queue
         self.events[ven_id].append(event)
         self.events_updated[ven_id] = True
-- 
2.43.0


From b0f845d3d3b38d93d9b6427f278ac75c41491c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 15/75] fix: write the targets of an opt schedule in a single
 eiTarget

---
 openleadr/templates/oadrCreateOpt.xml | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..dc1ea0a 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -31,13 +31,9 @@
       <ei:modificationNumber>{{ modification_number }}</ei:modificationNumber>
     </ei:qualifiedEventID>
     {% endif %}
-    {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
-    {% endfor %}
-    {% else %}
-    <ei:eiTarget/>
-    {% endif %}
+    {% with event = {'targets': targets or []} %}
+    {% include 'parts/eiEventTarget.xml' %}
+    {% endwith %}
     {% if signal_target_mrid is defined and signal_target_mrid is not none %}
     <oadr:oadrDeviceClass>
 				<power:endDeviceAsset>
-- 
2.43.0


From 5971c2b59d2da6ee5343539c31a2fc62073c6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 16/75] fix: leave out the transport address of a registration
 that has none

---
 openleadr/templates/oadrCreatePartyRegistration.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/templates/oadrCreatePartyRegistration.xml b/openleadr/templates/oadrCreatePartyRegistration.xml
index 0815205..e7cbffa 100644
--- a/openleadr/templates/oadrCreatePartyRegistration.xml
+++ b/openleadr/templates/oadrCreatePartyRegistration.xml
@@ -9,7 +9,9 @@
     {% endif %}
     <oadr:oadrProfileName>{{ profile_name }}</oadr:oadrProfileName>
     <oadr:oadrTransportName>{{ transport_name }}</oadr:oadrTransportName>
+    {% if transport_address is defined and transport_address is not none %}
     <oadr:oadrTransportAddress>{{ transport_address }}</oadr:oadrTransportAddress>
+    {% endif %}
     <oadr:oadrReportOnly>{{ report_only|booleanformat }}</oadr:oadrReportOnly>
     <oadr:oadrXmlSignature>{{ xml_signature|booleanformat }}</oadr:oadrXmlSignature>
     <oadr:oadrVenName>{{ ven_name }}</oadr:oadrVenName>
-- 
2.43.0


From ce85c3d1e95361cc5662f23872f626fa2af80bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 17/75] fix: escape texts in messages and keep their line
 breaks

---
 openleadr/messaging.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..e4a1505 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -17,6 +17,7 @@
 from lxml import etree
 import xmltodict
 from jinja2 import Environment, PackageLoader
+from markupsafe import Markup, escape
 from signxml import XMLSigner, XMLVerifier, methods
 from uuid import uuid4
 from lxml.etree import Element
@@ -215,8 +216,19 @@ def _update_nonce_cache(timestamp, nonce):
 REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
+
+def _escape(value):
+    """
+    Escape a text for use in an XML message. Line breaks are written as character references,
+    so that they survive the flattening of the message and the line end handling of XML.
+    """
+    if isinstance(value, str) and not hasattr(value, '__html__'):
+        return escape(value).replace('\n', Markup('&#10;')).replace('\r', Markup('&#13;'))
+    return value
+
+
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True, finalize=_escape)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From 481979ca4f43eb2c794d73ffd77b0b6c066091a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 18/75] fix: read the measurements of all descriptions and
 signals, also after one without

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index bad5095..4a8020e 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -189,7 +189,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From 4725521a60e8d9481b89e8b13d27e53b83925ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 19/75] fix: read integer payloads in reports

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 4a8020e..c6fbbfa 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -238,7 +238,7 @@ def normalize_dict(ordered_dict):
                 v = d[key].pop('payload_float')
                 d[key]['value'] = float(v['value'])
             elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_float')
+                v = d[key].pop('payload_int')
                 d[key]['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
-- 
2.43.0


From ced48d600204df2b169366700a86f7bb5ddfe34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 20/75] fix: read and write the periods of an event under the
 same names

---
 openleadr/templates/parts/eiActivePeriod.xml | 8 ++++----
 openleadr/utils.py                           | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/openleadr/templates/parts/eiActivePeriod.xml b/openleadr/templates/parts/eiActivePeriod.xml
index 6e9675c..a3fc26a 100644
--- a/openleadr/templates/parts/eiActivePeriod.xml
+++ b/openleadr/templates/parts/eiActivePeriod.xml
@@ -9,21 +9,21 @@
         {% if event.active_period.tolerance %}
         <tolerance>
             <tolerate>
-                <startafter>{{ event.active_period.tolerance.startafter|timedeltaformat }}</startafter>
+                <startafter>{{ (event.active_period.tolerance.tolerate or event.active_period.tolerance).startafter|timedeltaformat }}</startafter>
             </tolerate>
         </tolerance>
         {% endif %}
-        {% if event.active_period.notification_period %}
+        {% if event.active_period.notification_period is defined and event.active_period.notification_period is not none %}
         <ei:x-eiNotification>
             <duration>{{ event.active_period.notification_period|timedeltaformat }}</duration>
         </ei:x-eiNotification>
         {% endif %}
-        {% if event.active_period.ramp_up_period %}
+        {% if event.active_period.ramp_up_period is defined and event.active_period.ramp_up_period is not none %}
         <ei:x-eiRampUp>
             <duration>{{ event.active_period.ramp_up_period|timedeltaformat }}</duration>
         </ei:x-eiRampUp>
         {% endif %}
-        {% if event.active_period.recovery_period %}
+        {% if event.active_period.recovery_period is defined and event.active_period.recovery_period is not none %}
         <ei:x-eiRecovery>
             <duration>{{ event.active_period.recovery_period|timedeltaformat }}</duration>
         </ei:x-eiRecovery>
diff --git a/openleadr/utils.py b/openleadr/utils.py
index c6fbbfa..a889db0 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -109,8 +109,9 @@ def normalize_dict(ordered_dict):
 
         # Do our best to make the dictionary structure as pythonic as possible
         if key.startswith("x_ei_"):
-            d[key[5:]] = d.pop(key)
-            key = key[5:]
+            # These are the notification, ramp up and recovery periods of an event
+            d[key[5:] + "_period"] = d.pop(key)
+            key = key[5:] + "_period"
 
         # Group all targets as a list of dicts under the key "target"
         if key == 'target':
-- 
2.43.0


From 9dff46c620e2e2187c67951eac2d784d9facd17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 21/75] fix: do not read identifiers and other texts as numbers
 or booleans

---
 openleadr/utils.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index a889db0..1d6b606 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -31,6 +31,10 @@ logger = logging.getLogger('openleadr')
 DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S.%fZ"
 DATETIME_FORMAT_NO_MICROSECONDS = "%Y-%m-%dT%H:%M:%SZ"
 
+# The elements that hold free text, next to those of which the name ends in ID or Name
+TEXT_ELEMENTS = ('mrid', 'node', 'market_context', 'vtn_comment', 'modification_reason', 'response_description',
+                 'item_description', 'item_units', 'description', 'unit', 'transport_address', 'opt_reason')
+
 
 def generate_id(*args, **kwargs):
     """
@@ -50,6 +54,20 @@ def flatten_xml(message):
     return "".join(lines)
 
 
+def is_text(key, value):
+    """
+    Decide if a value must be left alone, because it is the free text of an identifier, a name or
+    a comment that may merely look like a number or a boolean.
+    """
+    if key == 'request_id' and re.fullmatch(r'0|-?[1-9][0-9]*', value):
+        # Request ids are numbers if they can be written back unchanged
+        return False
+    if key == 'report_request_id' and value == '0':
+        # This is the placeholder for the report_request_id in oadrRegisterReport
+        return False
+    return key.endswith(('_id', '_name')) or key in TEXT_ELEMENTS
+
+
 def normalize_dict(ordered_dict):
     """
     Main conversion function for the output of xmltodict to the OpenLEADR
@@ -95,12 +113,14 @@ def normalize_dict(ordered_dict):
             d[key] = parse_duration(value)
         elif ("date_time" in key or key == "dtstart") and isinstance(value, str):
             d[key] = parse_datetime(value)
+        elif isinstance(value, str) and is_text(key, value):
+            d[key] = value
         elif value in ('true', 'false'):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
-            if re.match(r'^-?\d+$', value):
+            if re.fullmatch(r'-?[0-9]+', value):
                 d[key] = int(value)
-            elif re.match(r'^-?[\d.]+$', value):
+            elif re.fullmatch(r'-?([0-9]+\.[0-9]*|\.[0-9]+)', value):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From 2410839d7dbdcd31e4e48051d2c0587c4386e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 22/75] fix: read numbers in scientific notation

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1d6b606..3e8b9eb 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -120,7 +120,7 @@ def normalize_dict(ordered_dict):
         elif isinstance(value, str):
             if re.fullmatch(r'-?[0-9]+', value):
                 d[key] = int(value)
-            elif re.fullmatch(r'-?([0-9]+\.[0-9]*|\.[0-9]+)', value):
+            elif re.fullmatch(r'-?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?', value):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From 8da0d013c0dd2e4d899009fd5163a98c75ca18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 23/75] fix: write the end device assets that an event signal
 is meant for

---
 openleadr/server.py                         |  3 +++
 openleadr/templates/parts/eiEventSignal.xml | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/openleadr/server.py b/openleadr/server.py
index 8114524..5bd70dc 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -247,6 +247,9 @@ class OpenADRServer:
                                            signal_name=signal_name,
                                            signal_type=signal_type,
                                            signal_id=utils.generate_id())
+        if signal_target_mrid is not None:
+            end_device_asset = objects.EndDeviceAsset(mrid=signal_target_mrid)
+            event_signal.targets = [objects.Target(end_device_asset=end_device_asset)]
 
         # Make sure the intervals carry timezone-aware timestamps
         for interval in intervals:
diff --git a/openleadr/templates/parts/eiEventSignal.xml b/openleadr/templates/parts/eiEventSignal.xml
index 9453edd..9789bc6 100644
--- a/openleadr/templates/parts/eiEventSignal.xml
+++ b/openleadr/templates/parts/eiEventSignal.xml
@@ -23,6 +23,17 @@
         </ei:interval>
     {% endfor %}
     </strm:intervals>
+    {% if event_signal.targets %}
+    <ei:eiTarget xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+        {% for target in event_signal.targets %}
+        {% if target.end_device_asset %}
+        <power:endDeviceAsset>
+            <power:mrid>{{ target.end_device_asset.mrid }}</power:mrid>
+        </power:endDeviceAsset>
+        {% endif %}
+        {% endfor %}
+    </ei:eiTarget>
+    {% endif %}
     <ei:signalName>{{ event_signal.signal_name }}</ei:signalName>
     <ei:signalType>{{ event_signal.signal_type }}</ei:signalType>
     <ei:signalID>{{ event_signal.signal_id }}</ei:signalID>
-- 
2.43.0


From 11e99104212a9310c9aa0f11cc8f5ba1736eedf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 24/75] fix: answer every event by itself, and repeat the
 answer to an event that was cancelled

---
 openleadr/client.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..e3878b2 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1156,28 +1156,30 @@ class OpenADRClient:
                 modification_number = event['event_descriptor']['modification_number']
                 logger.info("The VEN received an event with event_id: %s, status: %s, modification_number: %s", event_id, event_status, modification_number) # change to debug
                 received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
-                if received_event:
-                    if received_event['event_descriptor']['modification_number'] == modification_number:
-                        # Re-submit the same opt type as we already had previously
-                        result = self.responded_events[event_id]
+                try:
+                    if received_event:
+                        if received_event['event_descriptor']['modification_number'] == modification_number:
+                            # Re-submit the same opt type as we already had previously
+                            result = self.responded_events[event_id]
+                        else:
+                            # Replace the event with the fresh copy
+                            utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                            self.received_events.append(event)
+                            # Wait for the result of the on_update_event handler
+                            result = await utils.await_if_required(self.on_update_event(event))
                     else:
-                        # Replace the event with the fresh copy
-                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                        # Wait for the result of the on_event
                         self.received_events.append(event)
-                        # Wait for the result of the on_update_event handler
-                        result = await utils.await_if_required(self.on_update_event(event))
-                else:
-                    # Wait for the result of the on_event
-                    self.received_events.append(event)
-                    result = self.on_event(event)
-                if asyncio.iscoroutine(result):
-                    result = await result
+                        result = self.on_event(event)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                except Exception as err:
+                    logger.error("Your on_event or on_update_event handler encountered an error. Will Opt Out of "
+                                 f"event {event_id}. The error was {err.__class__.__name__}: {str(err)}")
+                    result = 'optOut'
                 results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
+                # Remember our choice until the event is cleaned up, because it may be sent to us again
+                self.responded_events[event_id] = result
             for i, result in enumerate(results):
                 if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
@@ -1258,6 +1260,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From df117188ac81111b9b64c528e4028531d6a2d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:16 +0000
Subject: [PATCH 25/75] fix: let an empty answer of the VTN pass as no answer

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e3878b2..57d8d97 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1105,7 +1105,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From 3b34f8effe501b247ef502654e25dd9ab7ca5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 26/75] fix: survive answers to a registration that are no
 registration

---
 openleadr/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 57d8d97..063ae5b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -446,12 +446,18 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         if response_type is None:
             return
+        if 'response' not in response_payload:
+            logger.error(f"Got an unexpected {response_type} message on Create Party Registration.")
+            return
         if response_payload['response']['response_code'] != 200:
             status_code = response_payload['response']['response_code']
             status_description = response_payload['response']['response_description']
             logger.error(f"Got error on Create Party Registration: "
                          f"{status_code} {status_description}")
             return
+        if response_type != 'oadrCreatedPartyRegistration':
+            logger.error(f"Got an unexpected {response_type} message on Create Party Registration.")
+            return
 
         if response_payload.get('registration_id'):
             self.registration_id = response_payload['registration_id']
-- 
2.43.0


From f0941abd1944adfaf9e586529aa987c2f1f9b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 27/75] fix: survive a report that the VTN sends

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 063ae5b..8966cfa 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1288,7 +1288,9 @@ class OpenADRClient:
                 await self._on_event(response_payload)
 
         elif response_type == 'oadrUpdateReport':
-            await self._on_report(response_payload)
+            # We don't support receiving reports from the VTN at this moment
+            logger.warning("The VTN sent a report, but OpenLEADR "
+                           "does not support reports in this direction.")
 
         elif response_type == 'oadrCreateReport':
             if 'report_requests' in response_payload:
-- 
2.43.0


From 751b60aeec03dbc74719e81af98fc51e85571c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 28/75] fix: accept error responses without a description

---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8966cfa..ab4c918 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -451,7 +451,7 @@ class OpenADRClient:
             return
         if response_payload['response']['response_code'] != 200:
             status_code = response_payload['response']['response_code']
-            status_description = response_payload['response']['response_description']
+            status_description = response_payload['response'].get('response_description')
             logger.error(f"Got error on Create Party Registration: "
                          f"{status_code} {status_description}")
             return
@@ -1136,7 +1136,7 @@ class OpenADRClient:
             if message_payload['response']['response_code'] != 200:
                 logger.warning("We got a non-OK OpenADR response from the server: "
                                f"{message_payload['response']['response_code']}: "
-                               f"{message_payload['response']['response_description']}")
+                               f"{message_payload['response'].get('response_description')}")
         return message_type, message_payload
 
     async def _execute_hooks(self, hook_name, *args, **kwargs):
-- 
2.43.0


From 846eb472639a0d08526a489e5aeacb4c1874b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 29/75] fix: acknowledge report messages without reports or
 intervals

---
 openleadr/service/report_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..522b7d3 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -228,14 +228,14 @@ class ReportService(VTNService):
         """
         Handle a report that we received from the VEN.
         """
-        for report in payload['reports']:
+        for report in payload.get('reports', []):
             report_request_id = report['report_request_id']
             if not self.report_callbacks:
                 result = self.on_update_report(report)
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            for r_id, values in utils.group_by(report.get('intervals', []), 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-- 
2.43.0


From 62aebd5f5044df5983a03665379ee9ef8a8274b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 30/75] fix: deliver the other data of a report when one
 callback fails

---
 openleadr/service/report_service.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 522b7d3..32074d4 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -241,9 +241,13 @@ class ReportService(VTNService):
                     # Collect the values
                     values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]
                     # Call the callback function to deliver the values
-                    result = self.report_callbacks[(report_request_id, r_id)](values)
-                    if iscoroutine(result):
-                        result = await result
+                    try:
+                        result = self.report_callbacks[(report_request_id, r_id)](values)
+                        if iscoroutine(result):
+                            result = await result
+                    except Exception as err:
+                        logger.error(f"Your report callback for r_id {r_id} failed with "
+                                     f"{err.__class__.__name__}: {err}")
 
         response_type = 'oadrUpdatedReport'
         response_payload = {}
-- 
2.43.0


From 12922de5433427be657218066cbf7fc9b1ff290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 31/75] fix: receive reports with several data points in an
 interval

---
 openleadr/service/report_service.py |  8 +++++++-
 openleadr/utils.py                  | 13 +++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 32074d4..ef2fa0f 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -235,7 +235,13 @@ class ReportService(VTNService):
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report.get('intervals', []), 'report_payload.r_id').items():
+            # An interval can hold the payloads of several data points
+            intervals = [{**interval, 'report_payload': report_payload}
+                         for interval in report.get('intervals', [])
+                         for report_payload in (interval['report_payload']
+                                                if isinstance(interval['report_payload'], list)
+                                                else [interval['report_payload']])]
+            for r_id, values in utils.group_by(intervals, 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 3e8b9eb..e993318 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -255,12 +255,13 @@ def normalize_dict(ordered_dict):
 
         # Report payloads contain an r_id and a type-wrapped payload_float
         elif key == 'report_payload':
-            if 'payload_float' in d[key] and 'value' in d[key]['payload_float']:
-                v = d[key].pop('payload_float')
-                d[key]['value'] = float(v['value'])
-            elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_int')
-                d[key]['value'] = int(v['value'])
+            for payload in d[key] if isinstance(d[key], list) else [d[key]]:
+                if 'payload_float' in payload and 'value' in payload['payload_float']:
+                    v = payload.pop('payload_float')
+                    payload['value'] = float(v['value'])
+                elif 'payload_int' in payload and 'value' in payload['payload_int']:
+                    v = payload.pop('payload_int')
+                    payload['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
         elif key == 'test_event' and not isinstance(d[key], bool):
-- 
2.43.0


From 63d30736b30181ca17d6b77dadcaedc16a2df813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 32/75] fix: receive reports of the status of a resource

---
 openleadr/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index e993318..fb72cf0 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -262,6 +262,8 @@ def normalize_dict(ordered_dict):
                 elif 'payload_int' in payload and 'value' in payload['payload_int']:
                     v = payload.pop('payload_int')
                     payload['value'] = int(v['value'])
+                elif 'payload_resource_status' in payload:
+                    payload['value'] = payload.pop('payload_resource_status')
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
         elif key == 'test_event' and not isinstance(d[key], bool):
-- 
2.43.0


From ef575cf7a88cdcfc8d6215f4fafc24537200040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 33/75] fix: request the smallest chosen intervals, and skip
 invalid choices of reports

---
 openleadr/service/report_service.py | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index ef2fa0f..7c4074b 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -158,33 +158,33 @@ class ReportService(VTNService):
             report_requests.append(results)
         utils.validate_report_request_tuples(report_requests, mode=mode)
 
+        # Keep only the valid requests for data points that were really offered
         for i, report_request in enumerate(report_requests):
-            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
-                continue
-            # Check if all sampling rates per report_request are the same
-            sampling_interval = min(rrq[2] for rrq in report_request if isinstance(rrq, tuple))
-            if not all(rrq is not None and report_request[0][2] == sampling_interval for rrq in report_request):
-                logger.error("OpenADR does not support multiple different sampling rates per "
-                             "report. OpenLEADR will set all sampling rates to "
-                             f"{sampling_interval}")
+            if report_request is not None:
+                offered_report = payload['reports'][i]
+                report_requests[i] = [rrq for rrq in report_request if rrq is not None
+                                      and utils.find_by(offered_report['report_descriptions'], 'r_id', rrq[0])]
 
         # Form the report request
         oadr_report_requests = []
         for i, report_request in enumerate(report_requests):
-            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
+            if report_request is None or len(report_request) == 0:
                 continue
 
+            # Check if all sampling rates per report_request are the same
+            sampling_interval = min(rrq[2] for rrq in report_request)
+            report_interval = min(rrq[-1] for rrq in report_request)
+            if not all(rrq[2] == sampling_interval for rrq in report_request):
+                logger.error("OpenADR does not support multiple different sampling rates per "
+                             "report. OpenLEADR will set all sampling rates to "
+                             f"{sampling_interval}")
+
             orig_report = payload['reports'][i]
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
             specifier_payloads = []
             for rrq in report_request:
-                if len(rrq) == 3:
-                    r_id, callback, sampling_interval = rrq
-                    report_interval = sampling_interval
-                elif len(rrq) == 4:
-                    r_id, callback, sampling_interval, report_interval = rrq
-
+                r_id, callback = rrq[:2]
                 report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
                 reading_type = report_description['reading_type']
                 specifier_payloads.append(objects.SpecifierPayload(r_id=r_id,
-- 
2.43.0


From 566a579f6e60b06515e99eeb5656cd1fcb3f49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 34/75] fix: accept offers of reports without their optional
 parts

---
 openleadr/service/report_service.py | 36 +++++++++++++++--------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 7c4074b..5e61efe 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -93,42 +93,43 @@ class ReportService(VTNService):
                 self.registered_reports[payload['ven_id']] = []
 
             report_copy = report.copy()
-            report_copy['report_name'] = report_copy['report_name'][9:]
+            report_name = report.get('report_name') or ''
+            report_copy['report_name'] = report_name[9:]
             self.registered_reports[payload['ven_id']].append(report_copy)
 
-            if report['report_name'] == 'METADATA_TELEMETRY_STATUS':
+            if report_name == 'METADATA_TELEMETRY_STATUS':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload['ven_id'],
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
                                                        measurement='Status',
                                                        unit=None,
                                                        scale=None,
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
-                               for rd in report['report_descriptions']]
+                                                       min_sampling_interval=rd.get('sampling_rate', {}).get('min_period'),
+                                                       max_sampling_interval=rd.get('sampling_rate', {}).get('max_period'))
+                               for rd in report.get('report_descriptions', [])]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
                     results = await utils.await_if_required(self.on_register_report(report))
-            elif report['report_name'] == 'METADATA_TELEMETRY_USAGE':
+            elif report_name == 'METADATA_TELEMETRY_USAGE':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload['ven_id'],
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
-                                                       measurement=rd['measurement']['description'],
-                                                       unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement']['scale'],
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
-                               for rd in report['report_descriptions']]
+                                                       measurement=rd.get('measurement', {}).get('description'),
+                                                       unit=rd.get('measurement', {}).get('unit'),
+                                                       scale=rd.get('measurement', {}).get('scale'),
+                                                       min_sampling_interval=rd.get('sampling_rate', {}).get('min_period'),
+                                                       max_sampling_interval=rd.get('sampling_rate', {}).get('max_period'))
+                               for rd in report.get('report_descriptions', [])]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
                     results = await utils.await_if_required(self.on_register_report(report))
-            elif report['report_name'] in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):
+            elif report_name in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):
                 report_requests.append(None)
                 continue
             else:
                 logger.warning("Reports other than TELEMETRY_USAGE, TELEMETRY_STATUS, "
                                "HISTORY_USAGE and HISTORY_GREENBUTTON are not yet supported. "
-                               f"Skipping report with name {report['report_name']}.")
+                               f"Skipping report with name {report_name}.")
                 report_requests.append(None)
                 continue
 
@@ -153,8 +154,9 @@ class ReportService(VTNService):
                     # If we used compact mode, prepend the r_id to each result
                     # (this is already there when using the full mode)
                     if mode == 'compact':
-                        results = [(report['report_descriptions'][i]['r_id'], *results[i])
-                                   for i in range(len(report['report_descriptions'])) if isinstance(results[i], tuple)]
+                        results = [(rd['r_id'], *result)
+                                   for rd, result in zip(report.get('report_descriptions', []), results)
+                                   if isinstance(result, tuple)]
             report_requests.append(results)
         utils.validate_report_request_tuples(report_requests, mode=mode)
 
@@ -163,7 +165,7 @@ class ReportService(VTNService):
             if report_request is not None:
                 offered_report = payload['reports'][i]
                 report_requests[i] = [rrq for rrq in report_request if rrq is not None
-                                      and utils.find_by(offered_report['report_descriptions'], 'r_id', rrq[0])]
+                                      and utils.find_by(offered_report.get('report_descriptions', []), 'r_id', rrq[0])]
 
         # Form the report request
         oadr_report_requests = []
-- 
2.43.0


From a0216f0f1894965ae1fa95a60967b0f22e41bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 35/75] fix: set up every requested report with its own data
 points only

---
 openleadr/client.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ab4c918..08581b2 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -729,10 +729,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
@@ -749,14 +749,6 @@ class OpenADRClient:
                 if not report:
                     logger.error(f"A non-existant report with report_specifier_id "
                                     f"{report_specifier_id} was requested.")
-                    # return False
-                    job = None
-                    self.report_requests.append({'report_request_id': report_request_id,
-                                                'report_specifier_id': report_specifier_id,
-                                                'report_back_duration': report_back_duration,
-                                                'r_ids': requested_r_ids,
-                                                'granularity': granularity,
-                                                'job': job})
                 else:
                     # Check and collect the requested r_ids for this report
                     for specifier_payload in report_request['report_specifier']['specifier_payloads']:
@@ -803,6 +795,11 @@ class OpenADRClient:
 
                         requested_r_ids.append(r_id)
 
+                    if not requested_r_ids:
+                        logger.error(f"None of the requested data points can be reported for "
+                                     f"report_request_id {report_request_id}.")
+                        continue
+
                     if not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
@@ -824,8 +821,7 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
+                        report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
-- 
2.43.0


From 270f756d4f5ae7cad6a1b5c1f12aea22428a5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 36/75] fix: check the measurement that a report request names

---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index fb72cf0..38ff960 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -193,13 +193,13 @@ def normalize_dict(ordered_dict):
             d = d[key]
 
         # Plurarize some lists
-        elif key in ('report_request', 'report', 'specifier_payload'):
+        elif key in ('report_request', 'report'):
             if isinstance(d[key], list):
                 d[key + 's'] = d.pop(key)
             else:
                 d[key + 's'] = [d.pop(key)]
 
-        elif key in ('report_description', 'event_signal'):
+        elif key in ('report_description', 'event_signal', 'specifier_payload'):
             descriptions = d.pop(key)
             if not isinstance(descriptions, list):
                 descriptions = [descriptions]
-- 
2.43.0


From 3d3b81f2d568a33e5b291ca86f80405c54578071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 37/75] fix: keep the samples of every report together and
 complete

Collect the values of all data points before adding them to a report, isolate failing
callbacks, and complete a report after the agreed number of rounds, not of values.
---
 openleadr/client.py | 121 +++++++++++++++++++++++---------------------
 1 file changed, 64 insertions(+), 57 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 08581b2..d421d1e 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -853,62 +853,75 @@ class OpenADRClient:
         """
         logger.debug(f"Running update_report for {report_request_id}")
         report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
+        if not report_request:
+            logger.error(f"Report with report_request_id {report_request_id} was not found.")
+            return
+        intervals = await self._collect_report_values(report_request)
+        if report_request not in self.report_requests:
+            logger.info(f"Report with report_request_id {report_request_id} was cancelled in the meantime.")
+            return
+        await self._add_to_report(report_request, intervals)
+
+    async def _collect_report_values(self, report_request):
+        """
+        Get the current values of all data points in a report request from the report callbacks.
+        """
         granularity = report_request['granularity']
-        report_back_duration = report_request['report_back_duration']
         report_specifier_id = report_request['report_specifier_id']
         report = utils.find_by(self.reports, 'report_specifier_id', report_specifier_id)
-        data_collection_mode = report.data_collection_mode
+        duration = None
+        callback_args = {}
+
+        if report.data_collection_mode == 'full':
+            date_to = datetime.now(timezone.utc)
+            date_from = report_request.get('date_to') or date_to - max(report_request['report_back_duration'], granularity)
+            report_request['date_to'] = date_to
+            callback_args = {'date_from': date_from,
+                             'date_to': date_to,
+                             'sampling_interval': granularity}
+        elif report.report_name.replace('METADATA_', '') == enums.REPORT_NAME.TELEMETRY_USAGE \
+                and report_request['report_back_duration'] == timedelta(0):
+            duration = granularity
+
+        intervals = []
+        for r_id in report_request['r_ids']:
+            try:
+                report_callback = self.report_callbacks[(report_specifier_id, r_id)]
+                result = report_callback(**callback_args)
+                if asyncio.iscoroutine(result):
+                    result = await result
+                if isinstance(result, (int, float)):
+                    result = [(datetime.now(timezone.utc), result)]
+                intervals.extend([objects.ReportInterval(dtstart=dt,
+                                                         duration=duration,
+                                                         report_payload=objects.ReportPayload(r_id=r_id, value=value))
+                                  for dt, value in result])
+            except Exception as err:
+                logger.error(f"Could not get the value of r_id {r_id} in report with report_specifier_id "
+                             f"{report_specifier_id}: {err.__class__.__name__}: {err}")
+        return intervals
+
+    async def _add_to_report(self, report_request, intervals, complete=False):
+        """
+        Add the intervals to the report that is being compiled, and queue it for sending when it is complete.
+        """
+        report_request_id = report_request['report_request_id']
+        granularity = report_request['granularity']
+        report_back_duration = report_request['report_back_duration']
+        report = utils.find_by(self.reports, 'report_specifier_id', report_request['report_specifier_id'])
 
         if report_request_id in self.incomplete_reports:
             logger.debug("We were already compiling this report")
-            outgoing_report = self.incomplete_reports[report_request_id]
+            outgoing_report = self.incomplete_reports.pop(report_request_id)
         else:
             logger.debug("There is no report in progress")
             outgoing_report = objects.Report(report_request_id=report_request_id,
                                              report_specifier_id=report.report_specifier_id,
-                                             report_name=report.report_name if 'METADATA' not in report.report_name else report.report_name.replace('METADATA_', ''),
+                                             report_name=report.report_name.replace('METADATA_', ''),
                                              intervals=[])
-
-        intervals = outgoing_report.intervals or []
-        if data_collection_mode == 'full':
-            if report_back_duration is None:
-                report_back_duration = granularity
-            date_to = datetime.now(timezone.utc)
-            date_from = date_to - max(report_back_duration, granularity)
-            for r_id in report_request['r_ids']:
-                report_callback = self.report_callbacks[(report_specifier_id, r_id)]
-                result = report_callback(date_from=date_from,
-                                         date_to=date_to,
-                                         sampling_interval=granularity)
-                if asyncio.iscoroutine(result):
-                    result = await result
-                for dt, value in result:
-                    report_payload = objects.ReportPayload(r_id=r_id, value=value)
-                    intervals.append(objects.ReportInterval(dtstart=dt,
-                                                            report_payload=report_payload))
-
-        else:
-            for r_id in report_request['r_ids']:
-                try:
-                    report_callback = self.report_callbacks[(report_specifier_id, r_id)]
-                    result = report_callback()
-                    if asyncio.iscoroutine(result):
-                        result = await result
-                    if isinstance(result, (int, float)):
-                        result = [(datetime.now(timezone.utc), result)]
-                    for dt, value in result:
-                        logger.info(f"Adding {dt}, {value} to report")
-                        report_payload = objects.ReportPayload(r_id=r_id, value=value)
-                        if outgoing_report.report_name == enums.REPORT_NAME.TELEMETRY_USAGE and report_back_duration.total_seconds() == 0:
-                            intervals.append(objects.ReportInterval(dtstart=dt,
-                                                                    report_payload=report_payload,
-                                                                    duration=granularity))
-                        else:
-                            intervals.append(objects.ReportInterval(dtstart=dt,
-                                                                    report_payload=report_payload))
-                except KeyError:
-                    logger.error(f"No callback found for r_id {r_id} in report with report_specifier_id {report_specifier_id}")
-        outgoing_report.intervals = intervals
+            report_request['samples'] = 0
+        outgoing_report.intervals.extend(intervals)
+        report_request['samples'] += 1
         logger.info(f"The number of intervals in the report is now {len(outgoing_report.intervals)}")
 
         # Always set the dtstart of the report to the earliest datetime of any of the intervals
@@ -916,19 +929,13 @@ class OpenADRClient:
             outgoing_report.dtstart = min(interval.dtstart for interval in outgoing_report.intervals)
 
         # Figure out if the report is complete after this sampling
-        if data_collection_mode == 'incremental' and report_back_duration is not None\
-                and granularity.total_seconds() > 0 and report_back_duration > granularity:
-            report_interval = report_back_duration.total_seconds()
-            sampling_interval = granularity.total_seconds()
-            expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
-                logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
-            else:
-                logger.debug("The report is not yet complete, will hold until it is.")
-                self.incomplete_reports[report_request_id] = outgoing_report
+        if not complete and report.data_collection_mode == 'incremental' \
+                and timedelta(0) < granularity < report_back_duration \
+                and report_request['samples'] < report_back_duration // granularity:
+            logger.debug("The report is not yet complete, will hold until it is.")
+            self.incomplete_reports[report_request_id] = outgoing_report
         else:
-            logger.info("Report will be sent now.")
+            logger.info("The report is now complete with all the values. Will queue for sending.")
             await self.pending_reports.put(outgoing_report)
 
     async def cancel_report(self, payload):
-- 
2.43.0


From f590fe1fe0abf20ff45541a674e793152da1e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 38/75] fix: keep sending reports after a failure, and stop at
 a cancellation

The queue worker no longer dies of a report that cannot be sent, nor blocks itself on a
cancellation; cancelled reports are flushed, confirmed and not sampled any more.
---
 openleadr/client.py | 114 +++++++++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 48 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d421d1e..e53054c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -26,6 +26,7 @@ from http import HTTPStatus
 import aiohttp
 from lxml.etree import XMLSyntaxError
 from signxml.exceptions import InvalidSignature
+from apscheduler.jobstores.base import JobLookupError
 from apscheduler.schedulers.asyncio import AsyncIOScheduler
 from openleadr import enums, objects, errors
 from openleadr.messaging import create_message, parse_message, \
@@ -499,7 +500,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
@@ -812,6 +813,7 @@ class OpenADRClient:
                                                     'report_back_duration': report_back_duration,
                                                     'r_ids': requested_r_ids,
                                                     'granularity': granularity,
+                                                    'single': False,
                                                     'job': job})
                     else:
                         self.report_requests.append({'report_request_id': report_request_id,
@@ -819,12 +821,15 @@ class OpenADRClient:
                                                     'report_back_duration': report_back_duration,
                                                     'r_ids': requested_r_ids,
                                                     'granularity': granularity,
+                                                    'single': True,
                                                     'job': None})
                     
                         report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
-                            self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            job = self.scheduler.add_job(report_callback, 'date',
+                                                         run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            self.report_requests[-1]['job'] = job
                         else:
                             await self.update_report(report_request_id)
         
@@ -940,46 +945,58 @@ class OpenADRClient:
 
     async def cancel_report(self, payload):
         """
-        Cancel this report.
+        Cancel the reports with the given report_request_id (or list of report_request_ids).
         """
-        report_request_id = payload['report_request_id']
-        report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
-        if report_request:
-            if len(report_request['r_ids']) > 0:
-                # Update the report one last time before cancelling
-                logging.info(f"Updating one last time report with report_request_id {report_request_id}")
-                await self.update_report(report_request_id)
-                # Wait for the report to be sent
-                await asyncio.sleep(1)
+        report_request_ids = payload['report_request_id']
+        if not isinstance(report_request_ids, list):
+            report_request_ids = [report_request_ids]
+
+        # Stop the sampling of these reports
+        cancelled = []
+        for report_request_id in report_request_ids:
+            report_request = utils.pop_by(self.report_requests, 'report_request_id', report_request_id)
+            if not report_request:
+                logger.error(f"Report with report_request_id {report_request_id} was not found.")
+                continue
             if report_request['job']:
-                report_request['job'].remove()
+                try:
+                    report_request['job'].remove()
+                except JobLookupError:
+                    logger.debug("The report was already sent.")
+            cancelled.append(report_request)
             logger.info(f"Report with report_request_id {report_request_id} has been cancelled.")
-            service = 'EiReport'
-            message_type = 'oadrCanceledReport'
-            response = {'response_code': 200,
-                        'response_description': 'OK',
-                        'request_id': payload['request_id']}
-            if payload['report_to_follow'] == True:
-                logger.info(f"Report with report_request_id {report_request_id} will be followed by a new report.")
-                # Send oadrCanceledReport with oadrPendingReport message
-                message_payload = {'pending_reports': [{'report_request_id': report_request_id}]}
-                message = self._create_message(message_type,
-                                            response=response,
-                                            ven_id=self.ven_id,
-                                            report_request_id=report_request_id,
-                                            **message_payload)
-                await self.update_report(report_request_id)
-            else:
-                logger.info(f"Report with report_request_id {report_request_id} will not be followed by a new report.")
-                # Send simple oadrCanceledReport message
-                message = self._create_message(message_type,
-                                            response=response,
-                                            ven_id=self.ven_id,
-                                            report_request_id=report_request_id)
-            self.report_requests.remove(report_request)
-            await self._perform_request(service, message)
-        else:
-            logger.error(f"Report with report_request_id {report_request_id} was not found.")
+        if not cancelled:
+            return
+
+        report_to_follow = payload['report_to_follow'] is True
+        if not report_to_follow:
+            await self._send_final_reports(cancelled)
+            # Wait for the reports to be sent
+            await self.pending_reports.join()
+
+        message_payload = {}
+        if report_to_follow:
+            logger.info("The cancellation will be followed by a last report.")
+            message_payload = {'pending_reports': [{'report_request_id': report_request['report_request_id']}
+                                                   for report_request in cancelled]}
+        message = self._create_message('oadrCanceledReport',
+                                       response={'response_code': 200,
+                                                 'response_description': 'OK',
+                                                 'request_id': payload['request_id']},
+                                       ven_id=self.ven_id,
+                                       **message_payload)
+        await self._perform_request('EiReport', message)
+        if report_to_follow:
+            await self._send_final_reports(cancelled)
+
+    async def _send_final_reports(self, report_requests):
+        """
+        Update these periodic reports one last time, and queue what we have for sending.
+        """
+        for report_request in report_requests:
+            if not report_request['single']:
+                intervals = await self._collect_report_values(report_request)
+                await self._add_to_report(report_request, intervals, complete=True)
 
     async def _report_queue_worker(self):
         """
@@ -989,18 +1006,19 @@ class OpenADRClient:
             while True:
                 report = await self.pending_reports.get()
                 service = 'EiReport'
-                message = self._create_message('oadrUpdateReport',
-                                               ven_id=self.ven_id,
-                                               request_id=utils.generate_id(),
-                                               reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
+                    message = self._create_message('oadrUpdateReport',
+                                                   ven_id=self.ven_id,
+                                                   request_id=utils.generate_id(),
+                                                   reports=[report])
+                    response_type, response_payload = await self._perform_request(service, message)
+                    if response_payload.get('cancel_report'):
+                        # Don't wait for this, because it will need us to send the last report
+                        self.loop.create_task(self.cancel_report(response_payload['cancel_report']))
                 except Exception as err:
                     logger.error(f"Unable to send the report to the VTN. Error: {err}")
-                else:
-                    if 'cancel_report' in response_payload:
-                        await self.cancel_report(response_payload['cancel_report'])
+                finally:
+                    self.pending_reports.task_done()
         except asyncio.CancelledError:
             return
 
-- 
2.43.0


From 32eb0104880ed4a6516a7c9690b647be52e4134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 39/75] fix: sample reports exactly at the agreed interval

A cron job starts over at every minute, hour or day; use it only for intervals that
divide these. Sample collections of data at the reporting interval, and a one-off report
also when its time has just passed.
---
 openleadr/client.py | 11 +++++++----
 openleadr/utils.py  | 11 +++++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e53054c..99293ea 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -804,10 +804,12 @@ class OpenADRClient:
                     if not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
-                        reporting_interval = granularity or report_back_duration
+                        if report.data_collection_mode == 'full':
+                            reporting_interval = max(granularity, report_back_duration)
+                        else:
+                            reporting_interval = granularity
                         job = self.scheduler.add_job(func=callback,
-                                                    trigger='cron',
-                                                    **utils.cron_config(reporting_interval))
+                                                     **utils.trigger_config(reporting_interval))
                         self.report_requests.append({'report_request_id': report_request_id,
                                                     'report_specifier_id': report_specifier_id,
                                                     'report_back_duration': report_back_duration,
@@ -828,7 +830,8 @@ class OpenADRClient:
 
                         if 'report_interval' in report_request['report_specifier']:
                             job = self.scheduler.add_job(report_callback, 'date',
-                                                         run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                                                         run_date=report_request['report_specifier']['report_interval']['dtstart'],
+                                                         misfire_grace_time=None)
                             self.report_requests[-1]['job'] = job
                         else:
                             await self.update_report(report_request_id)
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 38ff960..ece3126 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -553,6 +553,17 @@ def cron_config(interval, randomize_seconds=False):
     return cron_config
 
 
+def trigger_config(interval):
+    """
+    Returns a dict with the scheduler settings for a job that runs exactly at the given interval
+    """
+    seconds = interval.total_seconds()
+    if any(seconds % unit == 0 and (60 * unit if unit < 3600 else 86400) % seconds == 0 for unit in (1, 60, 3600)):
+        return {'trigger': 'cron', **cron_config(interval)}
+    # A cron job would start over at every new minute, hour or day
+    return {'trigger': 'interval', 'seconds': seconds}
+
+
 def get_cert_fingerprint_from_request(request):
     ssl_object = request.transport.get_extra_info('ssl_object')
     if ssl_object:
-- 
2.43.0


From 20b77789cabe41599164c23043d3d55cfffdf1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 40/75] fix: do not lose collected samples to a callback that
 returns something else than times and values

---
 openleadr/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 99293ea..6800252 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -900,6 +900,9 @@ class OpenADRClient:
                     result = await result
                 if isinstance(result, (int, float)):
                     result = [(datetime.now(timezone.utc), result)]
+                result = list(result)
+                if not all(isinstance(dt, datetime) for dt, value in result):
+                    raise TypeError("the callback must return a number or a list of (datetime, number) tuples")
                 intervals.extend([objects.ReportInterval(dtstart=dt,
                                                          duration=duration,
                                                          report_payload=objects.ReportPayload(r_id=r_id, value=value))
@@ -934,7 +937,8 @@ class OpenADRClient:
 
         # Always set the dtstart of the report to the earliest datetime of any of the intervals
         if outgoing_report.intervals:
-            outgoing_report.dtstart = min(interval.dtstart for interval in outgoing_report.intervals)
+            outgoing_report.dtstart = min((interval.dtstart for interval in outgoing_report.intervals),
+                                          key=lambda dtstart: dtstart.astimezone(timezone.utc))
 
         # Figure out if the report is complete after this sampling
         if not complete and report.data_collection_mode == 'incremental' \
-- 
2.43.0


From df51a07da3c44f8822a3d067cd9b2f74f707a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 41/75] fix: answer a wrong Content-Type with HTTP 400

The HTTPError was raised with keyword arguments it does not have, so that the
VEN got a HTTP 500.
---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a254c9b..629295c 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From 3d7fadf7069920ea8f9905c5a90e73af4fc095d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 42/75] fix: answer errors with a valid message that echoes the
 request

Errors in the handling of an oadrRequestEvent ended in a HTTP 500 because the
answer was incomplete, errors for an oadrCreatePartyRegistration were answered
with the wrong message type, and no error answer carried the request id or the
id of the VEN. Absent ids were written as 'None'.
---
 openleadr/service/vtn_service.py              | 26 ++++++++++++++-----
 .../oadrCanceledPartyRegistration.xml         |  4 ++-
 .../oadrCreatedPartyRegistration.xml          |  2 +-
 openleadr/templates/oadrDistributeEvent.xml   |  2 +-
 openleadr/templates/oadrRegisteredReport.xml  |  2 +-
 openleadr/templates/oadrResponse.xml          |  2 ++
 6 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 629295c..c016b7b 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -128,7 +128,8 @@ class VTNService:
             # In case of an OpenADR error, return a valid OpenADR message
             response_type, response_payload = self.error_response(message_type,
                                                                   err.response_code,
-                                                                  err.response_description)
+                                                                  err.response_description,
+                                                                  message_payload)
             msg = self._create_message(response_type, **response_payload)
             response = web.Response(text=msg,
                                     status=HTTPStatus.OK,
@@ -196,18 +197,31 @@ class VTNService:
                                                                   enums.STATUS_CODES.COMPLIANCE_ERROR,
                                                                   "A message of type "
                                                                   f"{message_type} should not be "
-                                                                  f"sent to this endpoint ({self.__service_name__})")
+                                                                  f"sent to this endpoint ({self.__service_name__})",
+                                                                  message_payload)
         logger.info(f"Responding to {message_type} with a {response_type} message: {response_payload}.")
         hooks.call('after_handle', response_type, response_payload)
         return response_type, response_payload
 
-    def error_response(self, message_type, error_code, error_description):
+    def error_response(self, message_type, error_code, error_description, message_payload=None):
+        """
+        Create the answer that reports an error in the handling of a message.
+        """
+        message_payload = message_payload or {}
+        response_payload = {'response': {'response_code': error_code,
+                                         'response_description': error_description,
+                                         'request_id': message_payload.get('request_id')},
+                            'vtn_id': self.vtn_id,
+                            'ven_id': message_payload.get('ven_id')}
         if message_type == 'oadrCreatePartyRegistration':
             response_type = 'oadrCreatedPartyRegistration'
-        if message_type == 'oadrRequestEvent':
+            response_payload['registration_id'] = message_payload.get('registration_id')
+            response_payload['profiles'] = [{'profile_name': '2.0b',
+                                             'transports': [{'transport_name': 'simpleHttp'}]}]
+        elif message_type == 'oadrRequestEvent':
             response_type = 'oadrDistributeEvent'
+            response_payload['request_id'] = utils.generate_id()
+            response_payload['events'] = []
         else:
             response_type = 'oadrResponse'
-        response_payload = {'response': {'response_code': error_code,
-                                         'response_description': error_description}}
         return response_type, response_payload
diff --git a/openleadr/templates/oadrCanceledPartyRegistration.xml b/openleadr/templates/oadrCanceledPartyRegistration.xml
index d31ba68..a396c92 100644
--- a/openleadr/templates/oadrCanceledPartyRegistration.xml
+++ b/openleadr/templates/oadrCanceledPartyRegistration.xml
@@ -3,9 +3,11 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
-      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id if response.request_id is not none }}</requestID>
     </ei:eiResponse>
     <ei:registrationID>{{ registration_id }}</ei:registrationID>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrCanceledPartyRegistration>
 </oadr:oadrSignedObject>
\ No newline at end of file
diff --git a/openleadr/templates/oadrCreatedPartyRegistration.xml b/openleadr/templates/oadrCreatedPartyRegistration.xml
index b87ec4d..b46a94e 100644
--- a/openleadr/templates/oadrCreatedPartyRegistration.xml
+++ b/openleadr/templates/oadrCreatedPartyRegistration.xml
@@ -3,7 +3,7 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
-      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id if response.request_id is not none }}</requestID>
     </ei:eiResponse>
     {% if registration_id is defined and registration_id is not none %}
     <ei:registrationID>{{ registration_id }}</ei:registrationID>
diff --git a/openleadr/templates/oadrDistributeEvent.xml b/openleadr/templates/oadrDistributeEvent.xml
index e7b6e7f..b95ebcf 100644
--- a/openleadr/templates/oadrDistributeEvent.xml
+++ b/openleadr/templates/oadrDistributeEvent.xml
@@ -4,7 +4,7 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
-      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id if response.request_id is not none }}</requestID>
     </ei:eiResponse>
     {% endif %}
     <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ request_id }}</requestID>
diff --git a/openleadr/templates/oadrRegisteredReport.xml b/openleadr/templates/oadrRegisteredReport.xml
index 0d6d757..12a745c 100644
--- a/openleadr/templates/oadrRegisteredReport.xml
+++ b/openleadr/templates/oadrRegisteredReport.xml
@@ -3,7 +3,7 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
-      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id if response.request_id is not none }}</requestID>
     </ei:eiResponse>
     {% for report_request in report_requests %}
     {% include 'parts/oadrReportRequest.xml' %}
diff --git a/openleadr/templates/oadrResponse.xml b/openleadr/templates/oadrResponse.xml
index 2cea65e..b98c92a 100644
--- a/openleadr/templates/oadrResponse.xml
+++ b/openleadr/templates/oadrResponse.xml
@@ -9,6 +9,8 @@
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads" />
       {% endif %}
     </ei:eiResponse>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrResponse>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0


From 34da5b0db8b9595cae40d6a12346c5998e9605d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 43/75] fix: confirm a cancelled registration

An on_cancel_party_registration handler that returns None, as documented, made
the VTN answer with an oadrResponse, which the VEN does not take as the
confirmation of its cancellation. The VEN's own confirmation of a cancellation
that the VTN asked for was refused as not belonging to the endpoint.
---
 openleadr/service/registration_service.py             | 10 ++++++++++
 openleadr/templates/oadrCanceledPartyRegistration.xml |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 5b32fea..3505ee5 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -134,8 +134,18 @@ class RegistrationService(VTNService):
         result = self.on_cancel_party_registration(payload)
         if iscoroutine(result):
             result = await result
+        if result is None:
+            result = 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}
         return result
 
+    @handler('oadrCanceledPartyRegistration')
+    async def canceled_party_registration(self, payload):
+        """
+        Handle the confirmation that a VEN cancelled its registration at our request.
+        """
+        logger.info(f"VEN {payload.get('ven_id')} confirmed the cancellation of its registration.")
+        return 'oadrResponse', {}
+
     def on_cancel_party_registration(self, ven_id):
         """
         Placeholder for the on_cancel_party_registration handler.
diff --git a/openleadr/templates/oadrCanceledPartyRegistration.xml b/openleadr/templates/oadrCanceledPartyRegistration.xml
index a396c92..470ffb5 100644
--- a/openleadr/templates/oadrCanceledPartyRegistration.xml
+++ b/openleadr/templates/oadrCanceledPartyRegistration.xml
@@ -5,7 +5,9 @@
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id if response.request_id is not none }}</requestID>
     </ei:eiResponse>
+    {% if registration_id is defined and registration_id is not none %}
     <ei:registrationID>{{ registration_id }}</ei:registrationID>
+    {% endif %}
     {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
     {% endif %}
-- 
2.43.0


From 971f8d2f56ca6f317b4dca67d68a15d42210d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 44/75] fix: answer confirmations of reports

An oadrCreatedReport of a VEN that no reports were requested from ended in a
HTTP 500, as did an oadrRegisterReport or oadrCreatedReport without the optional
venID, and an oadrCanceledReport was refused as not belonging to the endpoint.
---
 openleadr/service/report_service.py | 36 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 5e61efe..361cda1 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -89,17 +89,17 @@ class ReportService(VTNService):
             return 'oadrRegisteredReport', {'report_requests': []}
 
         for report in payload['reports']:
-            if payload['ven_id'] not in self.registered_reports:
-                self.registered_reports[payload['ven_id']] = []
+            if payload.get('ven_id') not in self.registered_reports:
+                self.registered_reports[payload.get('ven_id')] = []
 
             report_copy = report.copy()
             report_name = report.get('report_name') or ''
             report_copy['report_name'] = report_name[9:]
-            self.registered_reports[payload['ven_id']].append(report_copy)
+            self.registered_reports[payload.get('ven_id')].append(report_copy)
 
             if report_name == 'METADATA_TELEMETRY_STATUS':
                 if mode == 'compact':
-                    results = [self.on_register_report(ven_id=payload['ven_id'],
+                    results = [self.on_register_report(ven_id=payload.get('ven_id'),
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
                                                        measurement='Status',
                                                        unit=None,
@@ -112,7 +112,7 @@ class ReportService(VTNService):
                     results = await utils.await_if_required(self.on_register_report(report))
             elif report_name == 'METADATA_TELEMETRY_USAGE':
                 if mode == 'compact':
-                    results = [self.on_register_report(ven_id=payload['ven_id'],
+                    results = [self.on_register_report(ven_id=payload.get('ven_id'),
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
                                                        measurement=rd.get('measurement', {}).get('description'),
                                                        unit=rd.get('measurement', {}).get('unit'),
@@ -209,7 +209,7 @@ class ReportService(VTNService):
         response_payload = {'report_requests': oadr_report_requests}
 
         # Store the requested reports
-        self.requested_reports[payload['ven_id']] = oadr_report_requests
+        self.requested_reports[payload.get('ven_id')] = oadr_report_requests
         return response_type, response_payload
 
     async def on_register_report(self, payload):
@@ -277,18 +277,15 @@ class ReportService(VTNService):
         """
         Handle the confirmation that a report was created.
         """
-        if not hasattr(self, 'on_created_report'):
-            logger.info(f"""VEN {payload['ven_id']} created reports with reportRequestIDs """
-                        f"""'{"', '".join([r['request_id'] for r in payload['pending_reports']])}'.""")
-        else:
-            await utils.await_if_required(self.on_created_report(payload))
+        await utils.await_if_required(self.on_created_report(payload))
+        return 'oadrResponse', {}
 
     async def on_created_report(self, payload):
         """
         Implementation of the on_created_report handler, may be overwritten by the user.
         """
-        ven_id = payload['ven_id']
-        if payload['ven_id'] not in self.created_reports:
+        ven_id = payload.get('ven_id')
+        if ven_id not in self.created_reports:
             self.created_reports[ven_id] = []
 
         if payload.get('pending_reports'):
@@ -296,7 +293,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
@@ -306,7 +303,16 @@ class ReportService(VTNService):
     @handler('oadrRegisteredReport')
     async def registered_report(self, payload):
         if not hasattr(self, 'on_registered_report'):
-            logger.info(f"VEN {payload['ven_id']} indicated that it has registered "
+            logger.info(f"VEN {payload.get('ven_id')} indicated that it has registered "
                         "your VTN-provided reports, but you are not handling that yet.")
         else:
             await utils.await_if_required(self.on_registered_report(payload))
+        return 'oadrResponse', {}
+
+    @handler('oadrCanceledReport')
+    async def canceled_report(self, payload):
+        """
+        Handle the confirmation that a VEN cancelled reports at our request.
+        """
+        logger.info(f"VEN {payload.get('ven_id')} confirmed the cancellation of reports.")
+        return 'oadrResponse', {}
-- 
2.43.0


From a751ab8591f77f4d947b9118f100625e685bfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 45/75] fix: name the VEN in a re-registration request

When the application raised RequestReregistration without a ven_id, the VEN was
addressed as 'None'.
---
 openleadr/service/vtn_service.py                  | 3 ++-
 openleadr/templates/oadrRequestReregistration.xml | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index c016b7b..09fe08c 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -115,7 +115,8 @@ class VTNService:
                 response_payload['ven_id'] = message_payload.get('ven_id')
         except errors.RequestReregistration as err:
             response_type = 'oadrRequestReregistration'
-            response_payload = {'ven_id': err.ven_id}
+            ven_id = err.ven_id if err.ven_id is not None else message_payload.get('ven_id')
+            response_payload = {'ven_id': ven_id}
             msg = self._create_message(response_type, **response_payload)
             response = web.Response(text=msg,
                                     status=HTTPStatus.OK,
diff --git a/openleadr/templates/oadrRequestReregistration.xml b/openleadr/templates/oadrRequestReregistration.xml
index 6be6693..53d290e 100644
--- a/openleadr/templates/oadrRequestReregistration.xml
+++ b/openleadr/templates/oadrRequestReregistration.xml
@@ -1,5 +1,5 @@
 <oadr:oadrSignedObject xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07" oadr:Id="oadrSignedObject">
   <oadr:oadrRequestReregistration ei:schemaVersion="2.0b" xmlns:ei="http://docs.oasis-open.org/ns/energyinterop/201110">
-    <ei:venID>{{ ven_id }}</ei:venID>
+    <ei:venID>{{ ven_id if ven_id is not none }}</ei:venID>
   </oadr:oadrRequestReregistration>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0


From 4e6ef931c2f5b7eb358420c0289b3bc6617260cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 46/75] fix: do not serve messages from a VEN that does not
 identify itself

A message without the optional venID was neither looked up nor authenticated,
so that any client could have its oadrRegisterReport, oadrUpdateReport or
oadrCancelPartyRegistration handled by a VTN that knows its VENs.
---
 openleadr/service/vtn_service.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 09fe08c..df1cfeb 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -71,9 +71,14 @@ class VTNService:
                 raise errors.InvalidIdError(f"The supplied vtnID is invalid. It should be '{self.vtn_id}', "
                                             f"you supplied {message_payload['vtn_id']}.")
 
+            # Every message except these must come from a VEN that we know
+            is_registration = message_type in ('oadrCreatePartyRegistration', 'oadrQueryRegistration')
+            if not is_registration and message_payload.get('ven_id') is None \
+                    and (hasattr(self, 'ven_lookup') or request.secure and hasattr(self, 'fingerprint_lookup')):
+                raise errors.NotRegisteredOrAuthorizedError("Your message does not contain your venID.")
+
             # Check if we know this VEN, ask for reregistration otherwise
-            if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \
-                    and 'ven_id' in message_payload and hasattr(self, 'ven_lookup'):
+            if not is_registration and hasattr(self, 'ven_lookup'):
                 result = await utils.await_if_required(self.ven_lookup(ven_id=message_payload['ven_id']))
                 if result is None or result.get('registration_id', None) is None:
                     raise errors.RequestReregistration(message_payload['ven_id'])
-- 
2.43.0


From c4afe2921ebe2ce76d7e1e32b9b29a5a54017a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 47/75] fix: keep the settings of each server to itself

The certificate, VEN look-up, fingerprint look-up and signature policy were
stored on the class of the services, so that every server in the process used
those of the server that was created last.
---
 openleadr/server.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 5bd70dc..a45eeff 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -15,8 +15,7 @@
 # limitations under the License.
 
 from aiohttp import web
-from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
-                              VTNService
+from openleadr.service import EventService, PollService, RegistrationService, ReportService
 from openleadr.messaging import create_message
 from openleadr.preflight import preflight_message
 from openleadr import objects, enums, utils
@@ -83,16 +82,17 @@ class OpenADRServer:
         self.app = web.Application()
         self.services = {}
 
-        # Globally enable or disable the verification of message
-        # signatures. Only used in combination with TLS.
-        VTNService.verify_message_signatures = verify_message_signatures
-
         # Create the separate OpenADR services
         self.services['event_service'] = EventService(vtn_id)
         self.services['report_service'] = ReportService(vtn_id)
         self.services['poll_service'] = PollService(vtn_id)
         self.services['registration_service'] = RegistrationService(vtn_id, poll_freq=requested_poll_freq)
 
+        # Enable or disable the verification of message signatures.
+        # Only used in combination with TLS.
+        for service in self.services.values():
+            service.verify_message_signatures = verify_message_signatures
+
         # Register the other services with the poll service
         self.services['poll_service'].event_service = self.services['event_service']
         self.services['poll_service'].report_service = self.services['report_service']
@@ -138,20 +138,23 @@ class OpenADRServer:
                     print(utils.certificate_domain(cert).center(80))
                 print("*" * 80)
                 print("")
-        VTNService._create_message = partial(create_message, cert=cert, key=key,
-                                             passphrase=passphrase)
+        for service in self.services.values():
+            service._create_message = partial(create_message, cert=cert, key=key,
+                                              passphrase=passphrase)
         if fingerprint_lookup is not None:
             logger.warning("DeprecationWarning: the argument 'fingerprint_lookup' is deprecated and "
                            "is replaced by 'ven_lookup'. 'fingerprint_lookup' will be removed in a "
                            "future version of OpenLEADR. Please see "
                            "https://openleadr.org/docs/server.html#things-you-should-implement.")
-            VTNService.fingerprint_lookup = staticmethod(fingerprint_lookup)
+            for service in self.services.values():
+                service.fingerprint_lookup = fingerprint_lookup
         if ven_lookup is None:
             logger.warning("If you provide a 'ven_lookup' to your OpenADRServer() init, OpenLEADR can "
                            "automatically issue ReregistrationRequests for VENs that don't exist in "
                            "your system. Please see https://openleadr.org/docs/server.html#things-you-should-implement.")
         else:
-            VTNService.ven_lookup = staticmethod(ven_lookup)
+            for service in self.services.values():
+                service.ven_lookup = ven_lookup
         self.__setattr__ = self.add_handler
 
     async def run(self):
-- 
2.43.0


From 8741ef35033ec6d11b0981581d73c12ecd417ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 48/75] fix: accept report descriptions with an empty data
 source

---
 openleadr/service/report_service.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 361cda1..4ad39e1 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -100,12 +100,12 @@ class ReportService(VTNService):
             if report_name == 'METADATA_TELEMETRY_STATUS':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload.get('ven_id'),
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
+                                                       resource_id=(rd.get('report_data_source') or {}).get('resource_id'),
                                                        measurement='Status',
                                                        unit=None,
                                                        scale=None,
-                                                       min_sampling_interval=rd.get('sampling_rate', {}).get('min_period'),
-                                                       max_sampling_interval=rd.get('sampling_rate', {}).get('max_period'))
+                                                       min_sampling_interval=(rd.get('sampling_rate') or {}).get('min_period'),
+                                                       max_sampling_interval=(rd.get('sampling_rate') or {}).get('max_period'))
                                for rd in report.get('report_descriptions', [])]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
@@ -113,12 +113,12 @@ class ReportService(VTNService):
             elif report_name == 'METADATA_TELEMETRY_USAGE':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload.get('ven_id'),
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
-                                                       measurement=rd.get('measurement', {}).get('description'),
-                                                       unit=rd.get('measurement', {}).get('unit'),
-                                                       scale=rd.get('measurement', {}).get('scale'),
-                                                       min_sampling_interval=rd.get('sampling_rate', {}).get('min_period'),
-                                                       max_sampling_interval=rd.get('sampling_rate', {}).get('max_period'))
+                                                       resource_id=(rd.get('report_data_source') or {}).get('resource_id'),
+                                                       measurement=(rd.get('measurement') or {}).get('description'),
+                                                       unit=(rd.get('measurement') or {}).get('unit'),
+                                                       scale=(rd.get('measurement') or {}).get('scale'),
+                                                       min_sampling_interval=(rd.get('sampling_rate') or {}).get('min_period'),
+                                                       max_sampling_interval=(rd.get('sampling_rate') or {}).get('max_period'))
                                for rd in report.get('report_descriptions', [])]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
-- 
2.43.0


From ff1253c11cad5454a1a8571b037b85b14016cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 49/75] fix: answer a message that cannot be parsed with HTTP
 400

---
 openleadr/service/vtn_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index df1cfeb..e5080c3 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -18,6 +18,7 @@ from asyncio import iscoroutine
 from http import HTTPStatus
 import logging
 import traceback
+from xml.parsers.expat import ExpatError
 
 from aiohttp import web
 from lxml.etree import XMLSyntaxError
@@ -60,7 +61,11 @@ class VTNService:
             message_tree = validate_xml_schema(content)
 
             # Parse the message to a type and payload dict
-            message_type, message_payload = parse_message(content)
+            try:
+                message_type, message_payload = parse_message(content)
+            except (ExpatError, ValueError) as err:
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description=f"Could not parse the message: {err}")
 
             if message_type == 'oadrResponse':
                 raise errors.SendEmptyHTTPResponse()
-- 
2.43.0


From 8f2942034ac48c1923cb88f1be1562644e686010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 50/75] fix: refuse a registration with a valid message

The answer lacked the mandatory profiles if the handler's answer could not be
understood.
---
 openleadr/service/registration_service.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 3505ee5..e9f6aa3 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -99,20 +99,14 @@ class RegistrationService(VTNService):
                 logger.error("Your on_create_party_registration handler should return either "
                              "'False' (if the client is rejected) or a (ven_id, registration_id) "
                              "tuple. Will REJECT the client for now.")
-                response_payload = {}
-            else:
-                ven_id, registration_id = result
-                transports = [{'transport_name': payload['transport_name']}]
-                response_payload = {'ven_id': result[0],
-                                    'registration_id': result[1],
-                                    'profiles': [{'profile_name': payload['profile_name'],
-                                                  'transports': transports}],
-                                    'requested_oadr_poll_freq': self.poll_freq}
-        else:
-            transports = [{'transport_name': payload['transport_name']}]
-            response_payload = {'profiles': [{'profile_name': payload['profile_name'],
-                                              'transports': transports}],
-                                'requested_oadr_poll_freq': self.poll_freq}
+                result = None
+
+        transports = [{'transport_name': payload['transport_name']}]
+        response_payload = {'profiles': [{'profile_name': payload['profile_name'],
+                                          'transports': transports}],
+                            'requested_oadr_poll_freq': self.poll_freq}
+        if result:
+            response_payload['ven_id'], response_payload['registration_id'] = result
         return 'oadrCreatedPartyRegistration', response_payload
 
     def on_create_party_registration(self, payload):
-- 
2.43.0


From c541450c27591364542bf2175dcf7d14239b27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:01 +0000
Subject: [PATCH 51/75] fix: accept only the content that was signed

The signature was verified without checking which elements it covers, so that a
signed oadrSignedObject or ReplayProtect could be moved aside in the message and
replaced with another one, and the nonce was cut off at an inserted comment.
---
 openleadr/messaging.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index e4a1505..3196f86 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -19,6 +19,7 @@ import xmltodict
 from jinja2 import Environment, PackageLoader
 from markupsafe import Markup, escape
 from signxml import XMLSigner, XMLVerifier, methods
+from signxml.exceptions import InvalidSignature
 from uuid import uuid4
 from lxml.etree import Element
 from openleadr import errors
@@ -36,6 +37,8 @@ SIGNER = XMLSigner(method=methods.detached,
 SIGNER.namespaces['oadr'] = "http://openadr.org/oadr-2.0b/2012/07"
 VERIFIER = XMLVerifier()
 
+DS_NAMESPACE = {'ds': 'http://www.w3.org/2000/09/xmldsig#'}
+
 XML_SCHEMA_LOCATION = os.path.join(os.path.dirname(__file__), 'schema', 'oadr_20b.xsd')
 
 with open(XML_SCHEMA_LOCATION) as file:
@@ -110,8 +113,35 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
             raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
-    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
-    _verify_replay_protect(xml_tree)
+    results = VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+    _verify_signed_object(xml_tree, results)
+    _verify_replay_protect(_find_signed_replay_protect(results))
+
+
+def _verify_signed_object(xml_tree, verify_results):
+    """
+    Check that the signature covers the very oadrSignedObject that we are going to use, and not
+    some other element of the message.
+    """
+    references = verify_results[0].signature_xml.iterfind('ds:SignedInfo/ds:Reference', DS_NAMESPACE)
+    signed_uris = [reference.get('URI') for reference in references]
+    signed_object = xml_tree.find('{http://openadr.org/oadr-2.0b/2012/07}oadrSignedObject')
+    ids = [value for name, value in signed_object.attrib.items()
+           if etree.QName(name).localname == 'Id'] if signed_object is not None else []
+    if not any(f'#{id_}' in signed_uris for id_ in ids):
+        raise InvalidSignature("The signature does not cover the oadrSignedObject of this message.")
+
+
+def _find_signed_replay_protect(verify_results):
+    """
+    Return the ReplayProtect element that was really signed.
+    """
+    for result in verify_results:
+        if result.signed_xml is not None:
+            for replay_protect in result.signed_xml.iter('{http://openadr.org/oadr-2.0b/2012/07/'
+                                                         'xmldsig-properties}ReplayProtect'):
+                return replay_protect
+    raise ValueError("Missing or malformed ReplayProtect element in the message signature.")
 
 
 def validate_xml_signature_none(xml_tree):
-- 
2.43.0


From 9046338d27002530bf234032b85097ec5ea75e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:01 +0000
Subject: [PATCH 52/75] fix: refuse a message without a usable signature as not
 authorized

A missing or malformed signature ended in a HTTP 500.
---
 openleadr/messaging.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 3196f86..93a494f 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -186,8 +186,12 @@ async def authenticate_message(request, message_tree, message_payload,
             raise errors.NotRegisteredOrAuthorizedError(msg)
 
         if verify_message_signature:
-            message_cert = utils.extract_pem_cert(message_tree)
-            message_fingerprint = utils.certificate_fingerprint(message_cert)
+            try:
+                message_cert = utils.extract_pem_cert(message_tree)
+                message_fingerprint = utils.certificate_fingerprint(message_cert)
+            except Exception:
+                msg = "The message was not signed, or the certificate in the signature is malformed."
+                raise errors.NotRegisteredOrAuthorizedError(msg)
             if message_fingerprint != expected_fingerprint:
                 msg = (f"The fingerprint of the certificate used to sign the message "
                        f"{message_fingerprint} did not match the fingerprint that this "
@@ -197,7 +201,9 @@ async def authenticate_message(request, message_tree, message_payload,
 
             try:
                 validate_xml_signature(message_tree)
-            except ValueError:
+            except InvalidSignature:
+                raise
+            except Exception:
                 msg = ("The message signature did not match the message contents. Please make sure "
                        "you are using the correct XMLDSig algorithm and C14n canonicalization.")
                 raise errors.NotRegisteredOrAuthorizedError(msg)
-- 
2.43.0


From c2fd2ca6de1553b50c67f0cae2cd5a9b43eb0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 53/75] fix: refuse messages with a document type declaration

---
 openleadr/messaging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 93a494f..0b0f394 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -99,6 +99,9 @@ def validate_xml_schema(content):
     if isinstance(content, str):
         content = content.encode('utf-8')
     tree = etree.fromstring(content, XML_PARSER)
+    if tree.getroottree().docinfo.internalDTD is not None:
+        # Entities can make the content that is used different from the content that was signed
+        raise etree.XMLSyntaxError("A message may not have a document type declaration", 0, 0, 0)
     return tree
 
 
-- 
2.43.0


From 2c54c579a6b8b0c594ec1452711d0d666f080209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 54/75] fix: only the answer to its registration registers a
 VEN

---
 openleadr/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 6800252..279142b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -140,8 +140,6 @@ class OpenADRClient:
 
         request_id = None
         response_type, response_payload = await self.query_registration()
-        if 'registration_id' in response_payload:
-            self.registration_id = response_payload['registration_id']
         if response_payload and 'response' in response_payload  and 'request_id' in response_payload['response']:
             request_id = response_payload['response']['request_id']
 
-- 
2.43.0


From c0038e820d04a738c58282fbeee88480bb44fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 55/75] fix: poll at the frequency of the last registration

---
 openleadr/client.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 279142b..7b49e20 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -91,6 +91,7 @@ class OpenADRClient:
         self.incomplete_reports = {}            # Holds reports that are being populated over time
         self.pending_reports = asyncio.Queue()  # Holds reports that are waiting to be sent
         self.scheduler = AsyncIOScheduler(timezone=str(tzlocal.get_localzone()))
+        self.poll_job = None
         self.client_session = None
         self.report_queue_task = None
 
@@ -162,14 +163,9 @@ class OpenADRClient:
         await self._poll()
 
         # Set up automatic polling
-        if self.poll_frequency > timedelta(hours=24):
-            logger.warning("Polling with intervals of more than 24 hours is not supported. "
-                           "Will use 24 hours as the polling interval.")
-            self.poll_frequency = timedelta(hours=24)
-
-        self.scheduler.add_job(self._poll,
-                               trigger='interval',
-                               seconds=self.poll_frequency.total_seconds())
+        self.poll_job = self.scheduler.add_job(self._poll,
+                                               trigger='interval',
+                                               seconds=self.poll_frequency.total_seconds())
         self.scheduler.add_job(self._event_status_log,
                                trigger='interval',
                                seconds=self.event_status_log_period)
@@ -479,6 +475,10 @@ class OpenADRClient:
         if self.registration_id:
             self.poll_frequency = response_payload.get('requested_oadr_poll_freq',
                                                        timedelta(seconds=10))
+            if self.poll_frequency > timedelta(hours=24):
+                logger.warning("Polling with intervals of more than 24 hours is not supported. "
+                               "Will use 24 hours as the polling interval.")
+                self.poll_frequency = timedelta(hours=24)
             logger.info(f"VEN is now registered with registration ID {self.registration_id} and venID {self.ven_id}.")
             logger.info(f"The polling frequency is {self.poll_frequency}")
         return response_type, response_payload
@@ -490,6 +490,7 @@ class OpenADRClient:
 
         if registration_id is None:
             registration_id = self.registration_id
+        poll_frequency = self.poll_frequency
         await self.create_party_registration(ven_id=self.ven_id, registration_id=registration_id)
 
         if not self.registration_id:
@@ -501,6 +502,9 @@ class OpenADRClient:
         if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
+        if self.poll_job and self.poll_frequency != poll_frequency:
+            self.poll_job.reschedule('interval', seconds=self.poll_frequency.total_seconds())
+
         # Perform initial event sync
         await self.sync_events()
 
-- 
2.43.0


From 7deb38a3789086b82514e4221fa1fd049af10b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 56/75] fix: keep the client usable after its registration was
 cancelled

---
 openleadr/client.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 7b49e20..0d3eadb 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -527,16 +527,27 @@ class OpenADRClient:
             logger.info("VEN successfully un-registered")
             # Update/Delete all the registration and reports information
             self.registration_id = None
-            self.report_requests = None
-            self.reports = None
-            self.report_callbacks = None
-            self.report_requests = None
-            self.incomplete_reports = None
-            self.pending_reports = None
-            self.scheduler.remove_all_jobs()
+            self._clear_registration()
         else:
             logger.warning("The VEN couldn't cancel the registration")
 
+    def _clear_registration(self):
+        """
+        Forget the reports that belong to our registration, and stop polling and reporting.
+        """
+        self.reports = []
+        self.report_callbacks = {}
+        self.report_requests = []
+        self.incomplete_reports = {}
+        while not self.pending_reports.empty():
+            self.pending_reports.get_nowait()
+            self.pending_reports.task_done()
+        if self.report_queue_task:
+            self.report_queue_task.cancel()
+            self.report_queue_task = None
+        self.scheduler.remove_all_jobs()
+        self.poll_job = None
+
     ###########################################################################
     #                                                                         #
     #                              EVENT METHODS                              #
@@ -1004,8 +1015,13 @@ class OpenADRClient:
         """
         for report_request in report_requests:
             if not report_request['single']:
+                report_specifier_id = report_request['report_specifier_id']
+                if not utils.find_by(self.reports, 'report_specifier_id', report_specifier_id):
+                    logger.info("The registration was cancelled in the meantime.")
+                    return
                 intervals = await self._collect_report_values(report_request)
-                await self._add_to_report(report_request, intervals, complete=True)
+                if utils.find_by(self.reports, 'report_specifier_id', report_specifier_id):
+                    await self._add_to_report(report_request, intervals, complete=True)
 
     async def _report_queue_worker(self):
         """
@@ -1083,13 +1099,7 @@ class OpenADRClient:
         else:
             return
         # Update/Delete all the registration and reports information
-        self.report_requests = None
-        self.reports = None
-        self.report_callbacks = None
-        self.report_requests = None
-        self.incomplete_reports = None
-        self.pending_reports = None
-        self.scheduler.remove_all_jobs()
+        self._clear_registration()
 
         message = self._create_message('oadrCanceledPartyRegistration', response=response, ven_id=self.ven_id, registration_id=self.registration_id)
         service = 'EiRegisterParty'
-- 
2.43.0


From 060e381c2661b788fc4afabe7490d7b34e969d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 57/75] fix: allow a client to run again after its registration
 was cancelled

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0d3eadb..3c5f27a 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -172,7 +172,8 @@ class OpenADRClient:
         self.scheduler.add_job(self._event_cleanup,
                                trigger='interval',
                                seconds=self.events_clean_up_period)
-        self.scheduler.start()
+        if not self.scheduler.running:
+            self.scheduler.start()
 
     async def stop(self):
         """
-- 
2.43.0


From bdca6de76c468e8f5c8f03251fb22d766bf6f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 58/75] fix: accept measurement dicts in add_report

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 3c5f27a..ce0be77 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -300,7 +300,9 @@ class OpenADRClient:
             item_base = measurement
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = measurement.get('power_attributes')
+            if power_attributes is not None:
+                power_attributes = objects.PowerAttributes(**power_attributes)
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
-- 
2.43.0


From 79b057bc40b161f7cfa1f202ba421da916e3afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 59/75] fix: give every data point its own measurement and
 scale

---
 openleadr/client.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ce0be77..d4446f0 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -19,7 +19,7 @@ import inspect
 import logging
 import ssl
 from datetime import datetime, timedelta, timezone
-from dataclasses import asdict
+from dataclasses import asdict, replace
 from functools import partial
 from http import HTTPStatus
 
@@ -297,7 +297,7 @@ class OpenADRClient:
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
         elif isinstance(measurement, objects.Measurement):
-            item_base = measurement
+            item_base = replace(measurement)
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
             power_attributes = measurement.get('power_attributes')
@@ -309,19 +309,17 @@ class OpenADRClient:
                                             scale=measurement.get('scale'),
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
-            item_base = enums.MEASUREMENTS[measurement.upper()]
+            item_base = replace(enums.MEASUREMENTS[measurement.upper()])
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
                                             unit=unit,
                                             scale=scale)
 
-        if report_name != 'TELEMETRY_STATUS' and scale is not None:
-            if item_base.scale is not None:
-                if scale in enums.SI_SCALE_CODE.values:
-                    item_base.scale = scale
-            else:
-                raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
+        # Measurements with a pulse factor don't have a scale
+        if item_base is not None and not item_base.pulse_factor:
+            if scale != 'none' or item_base.scale is None:
+                item_base.scale = scale
 
         # Check if unit is compatible
         if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
-- 
2.43.0


From f827c97dafe3ee71b969713ff90d04dbd74b4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 60/75] fix: offer an acceptable unit as it was declared

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d4446f0..dbc7158 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -322,7 +322,9 @@ class OpenADRClient:
                 item_base.scale = scale
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
+        if unit is not None and unit != item_base.unit and unit in item_base.acceptable_units:
+            item_base.unit = unit
+        elif unit is not None and unit != item_base.unit:
             logger.warning(f"The supplied unit {unit} for measurement {measurement} "
                            f"will be ignored, {item_base.unit} will be used instead. "
                            f"Allowed units for this measurement are: "
-- 
2.43.0


From 5505544b7a342c3cb3082b734cbcb929bde7eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 61/75] fix: offer the declared power attributes

---
 openleadr/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index dbc7158..14638bc 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -310,6 +310,10 @@ class OpenADRClient:
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = replace(enums.MEASUREMENTS[measurement.upper()])
+            if item_base.power_attributes is not None:
+                item_base.power_attributes = objects.PowerAttributes(hertz=power_hertz,
+                                                                     voltage=power_voltage,
+                                                                     ac=power_ac)
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
-- 
2.43.0


From 7155436f5daca335da06aee06565902673898594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 62/75] fix: return the id of the report that a data point was
 added to

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 14638bc..2f238ca 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -365,7 +365,7 @@ class OpenADRClient:
                                                        market_context=market_context)
         self.report_callbacks[(report.report_specifier_id, r_id)] = callback
         report.report_descriptions.append(report_description)
-        return report_specifier_id, r_id
+        return report.report_specifier_id, r_id
 
     def add_hook(self, hook_name, handler):
         """
-- 
2.43.0


From 5833c6e19fbedf9066cc6b52760681f07bb42fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 63/75] fix: refuse report declarations that conflict with an
 earlier one

---
 openleadr/client.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 2f238ca..ba7291a 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -336,11 +336,16 @@ class OpenADRClient:
 
         # Get or create the relevant Report
         if report_specifier_id:
+            report = utils.find_by(self.reports, 'report_specifier_id', report_specifier_id)
+            if report and (report.report_name != report_name or report.data_collection_mode != data_collection_mode):
+                raise ValueError(f"The report {report_specifier_id} was already added with another report_name "
+                                 "or data_collection_mode.")
+        else:
             report = utils.find_by(self.reports,
                                    'report_name', report_name,
-                                   'report_specifier_id', report_specifier_id)
-        else:
-            report = utils.find_by(self.reports, 'report_name', report_name)
+                                   'data_collection_mode', data_collection_mode)
+        if report and utils.find_by(report.report_descriptions, 'r_id', r_id):
+            raise ValueError(f"The report {report.report_specifier_id} already has a data point with r_id {r_id}.")
 
         if not report:
             report_specifier_id = report_specifier_id or utils.generate_id()
-- 
2.43.0


From 9fc4e8da089981468c84a8dc0617411f7c130b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 64/75] fix: refuse invalid measurement objects when they are
 added

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ba7291a..a1b4629 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -297,7 +297,9 @@ class OpenADRClient:
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
         elif isinstance(measurement, objects.Measurement):
-            item_base = replace(measurement)
+            checked_measurement = asdict(measurement)
+            utils.validate_report_measurement_dict(checked_measurement)
+            item_base = replace(measurement, description=checked_measurement['description'])
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
             power_attributes = measurement.get('power_attributes')
-- 
2.43.0


From 413612a7155c5fa5a87fb068bf5bc728484a1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 65/75] fix: offer the pulse factor of a measurement dict

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a1b4629..db6340c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -309,7 +309,8 @@ class OpenADRClient:
                                             description=measurement['description'],
                                             unit=measurement['unit'],
                                             scale=measurement.get('scale'),
-                                            power_attributes=power_attributes)
+                                            power_attributes=power_attributes,
+                                            pulse_factor=measurement.get('pulse_factor'))
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = replace(enums.MEASUREMENTS[measurement.upper()])
             if item_base.power_attributes is not None:
-- 
2.43.0


From 809c7f029a16ca6acace1062b277ed5f7e9cb391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 66/75] fix: create and cancel opts only when the VTN
 acknowledged it

---
 openleadr/client.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index db6340c..828faac 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -643,7 +643,6 @@ class OpenADRClient:
             raise ValueError(f"{opt_reason} is not a valid opt reason. Valid options are "
                              f"{', '.join(enums.REPORT_NAME.values)}")
 
-        # Save opt
         opt_id = opt_id or utils.generate_id()
         opt = objects.Opt(
             opt_id=opt_id,
@@ -656,7 +655,6 @@ class OpenADRClient:
             market_context=market_context,
             signal_target_mrid=signal_target_mrid
         )
-        self.opts.append(opt)
 
         # Send opt
         request_id = request_id or utils.generate_id()
@@ -671,8 +669,10 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if response_type == 'oadrCreatedOpt' and response_payload['response']['response_code'] == 200 \
+                and response_payload['opt_id'] == opt_id:
             # VTN acknowledged the opt message
+            self.opts.append(opt)
             logging.info(f"VTN acknowledged the opt message with opt_id {response_payload['opt_id']}")
             return response_payload['opt_id']
         else:
@@ -706,10 +706,12 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if response_type == 'oadrCanceledOpt' and response_payload['response']['response_code'] == 200 \
+                and response_payload['opt_id'] == opt_id:
             # VTN acknowledged the opt cancelation
             logging.info(f"VTN acknowledged the opt cancelation with opt_id {response_payload['opt_id']}")
-            self.opts.remove(opt)
+            if opt in self.opts:
+                self.opts.remove(opt)
             return True
         else:
             logging.error(f"VTN did not acknowledge the opt cancelation")
-- 
2.43.0


From 23f406ff94ab306d58c3fd00f380baf609441c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 67/75] fix: send a request id when cancelling an opt

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 828faac..6b52754 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -697,6 +697,7 @@ class OpenADRClient:
             return False
 
         payload = {
+            'request_id': utils.generate_id(),
             'opt_id': opt_id,
             'ven_id': self.ven_id
         }
-- 
2.43.0


From ceffc715ee70f2f60bd0d6639fb79da130123057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:46 +0000
Subject: [PATCH 68/75] fix: confirm the cancellation of an event that would
 have been over

---
 openleadr/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 6b52754..4bfa711 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1266,7 +1266,10 @@ class OpenADRClient:
 
         event_responses = []
         for i, event in enumerate(events):
-            if event['response_required'] == 'always' and not utils.determine_event_status(event['active_period']) == 'completed':
+            # A cancellation is confirmed also after the event would have been over, the VTN waits for it
+            is_over = utils.determine_event_status(event['active_period']) == 'completed' \
+                and event['event_descriptor']['event_status'] != 'cancelled'
+            if event['response_required'] == 'always' and not is_over:
                 if isinstance(event['event_signals'], list):
                     signals = event['event_signals']
                 else:
-- 
2.43.0


From 5b305de5710c8add8449353a0ab4d5feb07da1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 69/75] fix: a failing event callback no longer drops the other
 responses in the message

---
 openleadr/service/event_service.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 0529286..6337d54 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -90,6 +90,8 @@ class EventService(VTNService):
         The VEN informs us that they created an EiEvent.
         """
         ven_id = payload['ven_id']
+        # Holds the errors of your callbacks, which we report once all responses were processed
+        callback_errors = []
         if self.polling_method == 'internal':
             invalid_responses = False
             for event_response in payload.get('event_responses') or []:
@@ -121,9 +123,16 @@ class EventService(VTNService):
                         else:
                             callback.set_result(opt_type)
                     else:
-                        result = callback(ven_id=ven_id, event_id=event_id, opt_type=opt_type)
-                        if asyncio.iscoroutine(result):
-                            result = await result
+                        try:
+                            result = callback(ven_id=ven_id, event_id=event_id, opt_type=opt_type)
+                            if asyncio.iscoroutine(result):
+                                result = await result
+                        except Exception as err:
+                            logger.error(f"Your callback for event '{event_id}' failed with "
+                                         f"{err.__class__.__name__}: {err}")
+                            callback_errors.append(err)
+            if callback_errors:
+                raise callback_errors[0]
             if invalid_responses:
                 raise errors.InvalidIdError
         else:
-- 
2.43.0


From 57cdcce67cffb5f54405b15e12ac7243de9284c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 70/75] fix: an on_created_event handler that fails for one
 event still receives the other responses

---
 openleadr/service/event_service.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 6337d54..e1fea08 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -139,9 +139,16 @@ class EventService(VTNService):
             for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 opt_type = event_response['opt_type']
-                result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
-                                                                             event_id=event_id,
-                                                                             opt_type=opt_type))
+                try:
+                    result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
+                                                                                 event_id=event_id,
+                                                                                 opt_type=opt_type))
+                except Exception as err:
+                    logger.error(f"Your on_created_event handler failed for event '{event_id}' with "
+                                 f"{err.__class__.__name__}: {err}")
+                    callback_errors.append(err)
+            if callback_errors:
+                raise callback_errors[0]
         return 'oadrResponse', {}
 
     def on_created_event(self, ven_id, event_id, opt_type):
-- 
2.43.0


From bb2882cc49bec3916f052cd1b9acf6d66ebcc2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:05 +0000
Subject: [PATCH 71/75] fix: a client with a certificate but without a ca_file
 crashed at its first request

---
 openleadr/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 4bfa711..7b1a69c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1391,7 +1391,11 @@ class OpenADRClient:
             client_timeout = aiohttp.ClientTimeout(sock_connect=5, sock_read=10)
             if self.cert_path:
                 ssl_context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
-                ssl_context.load_verify_locations(self.ca_file)
+                if self.ca_file:
+                    ssl_context.load_verify_locations(self.ca_file)
+                else:
+                    # Trust the CAs that the system trusts
+                    ssl_context.load_default_certs()
                 ssl_context.load_cert_chain(self.cert_path, self.key_path, self.passphrase)
                 ssl_context.check_hostname = self.check_hostname
                 connector = aiohttp.TCPConnector(ssl=ssl_context)
-- 
2.43.0


From 2bf6fe802409decd5e0c373fe12f9ae3e1bee05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:05 +0000
Subject: [PATCH 72/75] fix: the client ignored its ca_file when it had no
 certificate of its own

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 7b1a69c..851030f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1389,14 +1389,15 @@ class OpenADRClient:
         if not self.client_session:
             headers = {'content-type': 'application/xml'}
             client_timeout = aiohttp.ClientTimeout(sock_connect=5, sock_read=10)
-            if self.cert_path:
+            if self.cert_path or self.ca_file:
                 ssl_context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
                 if self.ca_file:
                     ssl_context.load_verify_locations(self.ca_file)
                 else:
                     # Trust the CAs that the system trusts
                     ssl_context.load_default_certs()
-                ssl_context.load_cert_chain(self.cert_path, self.key_path, self.passphrase)
+                if self.cert_path:
+                    ssl_context.load_cert_chain(self.cert_path, self.key_path, self.passphrase)
                 ssl_context.check_hostname = self.check_hostname
                 connector = aiohttp.TCPConnector(ssl=ssl_context)
                 self.client_session = aiohttp.ClientSession(
-- 
2.43.0


From d6163661faa6bdb29b046e5e377cf36d4eddab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 73/75] fix: the fingerprint of a certificate file that
 contains a chain crashed for one in three chains

---
 openleadr/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index ece3126..546bec3 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -429,8 +429,10 @@ def certificate_fingerprint_from_der(der_bytes):
 def certificate_fingerprint(certificate_str):
     """
     Calculate the fingerprint for the given certificate, as defined by OpenADR.
+    If it is a certificate chain, the first certificate counts.
     """
-    der_bytes = ssl.PEM_cert_to_DER_cert(ensure_str(certificate_str))
+    certificate, footer, _ = ensure_str(certificate_str).partition(ssl.PEM_FOOTER)
+    der_bytes = ssl.PEM_cert_to_DER_cert(certificate + footer)
     return certificate_fingerprint_from_der(der_bytes)
 
 
-- 
2.43.0


From 2b1e63340d945d80f8a32d05d84b4c08388040e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 74/75] fix: a report request that the VTN sends again was
 sampled twice and survived its cancellation

Every repetition of a report request (for instance at a re-registration) added another
sampling job and another entry under the same report_request_id. Cancelling the report
only stopped the first of them. A repeated request now replaces the earlier one.
---
 openleadr/client.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 851030f..96a1f54 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -832,6 +832,9 @@ class OpenADRClient:
                                      f"report_request_id {report_request_id}.")
                         continue
 
+                    # The VTN may send a request again, it then replaces the earlier one
+                    await self._end_report_request(report_request_id)
+
                     if not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
@@ -881,6 +884,19 @@ class OpenADRClient:
                                         **message_payload)
         await self._perform_request(service, message)
 
+    async def _end_report_request(self, report_request_id):
+        """
+        Stop sampling for this report request, and send the values that were already collected.
+        """
+        report_request = utils.pop_by(self.report_requests, 'report_request_id', report_request_id)
+        if report_request and report_request['job']:
+            try:
+                report_request['job'].remove()
+            except JobLookupError:
+                logger.debug("The report was already sent.")
+        if report_request_id in self.incomplete_reports:
+            await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+
     # async def create_single_report(self, report_request):
     #     """
     #     Create a single report in response to a request from the VTN.
-- 
2.43.0


From 0d78a7fdc576fd938f8d782a84c6f301e25b2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:10 +0000
Subject: [PATCH 75/75] fix: stopping a client that had not sent anything yet
 raised an AttributeError

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 96a1f54..de36b26 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -183,7 +183,8 @@ class OpenADRClient:
             self.scheduler.shutdown()
         if self.report_queue_task:
             self.report_queue_task.cancel()
-        await self.client_session.close()
+        if self.client_session:
+            await self.client_session.close()
         await asyncio.sleep(0)
 
     def add_handler(self, handler, callback):
-- 
2.43.0

