#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "No event change is lost to a concurrent poll",
     "Whenever the VTN application adds or cancels an event for a VEN, the VEN's next poll that starts after that change and "
     "after any earlier poll has been answered receives the event in its newest state (unless the answer to a poll in progress "
     "already carried it), whatever the timing of the change "
     "relative to polls in progress (for instance while delivery callbacks or VEN lookups are being awaited). "
     "A change for one VEN never triggers or suppresses a delivery for another VEN.",
     ["schedules"], "All orders in which 1-2 VENs' polls, add/cancel calls and completions of asynchronous user callbacks can interleave (up to 3 polls and 3 changes).",
     "The tests poll sequentially with callbacks that finish at once; a lost update needs a change inside the window of a suspended poll, one schedule of many.",
     ["openleadr/service/poll_service.py", "openleadr/service/event_service.py", "openleadr/server.py"],
     [("poll answers with the events when something was updated", "openleadr/service/poll_service.py: PollService.poll"),
      ("update flag raised on add/cancel", "openleadr/server.py: add_raw_event, cancel_event")],
     [("events_updated", "per-VEN flag: something changed since the last poll", "PollService.events_updated"),
      ("events", "per-VEN list of live events", "EventService.events")],
     ["HTTP answers to oadrPoll"])

prop("C02", "The VTN serves each VEN exactly its live events, with true status",
     "Every distribution to a VEN lists exactly the events added for that VEN and not yet finished, with the content they were added with, the status that the clock and the "
     "event's active and ramp-up period imply (or cancelled once cancelled) and a modification number that grows by one with each cancellation. "
     "A cancelled event stays listed until its VEN confirms the cancellation; a completed event is listed as completed exactly once and then never again. "
     "A VEN without events, or without changes since its last poll, gets an empty response to its poll.",
     ["histories"], "All histories up to depth 5 (quick) / 6-7 (thorough) of add, cancel, clock advance, poll, request and confirm over two VENs and two event shapes.",
     "The tests cover a handful of two- or three-step histories; the guarantee is about every order of lifecycle steps.",
     ["openleadr/service/event_service.py", "openleadr/service/poll_service.py", "openleadr/server.py", "openleadr/utils.py", "openleadr/objects.py"],
     [("events served and completed ones dropped", "EventService.request_event"),
      ("status computed from the clock", "utils.determine_event_status, utils.order_events"),
      ("confirmed cancellations dropped", "EventService.created_event"),
      ("cancel marks and bumps the modification number", "OpenADRServer.cancel_event")],
     [("events", "per-VEN list of live events", "EventService.events"),
      ("completed_event_ids", "events already communicated as completed", "EventService.completed_event_ids")],
     ["oadrDistributeEvent / oadrResponse bodies"])

prop("C03", "Events are distributed in the OpenADR order",
     "In every distribution the active events come before all others; active events are ordered by priority (1 is the highest, unset or 0 the lowest) and then by start time; "
     "the other events are ordered by start time. No event is dropped or duplicated by the ordering, and the application's own order of insertion never matters.",
     ["inputs"], "All ordered selections of up to 4 (quick) / 5 (thorough) events over start x priority x cancelled, in dict and object form, before and after the clock moves.",
     "Tests check one or two fixed lists; the order must hold for every combination of start, priority and status.",
     ["openleadr/utils.py", "openleadr/service/event_service.py"],
     [("ordering", "utils.order_events"), ("served order", "EventService.request_event")],
     [], ["order of oadrEvent elements in the distribution"])

prop("C04", "Each event response reaches the right callback exactly once",
     "When a VEN answers an event, the callback or future registered with that event receives exactly once that VEN's id, the event's id and the opt choice from the first valid answer. "
     "An answer to an event or modification number the VTN never issued to that VEN is refused with error 452 and triggers nothing; an answer to an already completed event is accepted. "
     "No answer ever affects another event's or another VEN's callback or events.",
     ["histories", "inputs"], "All sequences up to depth 3/4 of response messages over 2 VENs x known/unknown/completed/cancelled event x modification number x opt, multi-response messages, function, coroutine and future callbacks.",
     "The tests send single well-formed answers; routing must hold for every order, repetition and mixture.",
     ["openleadr/service/event_service.py", "openleadr/server.py"],
     [("response routing", "EventService.created_event")],
     [("event_callbacks", "event id -> (event, callback)", "EventService.event_callbacks")],
     ["calls to the registered callbacks", "oadrResponse code"])

prop("C05", "The VEN answers every event exactly as its handlers decided",
     "For every distribution received, a VEN calls its event handler once for each event it does not know, its update handler once for each known event with a changed modification number and no handler for an unchanged one, "
     "and sends one response that lists, for each not-completed event that requires a response, its id, modification number and the handler's choice (repeating the earlier choice for an unchanged event). "
     "A handler that fails or returns something other than an opt choice opts out of that event only, and an unsupported signal is reported as such with that event only. "
     "A response that the application sends itself says just what the application gave. Once an event is completed or cancelled the VEN forgets it.",
     ["histories", "inputs"], "All histories up to depth 4/5 of distributions (new, unchanged, modified, cancelled, completed; one or two events per message; response required or never) x handler behaviour (optIn, optOut, invalid, raising; sync/async) interleaved with clean-up and clock advance.",
     "Tests feed one or two messages with well-behaved handlers; the dedup and opt memory are history dependent.",
     ["openleadr/client.py", "openleadr/utils.py"],
     [("event handling", "OpenADRClient._on_event"), ("clean up", "OpenADRClient._event_cleanup"), ("status log", "OpenADRClient._event_status_log")],
     [("received_events", "events known to the VEN", "OpenADRClient"), ("responded_events", "event id -> earlier choice", "OpenADRClient")],
     ["handler calls", "oadrCreatedEvent bodies"])

prop("C06", "Messages survive the trip over the wire unchanged",
     "Every message the library composes from valid content is accepted by the OpenADR 2.0b schema, and parsing it yields the same content: identifiers, names and texts character for character (white space at either end apart) "
     "(including XML special characters and values that look like numbers, dates or booleans), numbers, times, durations, targets, signals, measurements and report values, with lists of every length. "
     "Content can never change the structure of a message.",
     ["inputs"], "For each of the 23 message types, every choice of optional parts and list lengths in the grammar, and every text position x an alphabet of awkward strings; exhaustively for single deviations, and pairwise for pairs of positions in the thorough tier.",
     "Tests round-trip one example per message with tame identifiers.",
     ["openleadr/messaging.py", "openleadr/utils.py", "openleadr/templates", "openleadr/preflight.py"],
     [("compose", "messaging.create_message and templates"), ("parse", "messaging.parse_message, utils.normalize_dict")],
     [], ["XML text", "parsed payload"])

prop("C07", "Times, durations and booleans convert without loss",
     "Every time, duration or boolean the library writes denotes the same instant, length or truth value when it reads it back, and reading any permitted notation of an instant or duration yields the value that notation denotes. "
     "Times are always written in UTC whatever their time zone.",
     ["inputs"], "All durations over a lattice of days/hours/minutes/seconds including zero and negative ones, all RFC 5545/ISO 8601 duration notations over small component sets, and all instants over a lattice of fields, fraction digits and UTC offsets.",
     "Tests check a few literals; errors hide in component combinations (e.g. minutes without hours, weeks, fractions).",
     ["openleadr/utils.py"],
     [("durations", "utils.timedeltaformat / utils.parse_duration"), ("times", "utils.datetimeformat / utils.parse_datetime"), ("booleans", "utils.booleanformat / utils.parse_boolean")],
     [], ["round trip value"])

prop("C08", "Only intact messages signed by the expected party are accepted",
     "With signing in force, a receiver acts on a message only if it carries a signature, made by the key whose certificate fingerprint is registered for the sender, over exactly the content received. "
     "Removing, swapping, re-signing or altering any part of the signed content, the signature, the certificate or the replay protection makes the VTN refuse the message without invoking any handler and makes the VEN ignore it.",
     ["inputs", "fault_sequences"], "Every single alteration at every element, attribute and text of a signed message (change, delete, duplicate), every structural attack in a catalogue (wrapping, second payload, signature from another message or key) x VTN and VEN x message types.",
     "Tests check a correct signature and one or two bad ones; tamper resistance is a statement over every site in the message.",
     ["openleadr/messaging.py", "openleadr/service/vtn_service.py", "openleadr/client.py"],
     [("signature verification", "messaging.validate_xml_signature, messaging.authenticate_message"), ("VEN side check", "OpenADRClient._perform_request")],
     [], ["HTTP status / OpenADR error code", "handler calls", "VEN return value"])

prop("C09", "A signed message is accepted at most once, and only while fresh",
     "A signed message whose timestamp is older than the permitted age is refused, and within that age a message already accepted is refused when it arrives again, no matter how many other messages arrive or how time advances in between. "
     "A fresh message with a new nonce is always accepted.",
     ["histories"], "All histories up to depth 5/6 of delivering one of several signed messages and advancing the clock by steps around the permitted age.",
     "Tests replay one message once; the cache is pruned over time and its interplay with age is history dependent.",
     ["openleadr/messaging.py"],
     [("replay check", "messaging._verify_replay_protect"), ("cache pruning", "messaging._update_nonce_cache")],
     [("NONCE_CACHE", "timestamp/nonce pairs already accepted", "openleadr.messaging")],
     ["acceptance of the message"])

prop("C10", "The VTN serves only VENs it knows and that prove who they are",
     "Over TLS, a request that names a VEN reaches the application's handlers only if the connection's client certificate matches the fingerprint registered for that VEN and, unless signature checking is disabled, the message is validly signed with the same certificate; otherwise it gets error 463 (or HTTP 403 where only the signature's value is wrong). "
     "When the VTN can look VENs up, a request from a VEN without a registration is answered with a request to re-register and reaches no handler, a request other than a registration or query that names no VEN is refused, and a request that carries another VTN's id is refused with error 452.",
     ["configurations", "inputs"], "The full product of TLS x client certificate x signature x VEN known/registered/fingerprint x lookup style x verification flag x VTN id x message type.",
     "Tests sample a few corners of this product.",
     ["openleadr/service/vtn_service.py", "openleadr/messaging.py"],
     [("admission", "VTNService.handler"), ("authentication", "messaging.authenticate_message")],
     [], ["response message and code", "handler calls"])

prop("C11", "Every request to the VTN gets a well-formed, matching answer",
     "Whatever is posted to a VTN endpoint, the VTN answers: a valid message for that endpoint gets a schema-valid response of the prescribed type that echoes the request id and names the VEN; a message that belongs elsewhere gets a compliance error 459; invalid XML or a wrong content type gets HTTP 400. "
     "An error raised by the application's handler is reported as the corresponding OpenADR error (or as HTTP 500 for any other failure), and never affects how later requests are answered.",
     ["inputs", "fault_sequences"], "Every message type x every endpoint x handler outcome (normal, each OpenADR error, other exception; sync/async), malformed bodies and content types, and all pairs of such requests in sequence.",
     "Tests post a few messages to their own endpoint; error responses are checked for one or two types.",
     ["openleadr/service/vtn_service.py", "openleadr/errors.py"],
     [("request handling and error mapping", "VTNService.handler, handle_message, error_response")],
     [], ["HTTP status and body"])

prop("C12", "Registration state on VEN and VTN follows the protocol",
     "After every completed registration exchange (one that the VTN answered without an error) the VEN considers itself registered exactly when the VTN's last answer granted a registration, under the VEN id, registration id and poll frequency the VTN gave, and the VTN's answer carries exactly what the application's handler decided. "
     "A VEN that is refused or whose registration fails does not start polling, a requested re-registration is carried out and the VEN goes on working, and after a cancelled registration it neither polls nor reports until it registers again, and then sends no values collected before. A VEN that is stopped closes its connections, sends nothing and calls nothing any more.",
     ["histories", "fault_sequences"], "All sequences up to depth 3/4 of register, re-register, cancel by VEN, cancel by VTN, with each possible answer (granted, granted with other ids, refused, no ids, error code, unreachable).",
     "Tests run one successful registration and one or two failures, never chains.",
     ["openleadr/client.py", "openleadr/service/registration_service.py"],
     [("VEN registration", "OpenADRClient.create_party_registration, run, create_party_reregistration, cancel_party_registration"),
      ("VTN registration", "RegistrationService")],
     [("registration_id", "the VEN's registration", "OpenADRClient")],
     ["VEN attributes", "messages sent", "scheduled jobs"])

prop("C13", "No fault of the network or the VTN stops the VEN",
     "Whatever happens to any single exchange or run of exchanges (connection error, time-out, HTTP error, empty, truncated, non-XML, schema-invalid, error-coded or unexpected answers), no exception escapes the VEN's periodic work and it does not change what the VEN knows; "
     "after connectivity returns, polling, event responses and reporting work as if the fault had not happened. Faulty user hooks never disturb an exchange.",
     ["fault_sequences"], "Every assignment of a fault (12 kinds) to each exchange of scripted sessions, all single and double faults, plus hook failures at every hook point.",
     "Tests inject two or three faults at one place.",
     ["openleadr/client.py"],
     [("request primitive", "OpenADRClient._perform_request"), ("poll loop", "OpenADRClient._poll"), ("hooks", "OpenADRClient._execute_hooks")],
     [], ["exceptions from periodic jobs", "later exchanges"])

prop("C14", "The reports set up are exactly the reports that were chosen",
     "When a VEN offers reports, the VTN requests exactly the data points its application chose, with the sampling and reporting interval it chose for them (the smallest one when choices within a report differ), and remembers the chosen callback for each, and what the VEN offered; choices that are invalid are skipped without affecting others. "
     "The VEN sets up each requested report with exactly the data points requested for that report that it really offers at an offered sampling rate, and confirms the requests.",
     ["inputs"], "All offers of up to 2/3 reports with up to 2 data points x every choice per data point (none, invalid kinds, with and without reporting interval, different intervals), compact and full handlers, sync and async; and all request messages over valid and invalid ids and rates.",
     "Tests request everything offered; subsets and mixtures are not covered.",
     ["openleadr/service/report_service.py", "openleadr/client.py", "openleadr/utils.py"],
     [("VTN side selection", "ReportService.register_report"), ("VEN side set-up", "OpenADRClient.create_report"), ("validation", "utils.validate_report_request_tuples")],
     [("report_requests", "reports the VEN is to produce", "OpenADRClient"), ("report_callbacks", "callback per data point", "ReportService / OpenADRClient")],
     ["oadrRegisteredReport", "oadrCreatedReport", "samples taken"])

prop("C15", "Every sample the VEN collects is reported exactly once, in the right report",
     "A reporting VEN delivers each sampled value exactly once, under the data point, time and report request it was sampled for, in the order sampled. "
     "With a reporting interval longer than the sampling interval the values are bundled so that each message holds one reporting interval's worth of samples of all its data points; otherwise each round of samples is sent at once. Reports never mix with each other.",
     ["histories", "schedules"], "All interleavings of sampling rounds of two reports (1-2 data points, bundle sizes 1-3, single values and lists, sync and async callbacks, incremental and full mode), callbacks completing in any order.",
     "Tests cover one report with one shape each; mixing and bundle boundaries are not covered.",
     ["openleadr/client.py"],
     [("sampling and bundling", "OpenADRClient.update_report"), ("sending", "OpenADRClient._report_queue_worker")],
     [("incomplete_reports", "bundles being built", "OpenADRClient"), ("pending_reports", "reports queued for sending", "OpenADRClient")],
     ["oadrUpdateReport bodies"])

prop("C16", "Report data reaches exactly the callbacks that asked for it",
     "For every report received the VTN calls, for each data point contained, the callback registered for that report request and data point, exactly once, with all its (time, value) pairs in order, and calls no other callback; data nobody asked for is ignored. "
     "The report is acknowledged in every case.",
     ["inputs", "histories"], "All report messages over 1-2 reports x up to 3 intervals x registered/unregistered request ids and data points, before and after registration by one or two VENs, sync and async callbacks.",
     "Tests deliver one report with one data point per callback.",
     ["openleadr/service/report_service.py", "openleadr/utils.py"],
     [("dispatch", "ReportService.update_report"), ("grouping", "utils.group_by")],
     [("report_callbacks", "(report request id, data point id) -> callback", "ReportService")],
     ["callback calls", "oadrUpdatedReport"])

prop("C17", "Reporting keeps going through failures and stops on cancellation",
     "Reports are sent one at a time in the order they became ready, and a report that cannot be sent never prevents later ones from being sent. "
     "When the VTN cancels a report, either by poll or in its answer to a report, the VEN sends what remains of that report and confirms the cancellation (the rest may follow the confirmation if the VTN announced that), and from then on neither samples nor sends it, while all other reports continue; cancelling an unknown report changes nothing. A report request that the VTN sends again under the same id replaces the earlier one, so that it is sampled once and cancelled as one.",
     ["fault_sequences", "histories"], "All sequences up to depth 4/5 of sampling, sending with each possible answer or fault, and cancellation by poll or by answer over two reports.",
     "No test cancels through an answer, and faults during sending are not covered.",
     ["openleadr/client.py"],
     [("queue worker", "OpenADRClient._report_queue_worker"), ("cancellation", "OpenADRClient.cancel_report")],
     [("pending_reports", "reports queued for sending", "OpenADRClient")],
     ["messages sent", "callbacks sampled", "scheduled jobs"])

prop("C18", "Samples are taken at the agreed interval",
     "A periodic report is sampled at moments exactly the agreed sampling interval apart for every interval that divides a minute, an hour or a day, starting within one interval, regardless of when it was requested; a one-off report is sampled once, at its requested time if one was given. "
     "No supported interval is refused or silently stops sampling.",
     ["inputs", "histories"], "Every whole-second interval from 1 s to 60 s, every whole-minute interval to 1 h, every whole-hour interval to 24 h, from several start times across minute, hour and day boundaries; fire times computed with the real scheduler trigger in virtual time.",
     "Tests compare the cron dictionary for three intervals; none looks at the firing times.",
     ["openleadr/utils.py", "openleadr/client.py"],
     [("trigger", "utils.cron_config"), ("job creation", "OpenADRClient.create_report")],
     [], ["scheduler jobs and their fire times"])

prop("C19", "Servers and clients in one process do not influence each other",
     "When several VTN servers and VEN clients live in one process, each behaves exactly as it would alone: its ids, certificates, VEN lookup, signature policy, events, reports, handlers and measurement definitions are its own. "
     "The order in which they are created or used makes no difference.",
     ["configurations", "histories"], "All creation orders and pairs of differing configurations (cert, lookup, fingerprint lookup, verification, vtn id), and all interleavings of a probe workload on two servers / two clients, compared with the solo run.",
     "Every test runs one server at a time; sharing through class or module state is invisible to them.",
     ["openleadr/server.py", "openleadr/service/vtn_service.py", "openleadr/client.py", "openleadr/enums.py"],
     [("per-server configuration", "OpenADRServer.__init__"), ("measurement definitions", "enums.MEASUREMENTS, OpenADRClient.add_report")],
     [("class level settings", "lookup, signature and message settings", "VTNService")],
     ["responses of each instance"])

prop("C20", "Outgoing events and reports are made conformant before they are sent",
     "An event message goes out only if its signals have equal total durations and SIMPLE signals only take levels 0-3; its active period then equals that total, a not-yet-active SIMPLE signal has current value 0 (and an active one keeps its value), a missing or invalid response requirement becomes 'always', a missing creation time is filled in and targets given in either form appear in both consistently. "
     "Content that cannot be corrected is refused with an error rather than sent, and correcting a message never alters other content.",
     ["inputs"], "The product of signal counts, interval durations, signal names, levels, statuses, current values, response requirements, creation times, target forms, as dicts and as objects.",
     "Conformance tests check one example per rule.",
     ["openleadr/preflight.py", "openleadr/objects.py"],
     [("preflight", "preflight.preflight_message"), ("event construction", "objects.Event, objects.EventSignal")],
     [], ["composed oadrDistributeEvent", "exceptions"])

prop("C21", "A report definition is offered exactly as it was declared",
     "Every accepted report declaration is offered to the VTN with exactly the declared report, data point, resource, measurement, unit, scale, sampling range and reading and report type, and the ids returned identify it; declarations with the same report id become data points of one report. "
     "An invalid declaration is refused with an error and changes nothing, and no declaration alters another.",
     ["inputs", "histories"], "Every measurement x scale x unit x report name x sampling-rate form x id form, valid and invalid, and all ordered pairs of declarations.",
     "Tests declare a few measurements once; interactions between declarations are not covered.",
     ["openleadr/client.py", "openleadr/enums.py", "openleadr/utils.py"],
     [("declaration", "OpenADRClient.add_report"), ("measurement table", "enums.MEASUREMENTS")],
     [("reports", "offered reports", "OpenADRClient")],
     ["oadrRegisterReport body", "return value"])

prop("C22", "Opt schedules are created and cancelled only on the VTN's acknowledgement",
     "Creating an opt sends exactly the declared opt and returns its id exactly when the VTN acknowledges it, and otherwise reports failure; cancelling a known opt sends the cancellation and forgets the opt exactly when the VTN acknowledges it, while an unknown opt is refused without any message. "
     "Invalid opts are refused with an error before anything is sent.",
     ["histories", "fault_sequences"], "All histories up to depth 3/4 of create and cancel over two opts with each possible answer or fault, and all valid and invalid combinations of opt fields.",
     "Tests cover a few successful exchanges.",
     ["openleadr/client.py", "openleadr/objects.py"],
     [("opt exchange", "OpenADRClient.create_opt, cancel_opt"), ("opt validation", "objects.Opt")],
     [("opts", "opts known to the VEN", "OpenADRClient")],
     ["oadrCreateOpt / oadrCancelOpt bodies", "return values"])

prop("C23", "With its own poll handler the application decides what is delivered",
     "Once the application supplies its own poll handler, a VEN's poll or event request is answered with exactly what the application's poll or event-request handler returned for that VEN (nothing, one event, a list of events, or a complete message; as dict or object, sync or async), and event responses are handed to the application's response handler once per event. "
     "The built-in queue then plays no part.",
     ["inputs", "configurations"], "Every documented return shape x sync/async x poll/request x number of events x number of responses.",
     "Tests cover single events and reregistration only.",
     ["openleadr/service/poll_service.py", "openleadr/service/event_service.py", "openleadr/server.py"],
     [("external polling", "PollService.poll"), ("external requests", "EventService.request_event, created_event")],
     [], ["HTTP answers", "handler calls"])

prop("C24", "The VEN's event memory follows the clock",
     "At all times the VEN remembers exactly the events it received that are neither cancelled nor over, and its periodic status update shows each of them with the status (far, near, active, completed) that its active and ramp-up period imply at that moment. "
     "Clean-up never drops a running or upcoming event and never keeps a finished or cancelled one, however many there are and in whatever order.",
     ["histories"], "All histories up to depth 6/7 of receiving up to 3 events, clock advance across each boundary, status update and clean-up.",
     "Tests check one event passing through its phases.",
     ["openleadr/client.py", "openleadr/utils.py"],
     [("status update", "OpenADRClient._event_status_log"), ("clean-up", "OpenADRClient._event_cleanup"), ("status", "utils.determine_event_status")],
     [("received_events", "events known to the VEN", "OpenADRClient")],
     ["remembered events and their status"])

prop("C25", "An event added at the VTN arrives as specified",
     "Every event the application adds in a valid form is delivered with exactly the signals, intervals, payloads, targets (in whichever form they were given, defaulting to the VEN itself), market context, response requirement and notification, ramp-up and recovery periods it was given, an active period that spans its intervals, and times that denote the same instants. "
     "An invalid event is refused with an error and never delivered.",
     ["inputs"], "The product of target forms, interval counts and forms (dict/object, naive/aware times, gaps), period options, signal names and types, response requirement and callbacks.",
     "Tests use one or two shapes of event.",
     ["openleadr/server.py", "openleadr/objects.py", "openleadr/utils.py"],
     [("event construction", "OpenADRServer.add_event, add_raw_event"), ("active period", "utils.get_active_period_from_intervals")],
     [], ["delivered oadrDistributeEvent as seen by a VEN"])

prop("C26", "VTN and VEN agree on events end to end",
     "With a VTN and a VEN talking to each other, after every completed poll that follows the last change the VEN knows exactly the VTN's live events with the same status and modification number, its handlers have seen each version of each event exactly once (an event that the VEN has cleaned up because it is over or cancelled counts as new if it is listed once more), and the VTN's callbacks have received the VEN's choice exactly once per event. "
     "This also holds after the VEN restarts and synchronises.",
     ["histories"], "All histories up to depth 5/6 of add, cancel, clock advance, poll, VEN clean-up and VEN restart, with real messages passed between a real VTN and a real VEN in memory.",
     "Integration tests run one scripted story over sockets.",
     ["openleadr/client.py", "openleadr/server.py", "openleadr/service/event_service.py", "openleadr/service/poll_service.py"],
     [("distribution", "PollService.poll, EventService.request_event"), ("handling", "OpenADRClient._on_event"), ("responses", "EventService.created_event")],
     [], ["both parties' public state and handler calls"])

prop("C27", "Reports flow end to end from VEN callbacks to VTN callbacks",
     "With a VTN and a VEN talking to each other, every value that a VEN's report callback produces for a data point the VTN asked for arrives exactly once, unchanged and with its time, at the VTN callback chosen for that data point, and no other value arrives anywhere. "
     "Numeric-looking or otherwise unusual report and data point ids make no difference.",
     ["histories", "inputs"], "All combinations of two reports x data points x chosen subsets x sampling/reporting intervals x id styles, run for several virtual reporting intervals with the real scheduler triggers.",
     "Integration tests transfer one report with one selection over real time.",
     ["openleadr/client.py", "openleadr/service/report_service.py"],
     [("VEN reporting", "OpenADRClient.create_report, update_report, _report_queue_worker"), ("VTN reporting", "ReportService")],
     [], ["VTN callback calls"])

prop("C28", "Over TLS only parties that can prove who they are talk to each other",
     "A VTN that was given a certificate, its key and a CA file exchanges messages only with VENs that present a certificate which that CA issued and that is valid now, never over plain HTTP, and not at all if one of these settings cannot be used. "
     "A VEN sends its messages over https only to a VTN whose certificate its CA file (without one: the system) vouches for and, unless check_hostname is off, whose certificate is for the host in the URL. "
     "When both sides are satisfied, with plain or encrypted keys and with certificates or certificate chains, registration and polling work, and the fingerprint that the VTN's registration handler gets is the one that the VEN showed at its start: that of its own certificate; the fingerprint command prints the same.",
     ["inputs"], "Every combination of VTN certificate (12 kinds) x VEN certificate (10 kinds) x CA file of either side x host name x host name checking, with real TLS handshakes in memory; key encryption x chain x signing x port.",
     "The stable tests run one TLS set-up with one CA, in which everybody is trusted.",
     ["openleadr/server.py", "openleadr/client.py", "openleadr/utils.py", "openleadr/service/vtn_service.py"],
     [("VTN TLS settings", "OpenADRServer.__init__, run"), ("VEN TLS settings", "OpenADRClient._ensure_client_session"), ("fingerprints", "utils.certificate_fingerprint, get_cert_fingerprint_from_request")],
     [], ["what reaches the VTN's application and what the VEN sends"])

prop("C29", "Hooks see every message exactly as it passes and change nothing",
     "Every hook that was added to a VEN is called exactly once at its point of each exchange, in the order in which they were added, with exactly the XML that goes over the wire or came from it (before_send_xml before it is sent, after_receive_xml for any answer with a body, before_schema_validation for the body of an OK answer, before_parse_xml only once it proved valid and properly signed) or with what the parser made of it (after_parse_xml, before any handler gets it). The VEN waits for a hook, be it a function, a coroutine function or any other callable, before it goes on. "
     "The VTN's hooks (coroutine functions, openleadr.hooks) are called once per request, in order: before_parse with the body of every XML request, before_handle with what it means, after_handle with the kind of answer, before_respond with the text of every response. Neither what a hook returns nor its failure changes the messages, the other hooks or the handlers.",
     ["inputs", "faults"], "Every hook point x every kind of callable, pairs of them in either order, all points together, signed and not, over a whole session; all points x every fault at every exchange; the VTN's hooks x every message at every endpoint x malformed bodies x failing handlers and lookups.",
     "One stable test adds hooks and counts; order, content, failures and the answers that are not OK are not tested.",
     ["openleadr/client.py", "openleadr/hooks.py", "openleadr/service/vtn_service.py"],
     [("VEN hooks", "OpenADRClient.add_hook, _perform_request, _execute_hooks"), ("VTN hooks", "openleadr.hooks, VTNService.handler, handle_message")],
     [], ["the log of hook calls, messages sent and handler calls"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
