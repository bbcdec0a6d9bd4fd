#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run this file to regenerate it)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded-exhaustive model checking of the implementation: "
HIST = ENUM + "explicit-state search over all operation histories up to a depth, stepwise comparison with a reference model"
PROD = ENUM + "every case of a finite product of inputs and options, executed on the real code and compared with a reference model"
SCHED = "stateless model checking: every schedule of a controlled event loop (all orders of environment completions) on the real code"
FAULT = ENUM + "every placement of faults in a history, compared with a reference model"

# property: (technique, level, note)
CLAIMS = {
    "C01": (SCHED, "model_checking", "all interleavings of polls, changes and asynchronous callbacks within the stated bounds"),
    "C02": (HIST, "model_checking", "all histories to the stated depth; states merged on the full server state"),
    "C03": (PROD, "model_checking", "all event sets up to the stated size over priorities, statuses and start times"),
    "C04": (HIST, "model_checking", "all histories and all response messages to the stated size"),
    "C05": (HIST, "model_checking", "all histories of distributions, handler results and clock steps to the stated depth; states merged on the full client state"),
    "C06": (PROD, "model_checking", "every place of every message type over awkward alphabets, all pairs of places on hard values, all list lengths 0-3"),
    "C07": (PROD, "model_checking", "every value of dense and boundary grids of durations, times and booleans, both directions"),
    "C08": (FAULT, "fault_enumeration", "every single edit at every site of every signed message, a catalogue of structural attacks, against the VTN and the VEN"),
    "C09": (HIST, "model_checking", "all histories of deliveries, new messages and waiting to the stated depth; all orders of concurrent copies"),
    "C10": (PROD, "model_checking", "the full product of connections, signatures, records of the VEN, lookups and message types; all histories of changing records; all schedules of concurrent requests"),
    "C11": (PROD, "model_checking", "every message at every endpoint in every configuration, every single structural edit, every handler failure, all histories and schedules of requests"),
    "C12": (HIST, "model_checking", "every history of registrations, re-registrations and cancellations with every outcome, every pair of poll frequencies, every order of completion during a cancellation, every decision of the VTN's application"),
    "C13": (FAULT, "fault_enumeration", "every fault at every exchange of two sessions, outages of consecutive exchanges, every faulty hook at every hook point"),
    "C14": (PROD, "model_checking", "every combination of choices for up to three data points and of requests for offered and unknown data points"),
    "C15": (HIST, "model_checking", "all orders of sampling rounds of up to three reports and one-off reports, all interleavings of slow callbacks and messages, all ratios of intervals"),
    "C17": (FAULT, "fault_enumeration", "all histories of rounds, cancellations, faults and re-registration; all schedules of rounds, slow answers and cancellations"),
    "C18": (PROD, "model_checking", "every divisor of a day and others at critical request moments on the client's real scheduler in virtual time; one-off reports at all kinds of time"),
    "C16": (PROD, "model_checking", "every list of data points up to the stated length, all histories of registrations and reports, all schedules of two messages"),
    "C19": (SCHED, "model_checking", "every order with few switches of the steps of any two servers and clients, all ordered pairs of server configurations and of measurement declarations, compared with the party alone"),
    "C20": (PROD, "model_checking", "every combination of conformant and repairable deviations in events and reports"),
    "C21": (PROD, "model_checking", "every pair of declaration dimensions in full, all ordered pairs of declarations and triples over a smaller alphabet, with invalid ones in every place"),
    "C22": (HIST, "model_checking", "every pair of opt fields in full, all histories of creating and cancelling with every answer, every order of concurrent exchanges"),
    "C23": (HIST, "model_checking", "all sequences of handler results and polls to the stated depth"),
    "C24": (HIST, "model_checking", "all histories of events received, clock moves, status updates and clean-ups to the stated depth"),
    "C26": (HIST, "model_checking", "all histories of adding, cancelling, waiting, polling, cleaning up and restarting with a real VTN and real VENs, to the stated depth"),
    "C27": (PROD, "model_checking", "every combination of choices, intervals, names, values and handler styles with a real VTN and real VENs in virtual time; all histories of cancelling, re-registering and restarting; all orders of slow values, messages and callbacks"),
    "C28": (PROD, "model_checking", "every combination of certificates, CA files, host names and checks of a VTN and a VEN, each with a real TLS handshake in memory"),
    "C29": (FAULT, "fault_enumeration", "every hook point x every kind of callable and pairs of them, every fault at every exchange of a session, every message at every endpoint of the VTN"),
    "C25": (PROD, "model_checking", "every combination of event features through every way of adding an event"),
}
TRUST = ("; trusts the virtual clock, the scripted transport, the independent XML reader/writer in mc/wire.py and the pinned third-party "
         "libraries; values outside the stated alphabets are not covered")
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in CLAIMS:
            t, level, note = CLAIMS[pid]
            checks.append({"property": pid, "quick_cmd": f"./run {pid} quick", "thorough_cmd": f"./run {pid} thorough",
                           "evidence_file": f"evidence/{pid}.json", "technique": t, "level": level, "level_note": note + TRUST})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "no check has been built for it yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo: clock, ids, transport, scheduler and event loop are replaced from outside (mc/boot.py, mc/vloop.py, mc/ven.py)."}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    main()
