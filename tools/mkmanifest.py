#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys
CLAIMED = {
"C01": ("collector", "Seeded search over workloads, fault sequences and schedules of a running collector, judged against an executable reference collector while it runs and over the recorded history."),
"C02": ("collector", "As C01; conservation is checked over the whole history of every run, snapshots and expiries included."),
"C03": ("collector", "As C01, on a virtual clock: deadlines are checked to the nanosecond in serial runs and as intervals in concurrent ones."),
"C04": ("collector", "Histories are decided by a linearizability search (Wing-Gong-Lowe) against the reference collector; a second phase repeats the workloads under the Go race detector with the simulator controlling the schedule."),
"C05": ("collector", "As C04, with closing at drawn points, concurrently and repeatedly."),
"C06": ("collector", "As C01, with handlers that run long, block for ever or call back; liveness is checked as all calls returned and all due expiries delivered once the callers have stopped and the clock was advanced."),
"C07": ("collector", "As C04, for snapshots; snapshots are kept, changed by the caller, and compared again later, with and without the race detector."),
"C08": ("e2e", "End-to-end runs with bit flips, truncation, splices and hostile frames injected; non-interference is decided against the same run without the damaged traffic; plus collector runs with hostile parts."),
"C09": ("e2e", "End-to-end runs over a simulated network and service centre with loss, duplication, reordering, delay, re-sending and receiver restarts, against an independent codec of the wire format."),
"C10": ("encoder", "Concurrent encodings on shared encoders and counters under controlled schedules; the references issued are checked as multisets and against real-time order, and reads of counters against the counts made."),
"C11": ("encoder", "As C10; every result is compared with the same encoding made alone in a fresh process state, and all caller memory (spare capacity included) is compared after every call; a second phase uses the race detector."),
"C12": ("codec", "Mixed codec calls from cold package state under controlled schedules, each compared with the same call alone in a fresh process state; a second phase uses the race detector."),
"C13": ("e2e", "As C09, with parts lost for good; each surviving part is decoded on its own and compared with its slice as an independent segmenter determines it."),
"C14": ("buffers", "Receive buffers are overwritten at drawn points by another task, sets are decoded repeatedly and concurrently, and all inputs (spare capacity included) are compared after every call; a second phase uses the race detector."),
"C21": ("e2e", "Receivers without a collector gather parts from the faulty network; after every arrival what is held, and other lists made up of it, is put to the completeness test, whose verdict is decided by what the senders put into the headers; restarts lose what was gathered, and at the end, without faults, every message must be found complete."),
"C24": ("exchange", "Devices and service centres exchange all six TPDU types in PDU-mode frames over a simulated network that delays, reorders, duplicates, loses and damages; every octet and every received value is decided by an independent reading of 3GPP TS 23.040."),
}
ONLY = sys.argv[1:] or sorted(CLAIMED)
PURE = "Pure function of its arguments: no concurrency, time, I/O, randomness or multi-party behaviour for a simulated schedule or fault to vary, so deterministic simulation has nothing to decide here beyond feeding inputs, which would be a different technique."
NA = {
"C15": PURE + " (What the parties of a simulated exchange see of it is C24; its statement as it stands fails for acknowledging reports, see C24's known finding.)",
"C16": PURE + " (What a receiver sees of it - at most 140 octets, no cut characters, nothing lost - is part of C09 and C13.)",
"C17": PURE + " (That the signalled choice decodes to the text sent is part of C09.)",
"C18": PURE + " (Concurrent use of the codecs is C12; end-to-end inversion is part of C09.)",
"C19": PURE + " (Times and validity periods carried in a simulated exchange are checked in C24.)", "C20": PURE + " (Addresses and frames carried in a simulated exchange are checked in C24.)",
"C22": PURE + " (The flags, classes and indicators of exchanged TPDUs are checked in C24.)",
"C23": "The tools are single-shot, single-threaded command-line filters: one pass over their arguments, no state, timing or I/O faults worth simulating.",
}
NOTE = " Sampling: a clean batch is evidence over the runs made, not proof. Trusted: the source instrumenter and simulated runtime (the repository's own tests pass on the instrumented copy), the reference model and the independent wire codec."
m = {"version": 1, "setup_cmd": "./build.sh plain race",
 "checks": [], "not_applicable": [],
 "notes": "No hooks are needed in /repo: the checks instrument a copy of /repo's working tree at build time (instr/), replacing goroutines, sync, atomics, channels, time and map iteration by a simulated runtime (simrt/). ./check.sh --replay FILE re-executes a violation. Genuine defects found, with the fix: commits that repaired all but one, are listed in known_findings.txt."}
for p in sorted(CLAIMED):
    if p not in ONLY:
        m["not_applicable"].append({"property": p, "reason": "Check under construction."})
        continue
    sc, note = CLAIMED[p]
    m["checks"].append({"property": p, "quick_cmd": f"VERIF_TIER=quick ./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
      "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection: seeded search over schedules, timings and faults of the real code under a controlled scheduler (%s scenario)" % sc,
      "level": "exploration", "level_note": note + NOTE})
for p in sorted(NA):
    m["not_applicable"].append({"property": p, "reason": NA[p]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json","a").write("\n")
