#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: seeded search over schedules, crashes, network and disk faults of a whole simulated cluster; "
NOTE = ("Held on every seeded run explored (counts in the evidence file), not on all runs. Real: every library source file of the node; simulated: network, clocks, disk, application, clients, randomness. "
        "Trusts the simulator's oracles and the documented application contract (persist, send, apply in order, Advance). ")
C = {
 "C01": ("leader claims per term and incarnation checked at every event", ""),
 "C02": ("global applied log and hash-chained state machine compared at every apply and snapshot", ""),
 "C03": ("leader completeness against the record of everything ever applied, with whole-cluster crashes", ""),
 "C04": ("global log-matching map fed by every log, in memory and persisted, after every call", ""),
 "C05": ("every emitted message checked against the durable image; restarts compared with it", ""),
 "C06": ("Ready-contract monitor on every Ready of every incarnation", ""),
 "C07": ("read indexes compared with the exposed commit index at issue time", "Known finding D8 is reported by its own replay."),
 "C08": ("identity and order of every proposal tracked to its application", ""),
 "C09": ("reference configuration machine over the applied changes", ""),
 "C10": ("commits and elections recomputed from durable images and emitted votes", ""),
 "C11": ("snapshot restore compared with the reference state; catch-up within a bound; part of the runs under AddressSanitizer", ""),
 "C12": ("bounded progress after faults stop", "Known findings D6 and D7 are recognised and reported by their own replays."),
 "C13": ("own-tick windows of quorum contact, vote refusals, pre-vote term ledger, stability windows", ""),
 "C14": ("transfer windows, refusal of proposals, settled-cluster transfers", ""),
 "C15": ("window, probe and byte accounting recomputed from observed messages", ""),
 "C17": ("aborts, assertions, signals, exceptions, runaways; part of the runs under AddressSanitizer and UBSan", ""),
 "C18": ("joint entry and leave tracked, bounded leave after faults stop", ""),
 "C19": ("everything handed out re-hashed later; part of the runs under AddressSanitizer", ""),
 "C20": ("lease reads compared with the exposed commit index under equal clocks", "Known finding D4 (reads between one and two election timeouts after quorum contact) is recognised and reported."),
 "C21": ("own-tick bounds on every election start, wait distribution, heartbeat count per interval", ""),
 "C22": ("reported status compared with the node, the leaders seen per term and the members' disks after every call", ""),
 "C25": ("client work after every recovered fault history with all clocks stopped, completion of every step checked", ""),
 "C27": ("every rejection a leader handles compared with the place of the previous one and with the last entry both logs share", ""),
 "C26": ("heap counted per node, storage and whole process after every recovered fault history", ""),
 "C23": ("quiet phase after every recovered fault history, all messages and Readys in it checked", ""),
}
STOR = False
NA = []
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(os.path.join(HERE, "check_storage.py")):
    C["C16"] = ("seeded preemption at every memory access, atomic and lock operation of the storage code; histories checked for linearizability against a sequential model, data races, use after free, deadlock, later changes of handed-out objects", "Real: src/storage.cc; simulated: threads and locks.")
else:
    NA.append({"property": "C16", "reason": "the thread simulator for the storage is not finished yet"})
C["C24"] = ("seeded preemption at every memory access, atomic and lock operation of the whole library under a multi-threaded application; data races, use after free, deadlock, aborts, applied sequences compared between nodes, results compared with each thread run alone, logged lines compared", "Real: every library source file; simulated: threads, locks, thread-local storage, heap, network, randomness.")
THREADS = ("C16", "C24")
m = {"version": 1, "setup_cmd": "python3 tools/build.py raftsim raftsim-asan" + (" storsim" if "C16" in C else "") + " thrsim",
     "checks": [], "not_applicable": NA,
     "notes": "No hooks in /repo: every seam exists already (Ready/Step/Tick/Storage, std::random_device overridden at link time, pthread locks interposed and the thread-sanitizer callbacks implemented by the simulator)."}
for k in sorted(C):
    t, n = C[k]
    note = NOTE + n if k not in THREADS else "Held on every seeded schedule explored (counts in the evidence file). " + n
    m["checks"].append({"property": k, "quick_cmd": "python3 tools/check.py %s quick" % k, "thorough_cmd": "python3 tools/check.py %s thorough" % k,
                        "evidence_file": "evidence/%s.json" % k, "technique": T + t if k not in THREADS else "deterministic simulation of threads: " + t, "level": "exploration", "level_note": note.strip()})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
