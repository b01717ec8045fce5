"""C24: a multi-threaded application over the whole library, under simulated threads (see sim/thrsim.cc)."""
import json
import os
import time

import build
import check
import check_storage

QUICK_S = float(os.environ.get("RAFTSIM_QUICK_S", "50"))
THOROUGH_S = float(os.environ.get("RAFTSIM_THOROUGH_S", "660"))


def run(pid, tier, seed, t0):
    try:
        exe = build.build(("thrsim",))["thrsim"]
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 3
    build_s = time.time() - t0
    kn = check.known_lines(pid, exe, {"thrsim": exe})
    secs = QUICK_S if tier == "quick" else THOROUGH_S
    base = seed if tier == "quick" else seed + 2000000011
    rc, out, err = check.call([exe, "batch", "--seed", str(base), "--secs", "%.1f" % secs, "--workers", check.WORKERS], timeout=secs + 200)
    try:
        d = json.loads(out)
    except ValueError:
        print("batch gave no result (exit %d): %s %s" % (rc, out[-300:], err[-300:]))
        return 3
    path, viols, rcode = None, 0, 0
    v = d["violation"]
    if v:
        path, j = check_storage.write_replay(pid, exe, v["seed"], v["code"], 20 if tier == "quick" else 90, "thr")
        if path is None:
            print("error: seed %d (%s: %s) did not reproduce in a fresh process" % (v["seed"], v["code"], v["detail"]))
            rcode = 3
        else:
            viols, rcode = 1, 1
            print("%s: %s" % (v["code"], (j or {}).get("detail", v["detail"])))
            print("seed %d" % v["seed"])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    samples = []
    for s in (base, base + 1):
        _, g, _ = check.call([exe, "gen", "--seed", str(s)])
        _, o, _ = check.call([exe, "one", "--seed", str(s)])
        samples.append({"seed": s, "plan": [l for l in g.splitlines() if l.startswith(("cfg", "groups", "op"))][:60], "result": check.jlast(o)})
    cov = {
        "evaluations": d["runs"],
        "distinct_nontrivial": d["distinct"],
        "rule": "one evaluation is one seeded execution of two to six simulated threads over the real library (plus, when every thread has its own nodes, one execution of each of them alone); distinct counts different hashes of (every context switch with its position, everything each thread was handed, everything applied) in a map of 2^27 bits, so it undercounts",
        "samples": samples,
        "runs_per_hour": int(d["runs"] / d["wall_s"] * 3600) if d["wall_s"] else 0,
        "seeds_per_hour": int(d["runs"] / d["wall_s"] * 3600) if d["wall_s"] else 0,
        "simulated_time": "%d calls of RawNode::Tick or more in %d scheduling points" % (d["kinds"]["Tick"], d["events"]),
        "scheduling_points": d["events"], "context_switches": d["switches"], "waits": d["blocked"], "lock_operations": d["locks"], "atomic_operations": d["atomics"],
        "memory_accesses_observed": d["reads"] + d["writes"], "threads_run_alone_for_comparison": d["alone"],
        "steps_of_the_application": d["kinds"], "work_done": d["counts"], "arrangements": d["modes"],
        "fault_kinds_injected": {"preemption_inside_a_call": d["switches"], "thread_stalled_waiting": d["blocked"], "node_restarted_or_asked_to_be": d["kinds"]["Restart"],
                                 "log_compacted_by_another_thread": d["counts"]["compactions"], "messages_lost_duplicated_or_reordered": "about one receive step in six, plus members cut off for a stretch"},
        "schedulers": d["policies"],
        "distinct_states": {"measure": "pairs of (place in the code where a thread was preempted, kind of step that ran instead), in a map of 2^20 bits", "count": d["preemption_pairs"]},
        "determinism": {"runs_executed_twice": d["det_checked"], "differences": d["det_bad"]},
        "known_findings": {"replayed": kn},
        "real_components": ["every library source file of /repo/src, instrumented", "protobuf messages (generated code, instrumented; the protobuf runtime is watched at its memory copies only)"],
        "stubbed_components": ["threads (fibers)", "thread-local variables (one set per simulated thread)", "pthread mutexes and rwlocks", "guards of function-local statics", "heap (freed blocks kept until the run ends)", "standard output", "random_device (a stream per simulated thread)", "network, state machine"],
        "build_s": round(build_s, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sequentially consistent execution: a data race is reported as such instead of simulating weak memory",
                          "one thread at a time uses a node (the application locks it or owns it); what a node handed out is only read",
                          "a message is handed to one node only, by one thread",
                          "accesses made by uninstrumented libraries (libprotobuf, libstdc++) are seen only where they copy, set or compare memory"],
          "wall_s": round(time.time() - t0, 2), "violations": viols}
    if path:
        cov["replay"] = path
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(build.VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(build.VERIF, "evidence", pid + ".json"))
    print("%s %s: %d runs (%d distinct), %d scheduling points, %d steps, %.0f s" % (pid, tier, d["runs"], d["distinct"], d["events"], d["calls"], time.time() - t0))
    if rcode == 0 and d["runs"] == 0:
        print("error: no run finished")
        return 3
    return rcode
