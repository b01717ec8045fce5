"""C16: the in-memory storage under simulated threads (see sim/storsim.cc)."""
import json
import os
import time

import build
import check

QUICK_S = float(os.environ.get("RAFTSIM_QUICK_S", "40"))
THOROUGH_S = float(os.environ.get("RAFTSIM_THOROUGH_S", "660"))


def run(pid, tier, seed, t0):
    try:
        exe = build.build(("storsim",))["storsim"]
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 3
    build_s = time.time() - t0
    kn = check.known_lines(pid, exe, {"storsim": exe})
    secs = QUICK_S if tier == "quick" else THOROUGH_S
    base = seed if tier == "quick" else seed + 1000000007
    rc, out, err = check.call([exe, "batch", "--seed", str(base), "--secs", "%.1f" % secs, "--workers", check.WORKERS], timeout=secs + 200)
    try:
        d = json.loads(out)
    except ValueError:
        print("batch gave no result (exit %d): %s %s" % (rc, out[-300:], err[-300:]))
        return 3
    path, viols, rcode = None, 0, 0
    v = d["violation"]
    if v:
        path, j = write_replay(pid, exe, v["seed"], v["code"], 15 if tier == "quick" else 60)
        if path is None:
            print("error: seed %d (%s: %s) did not reproduce in a fresh process" % (v["seed"], v["code"], v["detail"]))
            rcode = 3
        else:
            viols, rcode = 1, 1
            print("%s: %s" % (v["code"], (j or {}).get("detail", v["detail"])))
            print("seed %d" % v["seed"])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    samples = []
    for s in (base, base + 1):
        _, g, _ = check.call([exe, "gen", "--seed", str(s)])
        _, o, _ = check.call([exe, "one", "--seed", str(s)])
        samples.append({"seed": s, "calls": [l for l in g.splitlines() if l.startswith(("init", "op"))], "result": check.jlast(o)})
    cov = {
        "evaluations": d["runs"],
        "distinct_nontrivial": d["distinct"],
        "rule": "one evaluation is one seeded execution of two to four simulated threads over the real MemoryStorage; distinct counts different hashes of (every context switch with its position, every call with its result and its place in real-time order) in a map of 2^27 bits, so it undercounts",
        "samples": samples,
        "runs_per_hour": int(d["runs"] / d["wall_s"] * 3600) if d["wall_s"] else 0,
        "seeds_per_hour": int(d["runs"] / d["wall_s"] * 3600) if d["wall_s"] else 0,
        "simulated_time": "the storage has no clock; simulated time is counted in scheduling points: %d" % d["events"],
        "scheduling_points": d["events"], "context_switches": d["switches"], "waits_for_a_lock": d["blocked"], "lock_operations": d["locks"], "atomic_operations": d["atomics"],
        "memory_accesses_observed": d["reads"] + d["writes"],
        "calls": d["calls"], "calls_by_kind": d["kinds"], "results_by_kind": d["results"], "pairs_of_overlapping_calls": d["overlapping_pairs"],
        "objects_checked_for_later_change": d["held"], "model_states_searched": d["lin_nodes"],
        "fault_kinds_injected": {"preemption_inside_a_call": d["switches"], "thread_stalled_waiting_for_a_lock": d["blocked"], "process_ended_by_a_fatal_log_with_calls_running": d["fatals"]},
        "schedulers": d["policies"],
        "distinct_states": {"measure": "pairs of (place in the code where a thread was preempted, kind of call that ran instead), in a map of 2^20 bits", "count": d["preemption_pairs"]},
        "determinism": {"runs_executed_twice": d["det_checked"], "differences": d["det_bad"]},
        "known_findings": {"replayed": kn},
        "real_components": ["src/storage.cc", "src/util.cc (LimitSize)", "src/status.cc", "protobuf messages (generated code, instrumented)"],
        "stubbed_components": ["threads (fibers)", "pthread rwlocks and mutexes", "heap (freed blocks kept until the run ends)", "logger (a fatal log ends the run)"],
        "build_s": round(build_s, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sequentially consistent execution: a data race is reported as such instead of simulating weak memory",
                          "the test helpers SetEntries, GetEntries, GetEntry, GetSnapshot and SetIgnoreSize are not called concurrently",
                          "compaction does not go beyond a snapshot the caller has created or applied"],
          "wall_s": round(time.time() - t0, 2), "violations": viols}
    if path:
        cov["replay"] = path
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(build.VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(build.VERIF, "evidence", pid + ".json"))
    print("%s %s: %d runs (%d distinct), %d scheduling points, %d calls, %.0f s" % (pid, tier, d["runs"], d["distinct"], d["events"], d["calls"], time.time() - t0))
    if rcode == 0 and d["runs"] == 0:
        print("error: no run finished")
        return 3
    return rcode


def write_replay(pid, exe, seed, code, budget, ext="stor"):
    rdir = os.path.join(build.VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    raw = os.path.join(rdir, "%s-%d.raw" % (pid, seed))
    path = os.path.join(rdir, "%s-%d.%s" % (pid, seed, ext))
    _, out, _ = check.call([exe, "gen", "--seed", str(seed)])
    with open(raw, "w") as f:
        f.write(out)
    hits = 0
    for _ in range(3):
        _, out, _ = check.call([exe, "replay", raw], timeout=120)
        hits += (check.jlast(out) or {}).get("code") == code
    if hits < 2:
        return None, None
    rc, out, _ = check.call([exe, "shrink", raw, "--secs", str(budget), "--out", path], timeout=budget + 200)
    j = check.jlast(out)
    if rc != 0 or not j:
        os.replace(raw, path)
        j = {}
    else:
        os.unlink(raw)
    _, out, _ = check.call([exe, "replay", path, "--trace"], timeout=120)
    with open(path, "a") as f:
        f.write("# detail: %s\n" % (check.jlast(out) or {}).get("detail", ""))
        for l in out.splitlines():
            if l.startswith("#"):
                f.write(l + "\n")
    return path, j
