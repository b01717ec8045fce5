#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation.

Builds the simulator from /repo's working tree, runs a batch of seeded runs,
confirms and minimises the first violation and rewrites the evidence file.
Exit 0: held on everything explored; 1: a VIOLATION line was printed; other:
the check itself failed."""
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")

QUICK_S = float(os.environ.get("RAFTSIM_QUICK_S", "60"))
THOROUGH_S = float(os.environ.get("RAFTSIM_THOROUGH_S", "660"))
# share of the time spent in the AddressSanitizer/UBSan build
ASAN_SHARE = {"C17": 0.35, "C19": 0.2, "C11": 0.1}
WORKERS = str(os.cpu_count() or 4)

REAL = ["src/raft.cc", "src/rawnode.cc", "src/log.cc", "src/log_unstable.cc", "src/storage.cc (MemoryStorage)", "src/read_only.cc",
        "src/ready (rawnode)", "src/tracker/*", "src/quorum/*", "src/confchange/*", "src/util.cc", "protobuf messages"]
STUB = ["network (simulated links)", "clock and tick source (simulated time)", "disk (model of what survives a crash)",
        "application state machine (hash chain with its own membership rules)", "clients", "std::random_device, rand() (seeded)", "logger (fatal level turns into a recorded abort)"]


def findings():
    known, fixed = [], []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r"known: property=(C\d\d) id=(D\d+) replay=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
            m = re.match(r"fixed: property=(C\d\d) (\S+) (.*)", line)
            if m:
                fixed.append(m.groups())
    return known, fixed


def call(args, timeout=None):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout, r.stderr


def jlast(s):
    for line in reversed(s.strip().splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                return None
    return None


def batch(exe, num, seed, runs, secs):
    rc, out, err = call([exe, "batch", "--prop", str(num), "--seed", str(seed), "--runs", str(runs), "--secs", "%.1f" % secs, "--workers", WORKERS], timeout=secs + 200)
    try:
        return json.loads(out)
    except ValueError:
        raise RuntimeError("batch gave no result (exit %d): %s %s" % (rc, out[-300:], err[-300:]))


def write_replay(pid, exe, num, seed, code, tag, budget):
    """Confirm a violation in fresh processes, minimise, write the replay file."""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    raw = os.path.join(rdir, "%s-%s%d.raw" % (pid, tag, seed))
    path = os.path.join(rdir, "%s-%s%d.txt" % (pid, tag, seed))
    rc, out, _ = call([exe, "gen", "--prop", str(num), "--seed", str(seed)])
    with open(raw, "w") as f:
        f.write(out)
    hits = []
    for _ in range(3):
        _, out, _ = call([exe, "replay", raw], timeout=400)
        j = jlast(out)
        hits.append((j or {}).get("code"))
    if hits.count(code) < 2:
        return None, None
    rc, out, err = call([exe, "shrink", raw, "--secs", str(budget), "--out", path], timeout=budget + 400)
    j = jlast(out)
    if rc != 0 or not j:
        os.replace(raw, path)
        _, out, _ = call([exe, "replay", path], timeout=400)
        j = jlast(out) or {}
    else:
        os.unlink(raw)
    rc, out, _ = call([exe, "replay", path, "--trace"], timeout=400)
    lines = [l for l in out.splitlines() if l.startswith("#")]
    with open(path, "a") as f:
        f.write("# last events of this run (replay: %s replay FILE --trace)\n" % os.path.basename(exe).split("-")[0])
        for l in lines[-400:]:
            f.write(l[:300] + "\n")
    return path, j


def known_lines(pid, exe, exes):
    """Replays every listed finding of this property."""
    seen = {}
    for prop, fid, rep, text in findings()[0]:
        if prop != pid:
            continue
        p = os.path.join(VERIF, rep)
        x = exe
        if rep.endswith(".stor"):
            x = exes["storsim"]
        rc, out, _ = call([x, "replay", p], timeout=400)
        j = jlast(out) or {}
        still = fid in (j.get("known") or {})
        seen[fid] = still
        if still:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, fid, text), flush=True)
        else:
            print("note: the listed finding %s of %s does not show in %s any more" % (fid, pid, rep), flush=True)
    return seen


def main():
    pid = sys.argv[1]
    num = int(pid[1:])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    if num == 16:
        import check_storage
        return check_storage.run(pid, tier, seed, t0)
    if num == 24:
        import check_threads
        return check_threads.run(pid, tier, seed, t0)
    share = ASAN_SHARE.get(pid, 0)
    try:
        exes = build.build(("raftsim",) + (("raftsim-asan",) if share else ()))
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 3
    build_s = time.time() - t0
    exe = exes["raftsim"]
    total = QUICK_S if tier == "quick" else THOROUGH_S
    base = seed if tier == "quick" else seed + 1000003
    kn = known_lines(pid, exe, exes)
    listed = {f for _, f, _, _ in findings()[0]}
    parts = []
    plan = [("", exe, total * (1 - share), base)]
    if share:
        plan.append(("asan-", exes["raftsim-asan"], total * share, base + 500009))
    bad = None
    for tag, x, secs, s in plan:
        d = batch(x, num, s, 2000000, secs)
        parts.append((tag, d))
        if d["violation"]:
            bad = (tag, x, d["violation"]["seed"], d["violation"]["code"], d["violation"]["detail"])
            break
        if d["internal"] and pid == "C17":
            bad = (tag, x, d["internal_seed"], "process-died", d["internal_detail"])
            break
        for fid, k in d["known"].items():
            if fid not in listed:  # the classifier knows it, the list does not
                bad = (tag, x, k["seed"], "", k["detail"])
                break
    rcode, viols = 0, 0
    path = None
    if bad:
        tag, x, s, code, detail = bad
        if code == "":
            rc, out, _ = call([x, "gen", "--prop", str(num), "--seed", str(s)])
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%d.txt" % (pid, s))
            open(path, "w").write(out)
            j = {"detail": detail}
        else:
            path, j = write_replay(pid, x, num, s, code, tag, 25 if tier == "quick" else 90)
        if path is None:
            print("error: %s with seed %d (%s: %s) did not reproduce in a fresh process" % (pid, s, code, detail))
            rcode = 3
        else:
            rcode, viols = 1, 1
            print("%s: %s" % (code, (j or {}).get("detail", detail)))
            print("seed %d" % s)
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    evidence(pid, num, tier, seed, parts, exe, t0, build_s, viols, kn, path)
    main_d = parts[0][1]
    print("%s %s: %d runs (%d distinct), %d simulated ticks, %d API calls, %.0f s" % (
        pid, tier, sum(d["runs"] for _, d in parts), sum(d["distinct"] for _, d in parts), sum(d["sim_ticks"] for _, d in parts),
        sum(d["calls"] for _, d in parts), time.time() - t0))
    if rcode == 0 and any(d["runs"] == 0 for _, d in parts):
        print("error: no run finished")
        return 3
    return rcode


RULE = ("one evaluation is one whole simulated cluster run generated from (property, seed): configuration, client operations, faults and schedule; "
        "non-trivial means a leader was elected and entries were applied; distinct counts different hashes of the complete observable history "
        "(every Ready, applied state, vote, term and crash in order)")


def evidence(pid, num, tier, seed, parts, exe, t0, build_s, viols, kn, path):
    faults, shapes, noted, sits = {}, {}, {}, {}
    for _, d in parts:
        for k, v in d["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in d["situations"].items():
            sits[k] = sits.get(k, 0) + v
        for k, v in d["shapes"].items():
            shapes[k] = shapes.get(k, 0) + v
        for k, v in d["noted_runs"].items():
            if v:
                noted[k] = noted.get(k, 0) + v
    samples = []
    for s in parts[0][1]["sample_seeds"][:2]:
        _, out, _ = call([exe, "gen", "--prop", str(num), "--seed", str(s)])
        _, res, _ = call([exe, "one", "--prop", str(num), "--seed", str(s)])
        ops = [l for l in out.splitlines() if l.startswith("op ")]
        cfg = " ".join(l[4:].replace(" ", "=") for l in out.splitlines() if l.startswith("cfg "))
        j = jlast(res) or {}
        samples.append({"seed": s, "config": cfg, "operations": len(ops), "first_operations": ops[:12], "result": {k: j.get(k) for k in ("status", "hash", "ticks", "healed", "heal_ticks", "calls", "checks")}})
    wall = sum(d["wall_s"] for _, d in parts)
    runs = sum(d["runs"] for _, d in parts)
    tot = lambda k: sum(d[k] for _, d in parts)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": tot("distinct"),
        "rule": RULE,
        "samples": samples,
        "runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
        "simulated_ticks": tot("sim_ticks"),
        "simulated_ticks_per_wall_second": int(tot("sim_ticks") / wall) if wall else 0,
        "library_calls": tot("calls"), "messages_sent": tot("msgs"), "entries_applied": tot("applied"), "elections": tot("elections"),
        "reads_answered": tot("reads"), "proposals": tot("proposals"), "membership_changes_applied": tot("conf_changes"), "snapshots_restored": tot("snapshots"),
        "evaluations_of_this_property": tot("checks"),
        "fault_kinds_injected": {k: v for k, v in faults.items() if v},
        "situations_reached": sits,
        "run_shapes": {k: v for k, v in shapes.items() if v},
        "distinct_abstract_states": {"measure": "bits set in a %d-bit map of hashed abstract cluster states (roles, terms and logs relative to each other, configuration, Ready stage)" % parts[0][1]["bitmap_bits"], "count": max(d["states_bits"] for _, d in parts)},
        "recovery": {"runs_recovered": tot("healed"), "ticks_avg": parts[0][1]["heal_ticks_avg"], "ticks_max": max(d["heal_ticks_max"] for _, d in parts), "bound": "250 election timeouts + 400 ticks"},
        "determinism": {"runs_executed_twice": tot("det_checked"), "differences": tot("det_bad")},
        "runs_whose_process_died": tot("internal"),
        "sanitizer_runs": sum(d["runs"] for t, d in parts if t),
        "known_findings": {"replayed": kn, "seen_in_batch": parts[0][1]["known"]},
        "other_properties_noted": noted,
        "real_components": REAL, "stubbed_components": STUB,
        "build_s": round(build_s, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the application follows the documented Ready contract (persist, then send, apply in order, Advance)",
                          "durable state survives a crash as written; an unfinished write may be torn at an entry boundary and a HardState that changed only the commit index may be lost",
                          "messages may be lost, delayed, duplicated, reordered, not forged"],
          "wall_s": round(time.time() - t0, 2), "violations": viols}
    if path:
        ev["coverage"]["replay"] = path
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
