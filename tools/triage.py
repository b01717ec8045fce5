#!/usr/bin/env python3
"""Developer aid: run a batch for one property and summarise what was noted."""
import json, subprocess, sys, collections, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
x = build.build()["raftsim"]
secs = sys.argv[1]
seed = sys.argv[2]
for prop in sys.argv[3:]:
    r = subprocess.run([x, "batch", "--prop", prop, "--seed", seed, "--runs", "1000000", "--secs", secs, "--continue"], stdout=subprocess.PIPE, text=True)
    d = json.loads(r.stdout)
    print("== C%s runs=%d ok=%d internal=%d(%s %d) det_bad=%d/%d runs/s=%.0f heal avg %d max %d checks=%d" % (
        prop, d["runs"], d["ok"], d["internal"], d["internal_detail"], d["internal_seed"], d["det_bad"], d["det_checked"], d["runs"] / d["wall_s"], d["heal_ticks_avg"], d["heal_ticks_max"], d["checks"]))
    print("   states", d["states_bits"], "distinct", d["distinct"], "nontriv", d["nontrivial"])
    if d["violation"]: print("   VIOL", d["violation"])
    if d["known"]: print("   known", d["known"])
    if "-s" in os.environ.get("TRIAGE", ""): print("   sit", d["situations"])
    print("   noted", {k: v for k, v in d["noted_runs"].items() if v})
    m = collections.OrderedDict()
    for n in d["noted"]:
        e = m.setdefault(n["code"], [0, []])
        e[0] += n["runs"]; e[1].append((n["seed"], n["detail"]))
    for k, e in m.items():
        print("   ", k, e[0])
        for s, t in e[1][:4]: print("       ", s, t[:230])
