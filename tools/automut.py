#!/usr/bin/env python3
"""Developer aid: mechanical mutants of the library.  Each one that builds and passes the repository's
own tests is run in the simulator (all shapes, nothing targeted); what nothing notices is a candidate
gap or an equivalent mutant, to be looked at by hand.

automut.py SEED COUNT OUT.jsonl [FILE...]      (scratch worktree /tmp/w/am)
"""
import json, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plant
plant.W = "/tmp/w/am"
FILES = ["src/raft.cc"] * 12 + ["src/log.cc"] * 3 + ["src/log_unstable.cc"] * 2 + ["src/rawnode.cc"] * 3 + ["src/read_only.cc", "src/storage.cc", "src/storage.cc",
         "src/util.cc", "src/tracker/progress.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc", "src/tracker/tracker.cc", "src/tracker/tracker.cc",
         "src/confchange/confchange.cc", "src/confchange/confchange.cc", "src/confchange/restore.cc", "src/quorum/joint.cc", "src/quorum/majority.cc", "src/raftpb/confchange.cc"]
REL = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
       (" + 1", ""), (" - 1", ""), (" + 1", " + 2"), ("std::min", "std::max"), ("std::max", "std::min"), ("return true;", "return false;"), ("return false;", "return true;"), ("true", "false"), ("false", "true"), ("!", "")]

def candidates(f):
    ls = open(os.path.join(plant.W, f)).read().split("\n")
    out, depth_log = [], False
    in_log = False
    for i, l in enumerate(ls):
        s = l.strip()
        if in_log:
            if s.endswith(");"): in_log = False
            continue
        if s.startswith(("CRAFT_LOG", "assert", "//", "#", "*", "using ", "namespace")):
            if s.startswith("CRAFT_LOG") and not s.endswith(");"): in_log = True
            continue
        if not s: continue
        for a, b in REL:
            for m in re.finditer(re.escape(a), l):
                if a == "!" and l[m.end():m.end() + 1] == "=": continue
                if a in (" < ", " > ") and "<" + ">" in l: continue
                out.append((i, l, l[:m.start()] + b + l[m.end():]))
        if s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("return", "break", "continue", "auto", "const ", "uint64_t ", "std::", "bool ", "size_t", "}", "for", "raftpb::", "case", "EntryPtrs ", "Status ")) and (i == 0 or ls[i - 1].strip()[-1:] in (";", "{", "}", ":", "")):
            out.append((i, l, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            out.append((i, l, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)))
            out.append((i, l, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
    return ls, out

def sim(secs, seed, prop=0):
    env = dict(os.environ, RAFTSIM_REPO=plant.W)
    r = plant.sh("python3 -c \"import sys; sys.path.insert(0,'%s'); import build; print(build.build()['raftsim'])\"" % HERE, env=env)
    x = r.stdout.strip().split("\n")[-1]
    if not x.startswith("/"): return None, r.stdout[-300:]
    r = plant.sh("%s batch --prop %d --seed %d --runs 1000000 --secs %d --continue" % (x, prop, seed, secs))
    try: d = json.loads(r.stdout)
    except Exception: return None, r.stdout[-300:]
    n = {k: v for k, v in d["noted_runs"].items() if v}
    codes = sorted({x["code"] for x in d["noted"]})
    try: os.unlink(x)
    except OSError: pass
    return (n, codes, d["internal"]), ""

def main():
    seed, count, outf = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or FILES
    rng = random.Random(seed)
    plant.scratch()
    r = plant.build(); assert r.returncode == 0, r.stdout[-2000:]
    base, _ = plant.tests()
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    k = 0
    while k < count:
        plant.sh("git -C %s checkout -q -- ." % plant.W)
        f = rng.choice(files)
        ls, c = candidates(f)
        i, old, new = rng.choice(c)
        if (f, i + 1, new.strip()) in done: continue
        done.add((f, i + 1, new.strip()))
        k += 1
        ls[i] = new
        open(os.path.join(plant.W, f), "w").write("\n".join(ls))
        d = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        r = plant.build()
        if r.returncode: d["res"] = "nobuild"
        else:
            p1, _ = plant.tests()
            if base - p1: d["res"] = "tests"
            else:
                res, err = sim(8, 11)
                if res and not res[0] and not res[2]: res, err = sim(25, 1234)
                if res is None: d["res"] = "simbuild"; d["err"] = err
                elif res[0] or res[2]: d["res"] = "caught"; d["by"] = res[0]; d["codes"] = res[1]
                else: d["res"] = "SURVIVED"
        with open(outf, "a") as fh: fh.write(json.dumps(d) + "\n")
        if d["res"] == "SURVIVED": print("%s:%d\n   - %s\n   + %s" % (f, i + 1, d["old"], d["new"]), flush=True)
    plant.sh("git -C %s checkout -q -- ." % plant.W)

main()
