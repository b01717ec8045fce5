#!/usr/bin/env python3
"""Developer aid: builds the planted bugs under /verif/seeded from tools/plant/*.py.

plant.py make NAME...|all   verify in a scratch copy (builds, stable tests pass, demo 0 -> nonzero), write seeded/NAME
plant.py hunt NAME...|all   run the property's check against it (RAFTSIM_REPO=scratch copy)
"""
import importlib.util, glob, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = "/tmp/w/plant"

def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "plant", "bugs*.py"))):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.B
    return out

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def scratch():
    if not os.path.exists(W):
        r = sh("git -C /repo worktree prune; git -C /repo worktree add --detach %s HEAD" % W); assert r.returncode == 0, r.stdout
    sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C %s checkout -q -- ." % (W, W))

def build():
    B = W + "/_build"
    return sh("export CC=/usr/bin/gcc CXX=/usr/bin/g++; /usr/bin/python3 /opt/vp/raftbuild/gen.py %s %s/cmake-src && cmake -S %s/cmake-src -B %s/out -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS='-O1 -g -Wno-error' && ninja -C %s/out -j8" % (W, B, B, B, B))

def tests():
    B = W + "/_build/out"
    sh("rm -f %s/ctest.xml; ctest --test-dir %s -j8 --timeout 120 --output-junit %s/ctest.xml > %s/ctest.log 2>&1; sed -i -E 's/(<testcase [^>]*)classname=\"[^\"]*\"/\\1/' %s/ctest.xml; /usr/bin/python3 /opt/vp/results.py /tmp/w/res.json junit:%s/ctest.xml" % (B, B, B, B, B, B))
    d = json.load(open("/tmp/w/res.json"))
    return set(d["passed"]), set(d["failed"])

def apply(b):
    for f, old, new in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (b["name"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))

def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=W, timeout=300)

def make(names):
    scratch()
    r = build(); assert r.returncode == 0, r.stdout[-2000:]
    p0, f0 = tests()
    print("base: %d passed, %d failed" % (len(p0), len(f0)))
    for b in bugs():
        if names != ["all"] and b["name"] not in names: continue
        d = "/tmp/w/seed-" + b["name"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f in ("mini.h", "demo.sh"): shutil.copy(os.path.join(HERE, "plant", f), d)
        head = '#include "mini.h"\nusing namespace mini;\n' if not b["demo"].lstrip().startswith("#") else ""
        body = b["demo"] if not head else head + "int main() {" + b["demo"] + "  return 0;\n}\n"
        open(d + "/demo.cc", "w").write(body)
        sh("git -C %s checkout -q -- ." % W)
        r = build()
        c = demo(d)
        if c.returncode != 0:
            print("%s: demo fails on the unchanged tree (%d): %s" % (b["name"], c.returncode, c.stdout[-400:])); continue
        apply(b)
        diff = sh("git -C %s diff" % W).stdout
        r = build()
        if r.returncode != 0:
            print("%s: does not build: %s" % (b["name"], r.stdout[-1500:])); continue
        p1, f1 = tests()
        if p0 - p1:
            print("%s: tests fail: %s" % (b["name"], sorted(p0 - p1)[:8])); continue
        c = demo(d)
        if c.returncode == 0:
            print("%s: demo passes with the change" % b["name"]); continue
        out = os.path.join(VERIF, "seeded", b["name"])
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print("%s: ok (demo exit %d: %s)" % (b["name"], c.returncode, c.stdout.strip()[-120:]), flush=True)
    sh("git -C %s checkout -q -- ." % W)

def hunt(names):
    scratch()
    for b in bugs():
        if names != ["all"] and b["name"] not in names and b["prop"] not in names: continue
        pd = os.path.join(VERIF, "seeded", b["name"], "patch.diff")
        if not os.path.exists(pd): continue
        sh("git -C %s checkout -q -- ." % W)
        r = sh("git -C %s apply %s" % (W, pd)); assert r.returncode == 0, r.stdout
        t = time.time()
        env = dict(os.environ, RAFTSIM_REPO=W)
        r = sh("python3 %s/check.py %s quick" % (HERE, b["prop"]), env=env, cwd=VERIF)
        v = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
        print("%-45s %s exit %d %.0f s  %s" % (b["name"], b["prop"], r.returncode, time.time() - t, " | ".join(x[:140] for x in v[:1])), flush=True)
    sh("git -C %s checkout -q -- ." % W)

if __name__ == "__main__":
    {"make": make, "hunt": hunt}[sys.argv[1]](sys.argv[2:])
