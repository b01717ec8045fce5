#!/usr/bin/env python3
"""Developer aid: runs a list of hand-written mutants (tools/plant/mut*.py) against the checks of the
properties they break.  Survivors are built and tested with the repository's own suite, so that only
those the suite lets through count as gaps.

mutants.py [-w WORKTREE] [-t] NAME_PREFIX...|all      (-t: always run the suite as well)
mutants.py [-w WORKTREE] -p NAME_PREFIX...|all        (only the suite)
"""
import glob, importlib.util, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
import plant

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "plant", "mut*.py"))):
        spec = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.M
    return out

def prefilter(args):
    plant.scratch()
    plant.build(); base, _ = plant.tests()
    for m in load():
        if args != ["all"] and not any(m["name"].startswith(a) for a in args): continue
        plant.sh("git -C %s checkout -q -- ." % plant.W)
        try: plant.apply(m)
        except AssertionError as e: print("BAD EDIT", e, flush=True); continue
        r = plant.build()
        if r.returncode: print("%s: does not build: %s" % (m["name"], r.stdout[-600:]), flush=True); continue
        p1, _ = plant.tests()
        d = sorted(base - p1)
        print("%s: %s" % (m["name"], "tests fail: %d %s" % (len(d), d[:3]) if d else "PASSES"), flush=True)
    plant.sh("git -C %s checkout -q -- ." % plant.W)

def main(args):
    always = False
    while args and args[0].startswith("-"):
        if args[0] == "-w": plant.W = args[1]; args = args[2:]
        elif args[0] == "-t": always = True; args = args[1:]
        elif args[0] == "-p": return prefilter(args[1:])  # only: which ones does the suite let through?
        else: sys.exit(__doc__)
    if not args: sys.exit(__doc__)
    plant.scratch()
    base = None
    for m in load():
        if args != ["all"] and not any(m["name"].startswith(a) for a in args): continue
        plant.sh("git -C %s checkout -q -- ." % plant.W)
        try: plant.apply(m)
        except AssertionError as e: print("BAD EDIT", e, flush=True); continue
        res, miss = [], False
        for p in m["props"]:
            t = time.time()
            r = plant.sh("python3 %s/check.py %s quick" % (HERE, p), env=dict(os.environ, RAFTSIM_REPO=plant.W), cwd=plant.VERIF)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            code = ""
            for l in r.stdout.splitlines():
                if l.startswith("violation ") or l.startswith("found "): code = l[:90]
            if r.returncode == 2 or (r.returncode and not v): res.append("%s ERR %s" % (p, r.stdout[-300:]))
            elif v: res.append("%s caught %.0fs" % (p, time.time() - t))
            else: res.append("%s MISSED" % p); miss = True
        t = ""
        if miss or always:
            if base is None:
                plant.sh("git -C %s stash -q" % plant.W) ; plant.build(); base, _ = plant.tests(); plant.sh("git -C %s stash pop -q" % plant.W)
            r = plant.build()
            if r.returncode: t = "(does not build)"
            else:
                p1, _ = plant.tests()
                d = sorted(base - p1)
                t = "(tests fail: %s)" % d[:3] if d else "(TESTS PASS)"
        print("%-34s %s %s" % (m["name"], "; ".join(res), t), flush=True)
    plant.sh("git -C %s checkout -q -- ." % plant.W)

if __name__ == "__main__":
    main(sys.argv[1:])
