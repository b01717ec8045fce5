#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree.

Objects are cached under /verif/build by a hash of everything that goes into
them (flags, source, every header), so a stale object is never linked."""
import concurrent.futures
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RAFTSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")

CXX = "g++"
BASE = ["-std=gnu++17", "-g1", "-O2", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing", "-w", "-pthread"]


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith((".cc", ".cpp", ".cxx")):
                continue
            if f.endswith("_test.cc") or f in ("raft_test_util.cc",) or f.endswith(".pb.cc"):
                continue
            p = os.path.join(d, f)
            if "test" in os.path.relpath(p, REPO).split(os.sep)[:-1]:
                continue
            out.append(p)
    return sorted(out)


def headers_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), SIM):
        for d, dn, fs in os.walk(root):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".proto")) and not f.endswith(".pb.h"):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def atomic(dst, make):
    tmp = "%s.tmp%d" % (dst, os.getpid())
    make(tmp)
    os.replace(tmp, dst)


def obj(src, flags, digest, kind):
    with open(src, "rb") as f:
        body = f.read()
    key = hashlib.sha256("\0".join([CXX, kind, src, digest] + flags).encode() + body).hexdigest()[:32]
    o = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(o):
        atomic(o, lambda t: run([CXX] + flags + ["-c", src, "-o", t]))
    else:
        os.utime(o)
    return o


def build(which=("raftsim",), quiet=True):
    """Returns {name: path}.  "raftsim" is the simulator, "raftsim-asan" the
    same with AddressSanitizer and UBSan, "storsim" the storage under
    simulated threads, "thrsim" the library under simulated threads."""
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    digest = headers_digest()
    gen = os.path.join(BUILD, "gen-" + digest[:16])
    if not os.path.exists(os.path.join(gen, "done")):
        os.makedirs(gen, exist_ok=True)
        run(["protoc", "-I", REPO, "--cpp_out=" + gen, os.path.join(REPO, "src/raftpb/raft.proto")])
        open(os.path.join(gen, "done"), "w").close()
    inc = ["-I", gen, "-I", REPO, "-I", os.path.join(REPO, "src"), "-I", SIM]
    # generated header must win over a checked-in one of another protoc
    inc = ["-iquote", os.path.join(gen, "src", "raftpb"), "-iquote", os.path.join(gen, "src"), "-iquote", gen] + inc
    jobs = []
    exes = {}
    cpu = os.cpu_count() or 4
    with concurrent.futures.ThreadPoolExecutor(cpu) as ex:
        pb = ex.submit(obj, os.path.join(gen, "src/raftpb/raft.pb.cc"), BASE + inc, digest, "pb")
        lib = [ex.submit(obj, s, BASE + inc, digest, "lib") for s in lib_sources()] if "raftsim" in which else []
        if "raftsim-asan" in which:
            san = BASE + ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] + inc
            apb = ex.submit(obj, os.path.join(gen, "src/raftpb/raft.pb.cc"), san, digest, "pb")
            alib = [ex.submit(obj, s, san, digest, "lib") for s in lib_sources()]
            own = [ex.submit(obj, os.path.join(SIM, f), san + (["-fno-access-control"] if f == "peek.cc" else []), digest, "own")
                   for f in ("sim.cc", "oracle.cc", "plan.cc", "main.cc", "refcfg.cc", "rt.cc", "peek.cc")]
            jobs.append(("raftsim-asan", alib + own + [apb]))
        if "raftsim" in which:
            own = [ex.submit(obj, os.path.join(SIM, f), BASE + inc + (["-fno-access-control"] if f == "peek.cc" else []), digest, "own")
                   for f in ("sim.cc", "oracle.cc", "plan.cc", "main.cc", "refcfg.cc", "rt.cc", "peek.cc")]
            jobs.append(("raftsim", lib + own + [pb]))
        if "storsim" in which:
            # every memory access and atomic of the storage and message code
            # calls back into the simulator, which is linked instead of libtsan
            tsan = ["-O1", "-fsanitize=thread"]
            tb = [f for f in BASE if f != "-O2"] + tsan + inc
            sut = [ex.submit(obj, s, tb, digest, "stor") for s in lib_sources()
                   if os.path.basename(s) in ("storage.cc", "util.cc", "status.cc", "logger.cc")]
            tpb = ex.submit(obj, os.path.join(gen, "src/raftpb/raft.pb.cc"), tb, digest, "stor")
            own = [ex.submit(obj, os.path.join(SIM, f), BASE + inc, digest, "own") for f in ("storsim.cc",)]
            # instrumented objects first: their copies of inline functions win
            jobs.append(("storsim", sut + [tpb] + own))
        if "thrsim" in which:
            # the whole library and a multi-threaded application, likewise
            tsan = ["-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE"]
            tb = [f for f in BASE if f != "-O2"] + tsan + inc
            sut = [ex.submit(obj, s, tb, digest, "thr") for s in lib_sources()]
            sut += [ex.submit(obj, os.path.join(gen, "src/raftpb/raft.pb.cc"), tb, digest, "thr"), ex.submit(obj, os.path.join(SIM, "thrapp.cc"), tb, digest, "thr")]
            own = [ex.submit(obj, os.path.join(SIM, "thrsim.cc"), BASE + ["-U_FORTIFY_SOURCE"] + inc, digest, "own")]
            jobs.append(("thrsim", sut + own))
        for name, fut in jobs:
            objs = [f.result() for f in fut]
            key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, "%s-%s" % (name, key))
            if not os.path.exists(exe):
                atomic(exe, lambda t: run([CXX, "-pthread", "-o", t] + (["-fsanitize=address,undefined"] if name == "raftsim-asan" else []) + objs + ["-lprotobuf", "-lpthread"]))
            exes[name] = exe
    # keep the cache bounded
    keep = 400
    od = os.path.join(BUILD, "obj")
    fs = sorted((os.path.join(od, f) for f in os.listdir(od)), key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
    for p in fs[:-keep]:
        try:
            os.unlink(p)
        except OSError:
            pass
    old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith(("raftsim-", "storsim-", "thrsim-"))),
                 key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
    for p in old[:-16]:
        if p not in exes.values():
            try:
                os.unlink(p)
            except OSError:
                pass
    for f in sorted(os.listdir(BUILD)):
        if f.startswith("gen-") and f != os.path.basename(gen) and time.time() - os.path.getmtime(os.path.join(BUILD, f)) > 3600:
            shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
    if not quiet:
        print("build: %.1f s" % (time.time() - t0))
    return exes


if __name__ == "__main__":
    try:
        r = build(tuple(sys.argv[1:]) or ("raftsim",), quiet=False)
    except BuildError as e:
        print(e)
        sys.exit(2)
    for k, v in r.items():
        print(k, v)
