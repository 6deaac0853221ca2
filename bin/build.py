#!/usr/bin/env python3
"""Builds the simulator together with the engine from /repo's working tree.

Objects are kept under /verif/build and named by the content they were made from (source, every
header of the repository and of the simulator, compiler flags), never by time stamps.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = next((c for c in ("/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")

DEFS = """-DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DPWAL
-DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1
-DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1 -DKVS_MAX_PARALLEL_THREADS=12
-DYAKUSHIMA_MAX_PARALLEL_SESSIONS=12 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25
-DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0
-DPROJECT_ROOT=/repo""".split()

ENGINE_FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-w", "-mcx16", "-fsanitize=thread",
                "-mllvm", "-tsan-instrument-func-entry-exit=0"]
WORK_FLAGS = ["-std=c++17", "-O2", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-w", "-mcx16"]
STR = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
REDIRECT = {STR + "aSERKS4_": "sim_string_assign", STR + "9_M_assignERKS4_": "sim_string_assign_to",
            STR + "10_M_replaceEmmPKcm": "sim_string_replace"}
LIBS = ["-lglog", "-ltbb", "-lboost_filesystem", "-ldl", "-lpthread"]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def remove(p):
    try:
        os.unlink(p)
    except OSError:
        pass


def tree_hash(roots, exts):
    h = hashlib.sha256()
    for r in roots:
        files = []
        for d, _, names in os.walk(r):
            if "/.git" in d or "/_build" in d:
                continue
            files += [os.path.join(d, n) for n in names if n.endswith(exts)]
        for f in sorted(files):
            h.update(f.encode())
            h.update(read(f))
    return h.hexdigest()


def build(verbose=False):
    """returns the path of the simulator binary; raises RuntimeError with the compiler output"""
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(REPO, "src")
    engine = []
    for pat in ("concurrency_control", "datastore", "database", "index"):
        engine += glob.glob(os.path.join(src, pat, "**", "*.cpp"), recursive=True)
    engine += glob.glob(os.path.join(src, "*.cpp"))
    engine = sorted(set(engine))
    work = sorted(glob.glob(os.path.join(VERIF, "sim", "**", "*.cpp"), recursive=True))
    parts = [f for f in work if os.path.basename(os.path.dirname(f)) == "part"]
    work = [f for f in work if f not in parts]
    hdr_repo = tree_hash([os.path.join(REPO, "include"), src, os.path.join(REPO, "third_party")], (".h", ".hpp", ".ipp", ".inl"))
    hdr_sim = tree_hash([os.path.join(VERIF, "sim")], (".h", ".hpp"))
    hdr_api = tree_hash([os.path.join(REPO, "include")], (".h", ".hpp"))
    ver = subprocess.run([CXX, "--version"], capture_output=True).stdout
    eflags = ENGINE_FLAGS + ["-include", os.path.join(VERIF, "sim/core/shim.h")] + DEFS + [
        "-I" + os.path.join(VERIF, "sim/stub"), "-I" + os.path.join(REPO, "include"), "-I" + src,
        "-I" + os.path.join(src, "include"), "-I" + os.path.join(REPO, "third_party"), "-I" + VERIF]
    wflags = WORK_FLAGS + ["-I" + VERIF, "-I" + os.path.join(VERIF, "sim/stub"), "-I" + os.path.join(REPO, "include")]
    # the simulator's objects come first: where both sides instantiate the same template, the
    # linker then takes the one without preemption points, which the stand-ins rely on
    jobs = []
    for f in work:
        jobs.append((f, wflags, hdr_api + hdr_sim))
    for f in engine + parts:
        jobs.append((f, eflags, hdr_repo + hdr_sim))
    objs = []
    todo = []
    for f, flags, hd in jobs:
        h = hashlib.sha256()
        h.update(ver)
        h.update("\0".join(flags + sorted(REDIRECT) if flags is eflags else flags).encode())
        h.update(hd.encode())
        h.update(f.encode())
        h.update(read(f))
        o = os.path.join(OUT, os.path.basename(f)[:-4] + "-" + h.hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((os.path.getsize(f), f, flags, o))
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "simrun-" + key)
    if os.path.exists(exe):
        return exe
    todo.sort(reverse=True)

    def one(j):
        _, f, flags, o = j
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=OUT)
        os.close(fd)
        r = subprocess.run([CXX] + flags + ["-c", f, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            remove(tmp)
            return f + "\n" + r.stderr[:4000]
        if flags is eflags:
            # see sim/core/strings.cpp
            a = ["--redefine-sym=%s=%s" % kv for kv in REDIRECT.items()]
            r = subprocess.run(["objcopy"] + a + [tmp], capture_output=True, text=True)
            if r.returncode != 0:
                remove(tmp)
                return f + "\n" + r.stderr[:4000]
        os.replace(tmp, o)
        return None

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(zip([j[1] for j in todo], ex.map(one, todo)))
    errs = [e for f, e in res if e and f not in parts]
    if errs:
        raise RuntimeError("\n".join(errs[:3]))
    # a component whose interface was changed is not driven directly; what users can see of it still is
    out = {f: e for f, e in res if e and f in parts}
    part_objs = [o for (f, _, _), o in zip(jobs, objs) if f in parts and f not in out]
    rest = [o for (f, _, _), o in zip(jobs, objs) if f not in parts]

    def link(o):
        return subprocess.run([CXX, "-no-pie", "-rdynamic", "-o", exe + ".tmp"] + o + LIBS, capture_output=True, text=True)

    r = link(rest + part_objs)
    if r.returncode != 0 and part_objs:
        ok = []
        for o in part_objs:
            if link(rest + [o]).returncode == 0:
                ok.append(o)
            else:
                out[o] = "does not link"
        r = link(rest + ok)
    if r.returncode != 0:
        raise RuntimeError(r.stderr[:4000])
    os.replace(exe + ".tmp", exe)
    for f, e in out.items():
        print("left out: " + os.path.basename(f) + "\n" + (e if verbose else ""), file=sys.stderr)
    # keep the directory small: drop what the newest binaries do not need
    exes = sorted(glob.glob(os.path.join(OUT, "simrun-*")), key=os.path.getmtime)
    for e in exes[:-3]:
        os.unlink(e)
    allo = sorted(glob.glob(os.path.join(OUT, "*.o")), key=os.path.getmtime)
    keep = set(objs)
    for o in allo[:-400]:
        if o not in keep:
            os.unlink(o)
    if verbose:
        print("built", exe, "compiled", len(todo), "of", len(jobs))
    return exe


if __name__ == "__main__":
    try:
        print(build(True))
    except RuntimeError as e:
        print("build failed:\n" + str(e), file=sys.stderr)
        sys.exit(2)
