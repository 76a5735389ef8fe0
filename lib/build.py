#!/usr/bin/env python3
"""Builds /repo's current working tree (C sources only) into a static archive for one variant, and links a harness to it.

    build.py VARIANT HARNESS.cpp OUT [extra flags...]

The archive is cached under /verif/.build/, keyed by the content of every source file and the flags, so two checks run
in the same sandbox share it; a changed tree always gets a fresh build."""
import concurrent.futures as cf
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = VERIF + "/.build"

BASE = ("-std=gnu11 -w -fms-extensions -ffp-contract=off -fno-math-errno -fno-strict-aliasing -fvisibility=hidden "
        "-DCBQN_EXPORT -DFFI=2 -DUSZ_64 -DNATIVE_COMPILER -DONLY_NATIVE_COMP -DFORMATTER=0 -DNO_RT -DNO_EXPLAIN "
        "-DBYTECODE_DIR=bytecodeNone -DCBQN_LIB=1 -DTEST_UTILS=1 -DPERF_TEST=1").split()
VARIANTS = {
    # the configuration of the o3 test build
    "o3":    ("gcc", ["-O3"]),
    "o1":    ("gcc", ["-O1"]),
    # assertions, reference-count verification, tail checks after every allocation
    "dbg":   ("gcc", ["-O1", "-g1", "-DDEBUG"]),
    "hv":    ("gcc", ["-O1", "-g1", "-DDEBUG", "-DHEAP_VERIFY=1"]),
    # collection at the n-th allocation from here: the harness sets nth_alloc
    "gc":    ("gcc", ["-O1", "-g1", "-DGC_EVERY_NTH_ALLOC=1000000000000ULL"]),
    "gcdbg": ("gcc", ["-O1", "-g1", "-DDEBUG", "-DGC_EVERY_NTH_ALLOC=1000000000000ULL"]),
    # out-of-memory at the n-th allocation from here: the harness sets oomTestLeft
    "oom":   ("gcc", ["-O1", "-g1", "-DOOM_TEST=1"]),
    # every allocation calls gc_forceGC, which the linker sends to the hook in bridge.c (FAULT)
    "hook":  ("gcc", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-DGC_EVERY_NTH_ALLOC=1"]),
    "heur":  ("gcc", ["-O1", "-DRANDOMIZE_HEURISTICS=1"]),
    "nojit": ("gcc", ["-O1", "-DJIT_ENABLED=0"]),
    "jit0":  ("gcc", ["-O1", "-DJIT_START=0"]),
    "mm2":   ("gcc", ["-O1", "-DMM=2"]),
    "asan":  ("gcc", ["-O1", "-g1", "-DMM=0", "-fsanitize=address", "-fno-omit-frame-pointer"]),
}


def sources():
    """The object list of build/makefile: what the test build links."""
    mk = open(REPO + "/build/makefile", encoding="utf-8").read()
    out = []
    for objs, d in re.findall(r"addprefix \$\{bd\}/, ([^}]*)\}\n\$\{bd\}/%\.o: (\S+)/%\.c", mk):
        out += [f"{d}/{o[:-2]}.c" for o in objs.split()]
    # files a change may have added beside those
    have = {os.path.basename(o) for o in out}
    return out


def tree_hash(extra):
    h = hashlib.sha256()
    for root in ("src", "include"):
        for d, dn, fn in os.walk(f"{REPO}/{root}"):
            dn.sort()
            if "singeli" in d:
                continue
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(REPO + "/build/makefile", "rb") as fh:
        h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def archive(variant, more=()):
    cc, flags = VARIANTS[variant]
    flags = BASE + flags + list(more)
    key = tree_hash([cc, flags])
    if more:
        variant += "+" + hashlib.sha256(repr(more).encode()).hexdigest()[:6]
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/{variant}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = f"{BUILD}/{variant}-{key}"
        lib = d + "/libcbqn.a"
        if os.path.exists(lib):
            return lib, flags
        for old in os.listdir(BUILD):
            if re.fullmatch(re.escape(variant) + r"-[0-9a-f]{20}(\.tmp)?", old):
                shutil.rmtree(f"{BUILD}/{old}", ignore_errors=True)
        tmp = d + ".tmp"
        os.makedirs(tmp)
        jobs = []
        for s in sources():
            o = f"{tmp}/{s.replace('/', '_')}.o"
            jobs.append((f"{REPO}/{s}", o))
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        def one(j):
            return run([cc, *flags, "-o", j[1], "-c", j[0]])
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for (src, _), (rc, out) in zip(jobs, ex.map(one, jobs)):
                if rc:
                    print(f"build.py: {src} does not compile:\n{out}", file=sys.stderr)
                    sys.exit(3)
        rc, out = run(["ar", "rcs", tmp + "/libcbqn.a", *[j[1] for j in jobs]])
        if rc:
            print(out, file=sys.stderr)
            sys.exit(3)
        for _, o in jobs:
            os.unlink(o)
        os.rename(tmp, d)
        return lib, flags


def cached_obj(cmd, src, deps):
    """Compile a C++ file of the framework once: the result depends on /verif only."""
    h = hashlib.sha256(repr(cmd).encode())
    for d in [src, *deps]:
        h.update(open(d, "rb").read())
    o = f"{BUILD}/obj/{os.path.basename(src)}-{h.hexdigest()[:20]}.o"
    if not os.path.exists(o):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        t = f"{o}.{os.getpid()}.tmp"
        rc, out = run([*cmd, "-o", t, "-c", src])
        if rc:
            print(out, file=sys.stderr)
            sys.exit(3)
        os.rename(t, o)
    return o


def harness(variant, src, out, extra=(), more=()):
    """Compile the C bridge with the variant's flags, the C++ harness, and link."""
    cc, vf = VARIANTS[variant]
    os.makedirs(os.path.dirname(out), exist_ok=True)
    san = [f for f in vf if f.startswith("-fsanitize")]
    bridge = out + ".bridge.o"
    defs = [e for e in extra if e.startswith("-D")]
    cxx = ["g++", "-std=c++20", "-O2", "-g1", "-w", *san, f"-I{VERIF}/lib", f"-I{REPO}/include"]
    L = VERIF + "/lib/"
    hdrs = [L + h for h in ("bridge.h", "explore.hpp", "model.hpp", "prims.hpp", "gen.hpp", "dyad.hpp", "vm.hpp", "fault.h", "fault.hpp") if os.path.exists(L + h)]
    hdrs = [h for h in hdrs if os.path.exists(h)]

    def mk_bridge():
        rc, o = run([cc, *BASE, *vf, *more, f"-I{REPO}/src", f"-I{VERIF}/lib", *defs, "-o", bridge, "-c", L + "bridge.c"])
        if rc:
            print(o, file=sys.stderr)
            sys.exit(3)
        return bridge
    csrc = [f for f in extra if f.endswith(".c")]

    def mk_c(f):
        o = f"{out}.{os.path.basename(f)}.o"
        rc, t = run([cc, *BASE, *vf, *more, f"-I{REPO}/src", f"-I{VERIF}/lib", *defs, "-o", o, "-c", f])
        if rc:
            print(t, file=sys.stderr)
            sys.exit(3)
        return o
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(cached_obj, [*cxx, *defs], src, hdrs),
              ex.submit(cached_obj, cxx, L + "prims.cpp", hdrs),
              ex.submit(cached_obj, cxx, L + "explore.cpp", hdrs),
              ex.submit(mk_bridge), *[ex.submit(mk_c, f) for f in csrc]]
        fa = ex.submit(archive, variant, more)
        objs = [f.result() for f in fs]
        lib, _ = fa.result()
    link = ["g++", *san, "-rdynamic", *[e for e in extra if e.startswith("-Wl")], "-o", out, *objs,
            "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lffi", "-ldl", "-lm", "-lpthread", "-lrt"]
    rc, o = run(link)
    if rc:
        print(o, file=sys.stderr)
        sys.exit(3)


if __name__ == "__main__":
    t = time.time()
    harness(sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:])
    print(f"built in {time.time()-t:.1f}s", file=sys.stderr)
