#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

usage: build.py VARIANT...      (dbg: TC_ASSERTs on, rel: NDEBUG, and other page sizes)
Objects are cached by the contents of everything they were compiled from, so a second build in the
same sandbox only recompiles what changed; a fresh sandbox compiles everything.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

VARIANTS = {
    "dbg": ["-DTCMALLOC_INTERNAL_8K_PAGES"],
    "rel": ["-DTCMALLOC_INTERNAL_8K_PAGES", "-DNDEBUG"],
    "numa": ["-DTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_NUMA_AWARE"],
    "p256r": ["-DTCMALLOC_INTERNAL_256K_PAGES", "-DNDEBUG"],
    "p4r": ["-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW", "-DNDEBUG"],
    "p256": ["-DTCMALLOC_INTERNAL_256K_PAGES"],
    "p32": ["-DTCMALLOC_INTERNAL_32K_PAGES"],
    "p4": ["-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW"],
}
COMMON = ("-std=c++17 -O1 -g0 -w -DVERIF_SIM -D_FORTIFY_SOURCE=0 -U_FORTIFY_SOURCE -fno-stack-protector "
          "-fno-pie -fcf-protection=none -fno-omit-frame-pointer").split()
INSTR = "-fsanitize=thread -U__SANITIZE_THREAD__ --param tsan-instrument-func-entry-exit=0".split()
INC = ["-I", os.path.join(HERE, "shim"), "-I", REPO]

EXCL = re.compile(r"test|fuzz|bench|mock|aarch|unsupported|want_|profile_builder|profile_marshaler|fake|_riscv|_ppc")
SYMS = {  # libc function -> simulator function
    "open": "sim_open", "open64": "sim_open64", "__open_2": "sim_open_2", "__open64_2": "sim_open64_2",
    "mmap64": "sim_mmap64", "lseek64": "sim_lseek64",
    "_ZN4absl7debian313GetStackTraceEPPvii": "sim_GetStackTrace",
    "_ZN4absl7debian324GetStackTraceWithContextEPPviiPKvPi": "sim_GetStackTraceWithContext",
    "_ZN4absl7debian318DefaultStackUnwinderEPPvPiiiPKvS2_": "sim_DefaultStackUnwinder",
    "_ZN4absl7debian313base_internal6GetTIDEv": "sim_absl_gettid",
    "_ZN4absl7debian313base_internal13LowLevelAlloc14AllocWithArenaEmPNS2_5ArenaE": "sim_lla_alloc",
    "_ZN4absl7debian313base_internal13LowLevelAlloc5AllocEm": "sim_lla_alloc1",
    "_ZN4absl7debian313base_internal13LowLevelAlloc4FreeEPv": "sim_lla_free",
    "_ZN4absl7debian313base_internal13LowLevelAlloc8NewArenaEj": "sim_lla_newarena",
    "_ZN4absl7debian313base_internal13LowLevelAlloc11DeleteArenaEPNS2_5ArenaE": "sim_lla_deletearena",
}
for s in ("mmap munmap madvise mprotect munlock mincore prctl read lseek close readlink process_vm_readv poll "
          "sched_yield sched_getcpu sched_getaffinity sched_setaffinity syscall getauxval pthread_key_create "
          "pthread_setspecific pthread_getspecific pthread_self pthread_sigmask getpid gettid abort raise write "
          "fwrite fprintf fputs sigaction pthread_mutex_lock pthread_mutex_unlock pthread_atfork __register_atfork "
          "pthread_getcpuclockid clock_gettime nanosleep time gettimeofday usleep pthread_once sysconf __assert_fail").split():
    SYMS.setdefault(s, "sim_" + s)


def sources():
    r = []
    for pat in ("tcmalloc/*.cc", "tcmalloc/internal/*.cc"):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if not EXCL.search(os.path.relpath(f, REPO)):
                r.append(f)
    a = os.path.join(REPO, "tcmalloc/internal/percpu_rseq_asm.S")
    for c in (a, os.path.join(REPO, "tcmalloc/internal/percpu_rseq_x86_64.S")):
        if os.path.exists(c):
            r.append(c)
            break
    return r


def sha(path, cache={}):
    k = path
    if k not in cache:
        try:
            with open(path, "rb") as f:
                cache[k] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            cache[k] = "-"
    return cache[k]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def compile_one(src, obj, flags, instr, symfile):
    dep = obj + ".d"
    key = obj + ".key"
    cmd = ["g++"] + COMMON + flags + (INSTR if instr and src.endswith(".cc") else []) + INC
    sig = json.dumps([cmd, sha(symfile) if instr else ""])
    if os.path.exists(obj) and os.path.exists(key):
        try:
            k = json.load(open(key))
            if k["sig"] == sig and all(sha(f) == h for f, h in k["deps"].items()):
                return 0, ""
        except Exception:
            pass
    for f in (key, obj):
        if os.path.exists(f):
            os.unlink(f)
    rc, out = run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj])
    if rc:
        return rc, "%s\n%s" % (src, out)
    if instr:
        rc, out = run(["objcopy", "--redefine-syms=" + symfile, "--rename-section", ".init_array=sim_ctors", obj])
        if rc:
            return rc, out
    try:
        t = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = {f: sha(f) for f in t if not f.startswith("/usr/")}
        json.dump({"sig": sig, "deps": deps}, open(key, "w"))
    except Exception:
        pass
    return 0, ""


def build(variant, extra=(), verbose=False):
    d = os.path.join(OUT, variant)
    os.makedirs(d, exist_ok=True)
    symfile = os.path.join(d, "syms")
    txt = "".join("%s %s\n" % kv for kv in sorted(SYMS.items()))
    if not os.path.exists(symfile) or open(symfile).read() != txt:
        open(symfile, "w").write(txt)
    flags = VARIANTS[variant] + list(extra)
    jobs = []
    for s in sources():
        f = list(flags)
        if s.endswith("/tcmalloc/tcmalloc.cc"):
            f += ["-DTCMALLOC_LIBC_OVERRIDE_H_", "-include", os.path.join(HERE, "sim/no_override.h")]
        jobs.append((s, os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o"), f, True))
    sims = []
    for s in sorted(glob.glob(os.path.join(HERE, "sim/*.cc"))):
        o = os.path.join(d, "sim_" + os.path.basename(s) + ".o")
        inst = os.path.basename(s).startswith("inst_")
        if not inst:
            sims.append(o)
        jobs.append((s, o, flags, inst))
    heavy = ["tcmalloc/tcmalloc.cc", "harness", "global_stats", "static_vars", "cpu_cache", "huge_page_aware",
             "page_allocator.cc", "background", "central_free", "transfer", "malloc_ext", "allocation_sampling", "span.cc"]
    def weight(j):
        for i, h in enumerate(heavy):
            if h in j[0]:
                return i
        return 99
    jobs.sort(key=weight)
    errs = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for rc, out in ex.map(lambda j: compile_one(*j, symfile), jobs):
            if rc:
                errs.append(out)
    if errs:
        return None, "\n".join(errs)
    exe = os.path.join(d, "sim")
    objs = [j[1] for j in jobs if j[3]]
    libs = ["-Wl,--start-group"] + sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a")) + ["-Wl,--end-group"]
    lk = hashlib.sha1("".join(sha_now(o) for o in sims + objs).encode()).hexdigest()
    if os.path.exists(exe) and os.path.exists(exe + ".lk") and open(exe + ".lk").read() == lk:
        return exe, ""
    cmd = ["g++", "-static", "-no-pie", "-Wl,-z,norelro", "-o", exe] + objs + sims + libs + ["-lpthread"]
    rc, out = run(cmd)
    if rc:
        return None, out
    open(exe + ".lk", "w").write(lk)
    return exe, ""


def sha_now(p):
    return hashlib.sha1(open(p, "rb").read()).hexdigest()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["dbg"]:
        t = time.time()
        exe, err = build(v)
        if not exe:
            print(err[-6000:])
            sys.exit(2)
        print("%s: %s (%.1f s)" % (v, exe, time.time() - t))
