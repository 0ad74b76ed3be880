"""What each check runs: build variants with their share of the time."""
REAL = ("all of tcmalloc/*.cc and tcmalloc/internal/*.cc except profile_builder/profile_marshaler (proto output), compiled from "
        "/repo with memory-access instrumentation: per-CPU slabs incl. the restartable-sequence assembly, thread caches, transfer "
        "caches, central free lists, spans, page heap, huge-page filler/cache/regions, system allocator, sampling, guarded pages, "
        "hooks, background thread, statistics")
STUB = ("kernel (mmap/munmap/mprotect/madvise/mincore/mbind/rseq/membarrier/sched_*affinity/files) behind a simulated address "
        "space with fault injection; thread scheduler, CPUs, clocks and sleep; pthread keys; abseil (spin lock, once, hash tables, "
        "stack traces, formatting) replaced by small deterministic stand-ins in /verif/shim")
ASSUMPTIONS = [
    "interleavings are sequentially consistent: weak-memory reorderings are not simulated",
    "threads switch at instrumented memory accesses, atomics, locks and system calls, and at any instruction of a restartable sequence",
    "abseil is replaced by stand-ins with the same documented behaviour",
]
N = "more than 20 context switches and 5 allocations"
D, R = "dbg", "rel"


def P(quick, thorough=None, nontrivial=N, secs=30, **kw):
    return dict(quick=quick, thorough=thorough or [(D, .3), (R, .3), ("p256", .15), ("p32", .1), ("p4", .15)],
                nontrivial=nontrivial, secs=secs, **kw)


NA = {}
PLAN = {
    "C01": P([(D, .6), (R, .4)], how="seeded schedules over random multi-threaded allocation programs; shadow map of live blocks checks disjointness, alignment, accessibility and contents at every step"),
    "C02": P([(D, .6), (R, .4)], how="seeded allocation/free programs around size-class and page edges with sampling and guarding on; capacities against the shadow model and a reference for estimates"),
    "C03": P([(D, .5), (R, .5)], how="seeded programs of dirtying, freeing, releasing and re-allocating memory under failing system calls; every byte of zeroed and reallocated memory checked"),
    "C04": P([(R, 1)], thorough=[(R, .5), ("p256r", .2), ("p4r", .3)], how="refused mappings, protections and advice injected at seeded points and in persistent phases; failure reports, damage and recovery checked after each"),
    "C05": P([(D, .5), (R, .5)], how="seeded allocation programs with maintenance, thread churn and failing system calls; at every quiet point the reported figures are compared with the shadow model of live blocks and with the simulated system's mappings"),
    "C06": P([(D, .5), (R, .5)], how="the same seeded work repeated in rounds by rotating threads with CPU-set changes and thread exits; growth, capacity limits and complete drainage back to the page heap and the system are checked"),
    "C07": P([(D, .5), (R, .5)], how="seeded allocation programs under soft and hard limits set, moved and removed at run time, with failing releases; backed memory is compared with the limits after every operation, at quiet points and when the limit ends the process"),
    "C08": P([(D, .5), (R, .5)], how="seeded allocation programs interleaved with release requests, limits, background release and failing system calls; at quiet points what each request gave back is compared with the simulated system's record and the host's page residency"),
    "C17": P([(R, .6), (D, .4)], how="the real maintenance loop on simulated clocks, with rates, intervals and settings changed, clocks set forwards and back, late wake-ups and failing releases; what it gives back is compared with the time-integral of the configured rate, and idle caches and free hugepages must be gone a bounded number of calm periods later"),
    "C11": P([(D, .5), (R, .5)], how="seeded schedules that preempt, migrate and abort threads at any instruction of the restartable sequences, with remote flushes, steals, resizes and CPU-set changes; the shadow model of live blocks finds lost, duplicated or doubly owned objects and the figures of emptied caches are checked"),
    "C13": P([(R, .5), (D, .5)], how="address, size and range queries race seeded allocation, free, growth and metadata failures; answers are compared with the shadow model of blocks live throughout the call and with foreign mappings"),
    "C14": P([("numa", .5), (R, .5)], thorough=[("numa", .4), (R, .2), (D, .2), ("p256", .1), ("p32", .1)], how="seeded programs mixing hints, tokens, sampling and CPUs under all partition configurations; every block's class is predicted from what was in force and compared with where it lies, and pages are checked for mixed classes"),
    "C19": P([(R, .6), (D, .4)], thorough=[(R, .5), (D, .2), ("p256r", .15), ("p4r", .15)], how="the simulated system honours, ignores, displaces or refuses each mapping request; every system call is checked against the ranges the allocator owns, and what it holds at the end against what it uses"),
    "C09": P([(R, .5), (D, .5)], how="heap, peak and fragmentation profiles are taken while seeded programs allocate and free; every sample is compared with the shadow model of sampled live blocks (address, sizes, stack, weight, times)"),
    "C10": P([(R, .5), (D, .5)], how="seeded concurrent programs with guarding active; one thread then misuses one guarded block at a seeded moment, and the run must end in exactly that report with the block's own stacks, or nowhere if nothing was misused"),
    "C15": P([(R, .5), (D, .5)], how="allocation, lifetime and event-trace sessions are started and stopped at seeded moments of concurrent programs; what they recorded is compared with the history of sampled allocations and frees of their window"),
    "C16": P([(R, .6), (D, .4)], how="hooks are added and removed by several threads while others allocate; every delivery is matched with the history of calls, and each call that ran wholly inside a registration must have been delivered once"),
    "C18": P([(R, .5), (D, .5)], thorough=[(R, .3), (D, .3), ("p256", .2), ("p32", .2)], how="after a seeded concurrent program one thread frees a block twice, at a wrong address, with a wrong size, alignment or family; the run must end in the report that names it"),
    "C22": P([(R, .6), (D, .4)], thorough=[(R, .6), (D, .4)], how="filters of several shapes are driven by simulated threads against a ledger of live entries; the pool's counts are compared with the guarded blocks at quiet points"),
    "C12": P([(R, .55), (D, .45)], how="every public operation runs concurrently, callbacks that call back in included, on schedules that concentrate around locks; lock misuse, locks held across callbacks, deadlock and lack of progress within a bounded number of steps are detected"),
    "C20": P([(R, .6), (D, .4)], how="the time series, subrelease history and age stamps run on a simulated clock that jumps, stalls and runs backwards, against a reference model that keeps every record"),
    "C21": P([(R, .7), (D, .3)], how="reports in all formats and buffer sizes are taken during seeded concurrent programs; their framing, their figures and the agreement of the three interfaces are checked against the shadow model"),
}
