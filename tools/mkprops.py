#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements have one source).
import json, os
T="tcmalloc/"; I="tcmalloc/internal/"
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("C01","Live blocks are disjoint, aligned, big enough and keep their contents",
 "Every successful allocation returns a block of at least the requested size, aligned as requested, that overlaps no other block that has not been freed yet. Until its owner frees it, the block's bytes are changed by nobody but the application, whatever other threads, maintenance calls, thread exits or operating-system failures happen meanwhile.",
 ["schedules","fault_sequences","histories","configurations"],
 "all interleavings of any number of threads allocating, freeing (locally and remotely), exiting, and running maintenance calls; all sizes, alignments and entry points; all supported configurations; all OS failure sequences, including first use of the allocator by several threads at once",
 "The buildable tests do not run the allocator at all; upstream tests sample real schedules, cannot place a preemption at a chosen instruction, and inject no system-call failures.",
 [T+"tcmalloc.cc",T+"cpu_cache.h",T+"thread_cache.cc",T+"transfer_cache_internals.h",T+"central_freelist.h",T+"span.h",T+"huge_page_filler.h",T+"huge_page_aware_allocator.h",T+"huge_region.h",T+"huge_cache.cc",T+"pagemap.h",I+"percpu_tcmalloc.h",I+"range_tracker.h",I+"system_allocator.h"],
 [("object caches","tcmalloc/cpu_cache.h, tcmalloc/thread_cache.cc"),("span carving","tcmalloc/span.h, tcmalloc/central_freelist.h"),("page placement","tcmalloc/huge_page_filler.h, tcmalloc/huge_region.h, tcmalloc/huge_cache.cc"),("address space","tcmalloc/internal/system_allocator.h, tcmalloc/huge_allocator.cc")])
p("C02","Reported capacities are truthful and honoured when memory is freed by size",
 "The capacity reported for a block (by the size queries and by the size-returning allocation functions) is at least the requested size, is entirely usable by the application, and does not change while the block is live; the size estimate given before allocating never promises more than what is then obtained. Freeing with any size from the one requested up to the capacity returned by a size-returning allocation, or with the matching alignment, is accepted and releases exactly that block, whether or not the block was picked for sampling or guarding.",
 ["histories","schedules","configurations"],
 "all allocation entry points, sizes and alignments, all sampling/guarding decisions, frees by any thread through any matching entry point, in any interleaving",
 "Whether a block is sampled, guarded or cached is decided by randomness and by history; a test only sees a few of these combinations per entry point.",
 [T+"tcmalloc.cc",T+"sizemap.h",T+"sizemap.cc",T+"allocation_sampling.h",T+"tcmalloc_policy.h",T+"alloc_at_least.h"],
 [("size computation","tcmalloc/sizemap.h"),("sized deletion","tcmalloc/tcmalloc.cc"),("sampled capacity","tcmalloc/allocation_sampling.h")])
p("C03","Zeroed allocation is zero and reallocation preserves contents",
 "Zero-initialised allocation returns only zero bytes even when the memory was used before, was given back to the operating system, or could not be given back. Reallocation keeps the first min(old, new) bytes, frees the old block exactly once on success, and leaves the old block untouched and still owned by the caller on failure; array requests whose total size overflows fail instead of returning a short block.",
 ["histories","fault_sequences","schedules"],
 "all sequences of allocation, free, release to the OS and reallocation over all sizes and alignments, with any OS failure at any call, from any number of threads",
 "Tests use a handful of sizes with the OS always succeeding; recycled, released and partially failed memory appears only in long histories with faults.",
 [T+"tcmalloc.cc",T+"allocation_sampling.h",I+"overflow.h",T+"huge_page_aware_allocator.h"],
 [("calloc/realloc","tcmalloc/tcmalloc.cc"),("overflow check","tcmalloc/internal/overflow.h")])
p("C04","Failure to obtain memory is reported cleanly and is recoverable",
 "When the operating system refuses memory, or a request is too large or otherwise unserviceable, every allocation entry point reports failure in its documented way (null with ENOMEM or the error return, a null nothrow result, or, for the throwing operators, ending the process with the out-of-memory diagnostic) and neither crashes otherwise nor hands out invalid memory. Nothing held by the application is damaged or lost by the failure, and once the operating system serves requests again allocations succeed again.",
 ["fault_sequences","schedules","inputs"],
 "all placements of mapping, protection, advice and unmapping failures over all histories and interleavings, and all request sizes including ones close to the address-space size",
 "No test makes system calls fail, let alone at a chosen point of a multi-threaded history.",
 [T+"tcmalloc.cc",T+"tcmalloc_policy.h",I+"system_allocator.h",T+"huge_allocator.cc",T+"huge_cache.cc",T+"huge_page_aware_allocator.h",T+"cpu_cache.h",T+"central_freelist.h",T+"pagemap.h"],
 [("failure policies","tcmalloc/tcmalloc_policy.h"),("system allocation","tcmalloc/internal/system_allocator.h"),("heap growth","tcmalloc/huge_page_aware_allocator.h")])
p("C05","Byte accounting agrees with what the application really holds",
 "Whenever no allocator operation is in progress, the reported bytes in use by the application equal the total capacity of the blocks it holds (up to sampled blocks' documented rounding), heap size equals in-use plus cached plus free bytes, and no cache tier reports a negative or impossibly large amount. Bytes are never counted in two tiers at once nor in none.",
 ["histories","schedules","fault_sequences"],
 "all histories of allocations, frees, cache moves, resizes, thread exits and releases, over all interleavings, evaluated at every quiescent point",
 "Accounting drifts only after specific interleavings or failure paths and the drift accumulates; tests compare a few counters after short single-threaded sequences.",
 [T+"global_stats.cc",T+"tcmalloc.cc",T+"cpu_cache.h",T+"transfer_cache_internals.h",T+"central_freelist.h",T+"huge_page_aware_allocator.h",T+"huge_page_filler.h",T+"huge_cache.cc",T+"huge_region.h",T+"span_stats.h",T+"stats.h",I+"atomic_stats_counter.h"],
 [("stats extraction","tcmalloc/global_stats.cc"),("page-heap stats","tcmalloc/huge_page_aware_allocator.h")])
p("C06","Freed memory comes back: no tier leaks objects or address space",
 "Memory freed by the application becomes available for later allocations by any thread: repeating the same work does not make the heap grow without bound, a finished thread's or abandoned CPU's cached memory can be recovered, and cache capacity limits are respected. After everything is freed and all caches are flushed, no page remains charged to application objects and the pages can be given back to the operating system.",
 ["histories","schedules","fault_sequences"],
 "all allocate/free histories across threads and CPUs, with thread exits and cache flushes, resizes and moves at any point of any interleaving",
 "A leak of one object or span in a rare interleaving, failure or eviction path is invisible to a pass/fail unit test and only shows as growth over histories.",
 [T+"cpu_cache.h",T+"thread_cache.cc",T+"transfer_cache.h",T+"transfer_cache_internals.h",T+"central_freelist.h",T+"span.cc",T+"huge_page_filler.h",T+"huge_cache.cc",T+"huge_region.h",T+"arena.cc",T+"metadata_object_allocator.h"],
 [("cache flush","tcmalloc/cpu_cache.h"),("span return","tcmalloc/central_freelist.h"),("page return","tcmalloc/huge_page_aware_allocator.h")])
p("C07","Memory limits hold: soft by releasing, hard by refusing to exceed",
 "With a hard limit set, memory the allocator keeps backed never stays above the limit once an allocation has been granted: either enough free memory is released or the process is terminated with a diagnostic, and this never happens while releasing free memory could have met the limit. A soft limit triggers release of free memory but never fails an allocation, limit values read back as set, and changing or removing a limit takes effect for later allocations.",
 ["histories","schedules","fault_sequences"],
 "all sequences of limit changes, allocations, frees and releases from any thread, and any failures of the release system calls",
 "Tests set one limit and allocate past it once; the guarantee concerns every growth path, history of free/released pages, and failed releases.",
 [T+"page_allocator.cc",T+"page_allocator.h",T+"huge_page_aware_allocator.h",T+"malloc_extension.cc",T+"tcmalloc.cc"],
 [("limit enforcement","tcmalloc/page_allocator.cc")])
p("C08","Releasing memory to the OS never touches live data and is accounted exactly",
 "Only memory holding no live block is ever given back to the operating system, and memory whose release failed is still treated as backed. The reported released and backed byte counts always equal what the operating system accepted, a release request frees at least what was asked for when that much whole free memory exists, and reuse of released memory works.",
 ["histories","fault_sequences","schedules"],
 "all histories of allocation, free and release requests (explicit, background, limit-driven), all failures of the release calls, all interleavings with allocation",
 "Tests use a mocked release call that mostly succeeds and single-threaded sequences; what matters is failure at any call and races between release and reuse.",
 [T+"huge_page_filler.h",T+"huge_page_tracker.h",T+"huge_cache.cc",T+"huge_region.h",T+"huge_page_aware_allocator.h",T+"huge_address_map.cc",I+"system_allocator.h",I+"range_tracker.h",T+"huge_page_subrelease.h"],
 [("subrelease","tcmalloc/huge_page_tracker.h, tcmalloc/huge_page_filler.h"),("unback","tcmalloc/huge_cache.cc, tcmalloc/huge_region.h"),("system release","tcmalloc/internal/system_allocator.h")])
p("C09","The live-heap profile contains exactly the live sampled allocations",
 "At any moment a heap profile lists every sampled allocation that is still live, once, with the size, alignment, entry-point type, hint and stack it was made with, and lists nothing that was already freed when the snapshot began. Sampling decisions follow the configured interval so that the bytes estimated by the profile are statistically unbiased, and the recorded peak profile describes a state the heap really passed through.",
 ["schedules","histories"],
 "all interleavings of sampled allocation and free with profile snapshots, peak updates and interval changes; all histories",
 "Upstream tests bound the aggregate error on a real run; lost, duplicated or stale samples occur in specific races between recording, removal and iteration.",
 [T+"sampler.cc",T+"sampler.h",T+"allocation_sampling.h",T+"allocation_sampling.cc",I+"sampled_allocation_recorder.h",T+"stack_trace_table.cc",T+"peak_heap_tracker.cc"],
 [("sampler","tcmalloc/sampler.cc"),("sample store","tcmalloc/internal/sampled_allocation_recorder.h"),("peak tracking","tcmalloc/peak_heap_tracker.cc")])
p("C10","Guarded allocations catch memory errors and never blame correct code",
 "Touching memory outside a guarded block or after it was freed, freeing it twice or freeing an interior address, or overwriting the padding next to it, ends the process with a report of the right kind of error carrying the block's own allocation (and free) stacks. Correct use of guarded blocks never faults or reports, guarded blocks obey the same size and alignment guarantees as others, and slots are reused without ever aliasing live blocks.",
 ["schedules","histories","fault_sequences"],
 "all histories of guarded allocation, use and free from any threads in any interleaving, any sizes and alignments, slot exhaustion, and failures of the page-protection calls",
 "Tests exercise one error at a time on a fresh slot; slot reuse, exhaustion, protection failure and races between report and reuse are not reached.",
 [T+"guarded_page_allocator.cc",T+"guarded_page_allocator.h",T+"segv_handler.cc",T+"error_reporting.cc",T+"guarded_allocations.h",I+"stacktrace_filter.h",I+"gwp_asan_state.h"],
 [("slot management","tcmalloc/guarded_page_allocator.cc"),("error classification","tcmalloc/segv_handler.cc")])
p("C11","Per-CPU caching is atomic under preemption, migration and remote control",
 "A cache operation interrupted at any instruction by preemption, migration to another CPU, a signal, or another thread stopping, flushing, resizing or moving that CPU's cache either takes full effect or none: no cached object is lost, duplicated or handed to two owners, and nothing is served from a stale cache afterwards. This also holds when restartable sequences are unavailable or get registered late, or when CPUs vanish from the affinity mask.",
 ["schedules","fault_sequences","configurations"],
 "every placement of preemptions, migrations, aborts and fences inside and between the restartable sequences of any number of threads on any number of CPUs, combined with remote flush, capacity steal, dynamic slab resize and maximum-capacity growth",
 "On real hardware an abort lands inside a critical section of a few instructions with vanishing probability and never where a test wants it; tests can only stress.",
 [I+"percpu_tcmalloc.h",I+"percpu.cc",I+"percpu.h",I+"percpu_rseq_x86_64.S",T+"cpu_cache.h",T+"cpu_cache.cc"],
 [("restartable sequences","tcmalloc/internal/percpu_tcmalloc.h"),("stop/fence","tcmalloc/internal/percpu.cc"),("steal/resize/reclaim","tcmalloc/cpu_cache.h")])
p("C12","Every operation completes: no deadlock, lock misuse or re-entrancy failure",
 "For every interleaving and lock hand-over order, every call completes within a bounded number of steps once the threads holding internal locks are allowed to run: there is no cycle of waiting, no lock released by a non-owner or taken twice, and no call back into the allocator while it holds a lock that call needs.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings of all public operations including reports, profiles, hooks, limits, releases and thread exit, with any thread stalled anywhere",
 "A deadlock needs several threads at particular points of particular slow paths; clang annotations cover single functions and tests cover typical orders.",
 [T+"tcmalloc.cc",T+"static_vars.cc",T+"cpu_cache.h",T+"page_allocator.cc",T+"allocation_sampling.h",T+"transfer_cache.h",T+"central_freelist.h",T+"malloc_extension.cc",I+"allocation_guard.h",I+"system_allocator.h",I+"percpu.cc"],
 [("lock order","tcmalloc/static_vars.cc, tcmalloc/page_allocator.h")])
p("C13","Address queries are right while the heap changes underneath",
 "Asking whether the allocator owns an address answers yes for every live block and no for memory obtained elsewhere, and size queries on a live block are right, regardless of concurrent growth, splitting, release or metadata creation. The reported allocated address ranges cover every block live throughout the call exactly once, with true bounds.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of queries with allocation, free and heap growth; all addresses of live blocks and foreign memory; metadata-mapping failures",
 "Readers are lock-free against growing metadata; the failing interleavings are a few instructions wide and tests query quiescent heaps.",
 [T+"pagemap.h",T+"pagemap.cc",T+"tcmalloc.cc",T+"malloc_tracing_extension.cc",T+"span.h",T+"huge_address_map.cc"],
 [("page map","tcmalloc/pagemap.h"),("range reporting","tcmalloc/tcmalloc.cc, tcmalloc/malloc_tracing_extension.cc")])
p("C14","Placement hints separate memory: hot/cold, NUMA node and security partition",
 "Blocks of different placement classes (cold versus normal, NUMA node, type-based partition, sampled, metadata) never share a page, and the class of a block follows from the hint, token and CPU in force when it was allocated and stays recognisable when it is freed by any thread. Each class's memory comes from address space requested for that class.",
 ["histories","schedules","configurations"],
 "all mixes of hints, tokens, CPUs and sizes over all histories, with migration between allocation and free, recycled spans, and all supported partition configurations",
 "Tests check a fresh allocation's tag; mixing arises from recycled spans, cross-thread frees, and migrations between deciding and allocating.",
 [I+"memory_tag.h",I+"memory_tag.cc",I+"numa.h",I+"numa.cc",T+"page_allocator.h",T+"tcmalloc.cc",T+"tcmalloc_policy.h",I+"system_allocator.h"],
 [("tagging","tcmalloc/internal/memory_tag.h, tcmalloc/internal/system_allocator.h"),("topology","tcmalloc/internal/numa.cc")])
p("C15","Profiling sessions record exactly the sampled events of their window",
 "An allocation-profiling session reports exactly the sampled allocations made between its start and its stop; a lifetime or event-trace session reports exactly the sampled blocks whose life met the session, with right sizes, alloc/free pairing, lifetimes, and (for blocks allocated within the session) thread/CPU match flags, and marks blocks still live as censored. Concurrent sessions do not influence each other and stopping a session while threads allocate is safe.",
 ["schedules","histories"],
 "all interleavings of session start/stop, allocation and free by any threads, several overlapping sessions, and clock jumps",
 "Session registration races with sampled events; tests run one session on a calm program.",
 [T+"deallocation_profiler.cc",T+"deallocation_profiler.h",T+"allocation_sample.cc",T+"allocation_sample.h",T+"allocation_sampling.h",I+"cpu_utils.h"],
 [("lifetime profiler","tcmalloc/deallocation_profiler.cc"),("allocation samples","tcmalloc/allocation_sample.cc")])
p("C16","Registered allocation hooks see every event exactly once",
 "Between the completion of adding a hook and the start of removing it, the hook runs exactly once for each event of its kind with the true pointer and sizes, before the memory can be reused by others for frees. The adding thread sees this at once; other threads do for every sampled or page-level event at once, and for events served by their CPU cache from the next time they are scheduled. Outside this window a hook runs for no event: after removal completes with no call in progress it is never run again. Adding and removing hooks concurrently never loses, duplicates or corrupts registrations, and adding beyond capacity fails cleanly.",
 ["schedules","histories"],
 "all interleavings of hook registration, removal, traversal and allocation events on any number of threads",
 "The hook list is traversed without locks; the relevant interleavings between publication, traversal and removal are not controllable in tests.",
 [T+"malloc_hook.cc",T+"malloc_hook.h",T+"malloc_hook_invoke.h",I+"hook_list.h",I+"hook_list.cc",T+"tcmalloc.cc"],
 [("hook list","tcmalloc/internal/hook_list.h"),("invocation","tcmalloc/malloc_hook_invoke.h, tcmalloc/tcmalloc.cc")])
p("C17","Background maintenance makes progress, obeys its rate, and survives bad clocks",
 "Over time, background maintenance releases free memory no faster than the configured rate (a step may run ahead by whole hugepages or by cached memory found long unused, which later steps make up for), and not at all when the rate is zero or actions are disabled; it keeps releasing while free memory exists, and reclaims caches of CPUs that became idle or inaccessible within a bounded number of periods. Clock jumps, slow wake-ups, changing parameters and failing system calls neither stop it for good nor make it release unbounded memory or disturb live blocks.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of the maintenance loop with application threads, all clock jumps and sleep overshoots, all parameter changes, all failures of release calls",
 "The loop runs forever on real time; tests call single steps once with a normal clock.",
 [T+"background.cc",T+"page_allocator_interface.h",T+"cpu_cache.h",T+"huge_page_aware_allocator.h",T+"huge_page_treatment.h",T+"huge_page_subrelease.h",T+"parameters.cc",T+"tcmalloc.cc"],
 [("loop","tcmalloc/background.cc"),("rate control","tcmalloc/background.cc, tcmalloc/page_allocator.h")])
p("C18","Detected misuse ends the process instead of corrupting the heap",
 "Freeing the same page-level or sampled block twice before its memory is handed out again, freeing an address inside memory the allocator manages that it never returned, freeing with a size or alignment outside the valid range for a checked block, or mismatching allocation and free families where checked, terminates the process with a diagnostic naming the error before any other allocation can receive the memory. Correct programs never trigger such termination, in any interleaving.",
 ["histories","schedules"],
 "all histories leading to the bad call, with any interleaved activity of other threads; for the negative half, all correct programs",
 "Death tests exercise the detection on a fresh heap only; detection depends on where the block currently is (caches, sampled, guarded, released).",
 [T+"tcmalloc.cc",T+"error_reporting.cc",T+"span.h",T+"huge_page_aware_allocator.h",T+"allocation_sampling.h",T+"central_freelist.h"],
 [("checks on free","tcmalloc/tcmalloc.cc, tcmalloc/error_reporting.cc")])
p("C19","The allocator only manipulates address space it obtained itself",
 "Every mapping, protection, advice, naming and unmapping call covers only ranges the allocator previously reserved and still owns, is aligned as the operating system requires, and never replaces a mapping it did not make; placement hints the system ignores or answers with an occupied range are handled. Rejected or misaligned reservations are returned to the system rather than lost, whichever calls fail, and a user-supplied region provider receives only ranges reserved for it.",
 ["fault_sequences","histories","schedules"],
 "all answers the OS may give to each mapping request (honoured, ignored or refused hints, partial failures), over all heap growth histories and interleavings",
 "Tests accept whatever the real kernel answers, which is nearly always the benign case.",
 [I+"system_allocator.h",I+"system_allocator.cc",T+"huge_allocator.cc",T+"arena.cc",T+"guarded_page_allocator.cc",T+"malloc_extension.h"],
 [("reservation","tcmalloc/internal/system_allocator.h")])
p("C20","Time-based decisions survive clock wrap, jumps and stalls",
 "Elapsed times computed from stored compact timestamps are exact for intervals shorter than their documented range across any counter wrap, and an unset timestamp is never mistaken for a recorded one. Windowed histories built on them (demand tracking, release back-off, decayed counts) never count an event outside the window it happened in, and forget events once the window has passed, whatever pauses, coarse ticks or backward jumps the clock makes.",
 ["fault_sequences","histories","inputs"],
 "all clock trajectories (any start value, wrap, long stalls, coarse ticks, backward jumps) and all event histories along them",
 "Wraps occur after long uptimes and stalls at arbitrary points; tests use a few hand-picked tick values.",
 [I+"clock.h",I+"timeseries_tracker.h",T+"huge_page_subrelease.h",T+"huge_page_filler.h",T+"huge_cache.cc",T+"page_allocator_interface.h"],
 [("compact timestamps","tcmalloc/internal/clock.h"),("time series","tcmalloc/internal/timeseries_tracker.h"),("demand windows","tcmalloc/huge_page_subrelease.h")])
p("C21","Reports can be taken at any moment and are complete and self-consistent",
 "The statistics text, the machine-readable statistics and the property queries can be requested by any thread at any time without disturbing the heap, never write outside the buffer given, report the length that was needed when it is too small, and end well-formed when it suffices. At quiescence the figures they print agree with each other and with the property queries.",
 ["schedules","histories","inputs"],
 "all instants of all interleavings at which a report is requested, all buffer sizes, all heap states including after failures",
 "Reports walk every structure while others mutate it; tests print them on idle heaps with ample buffers.",
 [T+"global_stats.cc",T+"tcmalloc.cc",T+"stats.cc",I+"logging.cc",I+"logging.h",T+"huge_page_aware_allocator.h",T+"huge_page_filler.h",T+"span_stats.h"],
 [("printers","tcmalloc/global_stats.cc, tcmalloc/internal/logging.h")])
p("C22","Guarded-sampling filters and counters neither drift nor lose entries",
 "The counters that decide which stacks may be guarded rise and fall with concurrent additions and removals without drifting: a stack with live recorded entries is always reported as present, and once all entries of every stack are removed or decayed the count is zero again. The number of simultaneously guarded blocks never exceeds the configured maximum and returns to zero when all are freed.",
 ["schedules","histories"],
 "all interleavings of additions, removals, decay and queries by any number of threads, all stack-hash collisions",
 "The existing tests are single-threaded; updates are lock-free and drift needs specific interleavings.",
 [I+"stacktrace_filter.h",T+"guarded_page_allocator.cc",T+"guarded_page_allocator.h"],
 [("filters","tcmalloc/internal/stacktrace_filter.h"),("slot limits","tcmalloc/guarded_page_allocator.cc")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["id"]
