// C05 accounting, C06 memory comes back.
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>

#include "tcmalloc/internal/parameter_accessors.h"
#include "acct.h"

using tcmalloc::MallocExtension;

namespace world {
void CheckFigures(const Figures& f, const char* when) {
  size_t lo, hi;
  Held(&lo, &hi);
  if (f.in_use < lo || f.in_use > hi)
    Violation("accounting", "in-use", "%s the application holds %zu..%zu bytes but %zu are reported in use (%s)", when, lo, hi, f.in_use, Text(f).c_str());
  if (f.slack < f.free) Violation("accounting", "slack", "%s slack is below free (%s)", when, Text(f).c_str());
  size_t parts[] = {f.central, f.transfer, f.cpu, f.sharded, f.thread, f.free, f.slack - f.free};
  size_t tot = f.in_use;
  for (size_t x : parts) {
    if (x > f.system()) Violation("accounting", "impossible", "%s one tier exceeds the whole heap (%s)", when, Text(f).c_str());
    tot += x;
  }
  if (tot != f.system()) Violation("accounting", "sum", "%s tiers sum to %zu, heap has %zu (%s)", when, tot, f.system(), Text(f).c_str());
  if (f.heap != f.in_use + f.cached() + f.free)
    Violation("accounting", "heap-size", "%s heap size %zu is not in use + cached + free = %zu (%s)", when, f.heap, f.in_use + f.cached() + f.free, Text(f).c_str());
  if (f.local != f.cpu + f.sharded + f.thread) Violation("accounting", "local", "%s local bytes %zu (%s)", when, f.local, Text(f).c_str());
}

// ------------------------------------------------------------- C05
static void ConfC05(Rng& r) {
  cfg.sampling = 0;
  if (r.Below(4) == 0) {
    cfg.sampling = 1 << (9 + r.Below(11));
    if (r.Below(2)) cfg.guarded = 0;
  }
  cfg.phases = 2 + r.Below(4);
  cfg.ops_per_thread = 8 + r.Below(30);
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
#ifdef NDEBUG
  if (r.Below(3) == 0) {
    static const double lv[] = {0.01, 0.1, 0.5};
    double l = lv[r.Below(3)];
    if (r.Below(2)) fault_rate[F_MADV_DONTNEED] = l;
    if (r.Below(2)) fault_rate[F_MADV_OTHER] = l;
    if (r.Below(2)) fault_rate[F_MMAP] = l;
    if (r.Below(2) && cfg.guarded < 0) fault_rate[F_MPROTECT] = l;
  }
#endif
}
static void GenC05(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 20}, {O_FREE, 18}, {O_BURST_ALLOC, 8}, {O_BURST_FREE, 8}, {O_REALLOC, 4}, {O_PINGPONG, 4},
                  {O_RELEASE, 2}, {O_RELEASE_CPU, 2}, {O_MIGRATE, 2}, {O_IDLE, 1}, {O_PARAM, 1}, {O_CHURN, 1.5}, {O_PROPS, 0.5}, {O_STATS, 0.1},
                  {O_SLEEP, cfg.background ? 1.0 : 0.05}});
}
static void QuietC05(int) {
  Quiesce();
  NoSwitch ns;
  os::no_faults = true;
  VerifyAll("at a quiet point");
  Figures f = Take();
  CheckFigures(f, "at a quiet point");
  size_t acc = Accessible();
  if (cfg.guarded < 0 && acc != f.system())
    Violation("accounting", "system", "the operating system has %zu bytes accessible for the heap, the figures say %zu (%s)", acc, f.system(), Text(f).c_str());
  SIM_PROBE("accounting_checked");
  if (f.cpu) SIM_PROBE("cpu_cache_nonempty");
  if (f.transfer) SIM_PROBE("transfer_cache_nonempty");
  if (f.sharded) SIM_PROBE("sharded_cache_nonempty");
  if (f.thread) SIM_PROBE("thread_cache_nonempty");
  if (f.slack > f.free) SIM_PROBE("some_memory_unmapped");
  os::no_faults = false;
}
static void EndC05() {
  NoSwitch ns;
  os::no_faults = true;
  Figures f = Take();
  CheckFigures(f, "at the end");
  // Moving what the CPU caches hold elsewhere must not change what is in use.
  { Api a("ReleaseCpuMemory"); for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c); }
  f = Take();
  CheckFigures(f, "after flushing the CPU caches");
  if (f.cpu) Violation("accounting", "cpu-flushed", "all CPU caches were flushed but %zu bytes are reported in them", f.cpu);
  FreeEverything();
  f = Take();
  CheckFigures(f, "after freeing everything");
}
static const Plugin kC05 = {"C05", ConfC05, GenC05, nullptr, nullptr, QuietC05, EndC05, nullptr};
static Reg r05(&kC05);

// ------------------------------------------------------------- C06
static size_t cpu_limit, cpu_limit0, thread_limit, first_system, first_reserved;
static size_t Reserved() {
  size_t n = 0;
  for (auto& m : os::AllMappings()) if (!m.foreign) n += m.end - m.start;
  return n;
}
static void ConfC06(Rng& r) {
  cfg.sampling = r.Below(5) == 0 ? 1 << (12 + r.Below(8)) : 0;
  cfg.phases = 4 + r.Below(4);
  cfg.ops_per_thread = 6 + r.Below(20);
  cfg.max_live = 64 << 20;
  cfg.regions = false;
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
  cpu_limit = r.Below(3) ? 0 : (size_t)65536 << r.Below(7);
  thread_limit = r.Below(3) ? 0 : (size_t)(512 << 10) << r.Below(5);
}
static void StartC06() {
  Api a("limits");
  cpu_limit0 = MallocExtension::GetMaxPerCpuCacheSize();
  if (cpu_limit) MallocExtension::SetMaxPerCpuCacheSize(cpu_limit);
  if (thread_limit) MallocExtension::SetMaxTotalThreadCacheBytes(thread_limit);
}
static void GenC06(Rng& r) {
  int phases = cfg.phases;
  cfg.phases = 1;
  GenerateMix(r, {{O_ALLOC, 18}, {O_FREE, 14}, {O_BURST_ALLOC, 10}, {O_BURST_FREE, 8}, {O_REALLOC, 3}, {O_PINGPONG, 5}, {O_MIGRATE, 3},
                  {O_IDLE, 0.7}, {O_CHURN, 3}, {O_RELEASE_CPU, 1}, {O_CPUSET, 1}, {O_RELEASE, 0.5}, {O_SLEEP, cfg.background ? 1.5 : 0.05}});
  cfg.phases = phases;
  int n = sh->n_ops;
  for (int ph = 1; ph < phases; ++ph)
    for (int i = 0; i < n; ++i) {
      Op o = sh->ops[i];
      // threads take turns at the same work
      if (cfg.threads > 1) o.tid = 1 + (o.tid - 1 + ph) % cfg.threads;
      Emit(o.tid, ph, o.kind, o.a[0], o.a[1], o.a[2], o.a[3]);
    }
  for (int ph = 0; ph < phases; ++ph)
    for (int t = 1; t <= cfg.threads; ++t) Emit(t, ph, O_FREEALL, r.Below(2), r.Below(64));
}
static void CheckLimits(const Figures& f) {
  // per-CPU capacity is handed out when the caches start; later limits only steer stealing
  if (f.cpu > (size_t)cfg.ncpu * cpu_limit0)
    Violation("capacity-limit", "cpu", "CPU caches hold %zu bytes, %d CPUs started with %zu bytes of capacity each", f.cpu, cfg.ncpu, cpu_limit0);
  if (thread_limit && f.thread > thread_limit + (size_t)n_fibers * (512 << 10) + (1 << 20))
    Violation("capacity-limit", "thread", "thread caches hold %zu bytes, the limit is %zu", f.thread, thread_limit);
}
static void QuietC06(int ph) {
  Quiesce();
  NoSwitch ns;
  VerifyAll("at a quiet point");
  FreeEverything();
  Figures f = Take();
  CheckFigures(f, "after a round of work was freed");
  CheckLimits(f);
  size_t res = Reserved();
  if (ph <= 1) { first_system = std::max(first_system, f.system()); first_reserved = std::max(first_reserved, res); }
  else {
    if (f.system() > 2 * first_system + (96u << 20))
      Violation("growth", "heap", "round %d of the same work needed %zu bytes of heap, the first rounds %zu (%s)", ph, f.system(), first_system, Text(f).c_str());
    if (res > 2 * first_reserved + (3ull << 30))
      Violation("growth", "address-space", "round %d of the same work: %zu bytes of address space reserved, the first rounds %zu", ph, res, first_reserved);
    SIM_PROBE("later_round_checked");
  }
}
// Lets background maintenance run for up to so many periods, until the caches it drains are empty.
static int Drain(int periods) {
  bool was;
  int64_t iv;
  {
    Api a("drain");
    was = MallocExtension::GetBackgroundProcessActionsEnabled();
    iv = absl::ToInt64Nanoseconds(MallocExtension::GetBackgroundProcessSleepInterval());
    MallocExtension::SetBackgroundProcessActionsEnabled(true);
    MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)0);
  }
  StartBackground();
  int n = 0;
  for (; n < periods; ++n) {
    SleepNs(iv);
    NoSwitch ns;
    // maintenance itself allocates a little
    if (n % 5 == 4 && Take().cached() < (size_t)1 << 20) break;
  }
  StopBackground();
  { Api a("drain"); MallocExtension::SetBackgroundProcessActionsEnabled(was); }
  return n;
}
static void EndC06() {
  sc.cpu_allowed = ~0ull;
  FreeEverything();
  { Api a("flush"); MallocExtension::MarkThreadIdle(); }
  Figures f;
  {
    NoSwitch ns;
    f = Take();
    if (f.thread) Violation("leak", "thread-cache", "every other thread is gone and this one is idle, but %zu bytes are in thread caches", f.thread);
    { Api a("ReleaseCpuMemory"); for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c); }
    f = Take();
    if (f.cpu) Violation("leak", "cpu-cache", "every CPU's cache was flushed but %zu bytes are still in them", f.cpu);
  }
  sc.ns_per_step_num = 1;
  int periods = Drain(100);
  NoSwitch ns;
  f = Take();
  if (f.cached() > (size_t)3 << 20)
    Violation("leak", "maintenance", "nothing is in use, yet after %d maintenance periods the caches still hold %zu bytes (%s)", periods, f.cached(), Text(f).c_str());
  {
    Api a("flush");
    MallocExtension::MarkThreadIdle();
    for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c);
    for (int i = 0; i < 6; ++i) InstPlunder();
  }
  f = Take();
  if (f.in_use || f.cached())
    Violation("leak", "after-flush", "everything was freed and every cache flushed, yet memory is not back in the page heap after %d periods (%s)", periods, Text(f).c_str());
  { Api a("release"); MallocExtension::ReleaseMemoryToSystem((size_t)1 << 44); }
  f = Take();
  if (f.free)
    Violation("leak", "not-releasable", "nothing is in use but %zu free bytes were not given back to the system (%s)", f.free, Text(f).c_str());
  SIM_PROBE("drained_to_zero");
}
static const Plugin kC06 = {"C06", ConfC06, GenC06, StartC06, nullptr, QuietC06, EndC06, nullptr};
static Reg r06(&kC06);
}  // namespace world
