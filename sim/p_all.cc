// C12: every operation completes.  Everything at once: all public operations, among them callbacks of the application
// that call back into the allocator, on schedules that concentrate on what happens around locks.
#include <stdio.h>
#include <string.h>

#include "absl/time/time.h"
#include "acct.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/malloc_tracing_extension.h"

using tcmalloc::MallocExtension;
using tcmalloc::MallocHook;
using tcmalloc::Profile;
using tcmalloc::ProfileType;

namespace world {
namespace {
// ---- memory the callbacks hold: neither thread knows the other's
struct Held1 { void* p; size_t n; unsigned char c; };
struct Stash { Held1 h[16]; int n; int depth; uint64_t x; int quota; };
Stash stash[kMaxFibers];
unsigned hook_acts;                 // what callbacks do, by bit

void CheckLocks(const char* where) {
  // The lock that serialises background work is none any call needs.
  if (cur->held_locks > (cur->id == bg_fiber)) Violation("hang", "callback-locked", "%s runs while the thread holds a lock of the allocator", where);
}
void DropOne(Stash& s) {
  if (!s.n) return;
  Held1 h = s.h[--s.n];
  for (size_t i = 0; i < h.n; i += 1 + h.n / 4)
    if (((unsigned char*)h.p)[i] != h.c) Violation("memory", "callback-block", "a block held by a callback changed");
  if (h.c & 1) TCMallocInternalFree(h.p);
  else TCMallocInternalFreeSized(h.p, h.n);
}
// Something an application may do wherever the allocator calls it back.
void CallBackIn(const char* where) {
  CheckLocks(where);
  Stash& s = stash[cur->id];
  if (s.depth || s.quota-- <= 0) return;
  s.depth++;
  sh->allocs++;
  SIM_PROBE(where);
  s.x = s.x * 6364136223846793005ull + 1442695040888963407ull + cur->id;
  uint64_t v = s.x >> 33;
  static const size_t sizes[] = {8, 64, 700, 3000, 20000, 300000, 1 << 20, 24};
  if (hook_acts & 1) {
    size_t n = sizes[v & 7];
    void* p = TCMallocInternalMalloc(n);
    if (p) {
      unsigned char c = v >> 8;
      memset(p, c, n < 4096 ? n : 4096);
      if (n > 4096) for (size_t i = 0; i < n; i += 1 + n / 4) ((unsigned char*)p)[i] = c;
      s.h[s.n++] = {p, n, c};
    }
    if (s.n >= 14 || (v & 0x3000) == 0) { DropOne(s); DropOne(s); }
  }
  if ((hook_acts & 2) && (v & 0xc000) == 0) (void)MallocExtension::GetOwnership(s.n ? s.h[0].p : (void*)&s);
  if ((hook_acts & 4) && (v & 0x70000) == 0) (void)MallocExtension::GetNumericProperty("generic.current_allocated_bytes");
  if ((hook_acts & 8) && (v & 0x780000) == 0) MallocExtension::ReleaseMemoryToSystem(1 << (v & 15));
  if ((hook_acts & 16) && (v & 0x780000) == 0x80000) (void)MallocExtension::ReleaseCpuMemory(v % cfg.ncpu);
  if ((hook_acts & 32) && (v & 0x780000) == 0x100000) {
    auto p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
    p.Iterate([](const Profile::Sample&) {});
  }
  s.depth--;
}

// ---- hooks
template <int I> void New_(const MallocHook::NewInfo&) { CallBackIn("new hook called back"); }
template <int I> void Del_(const MallocHook::DeleteInfo&) { CallBackIn("delete hook called back"); }
template <int I> void SDel_(const MallocHook::SampledAlloc&) { CallBackIn("sampled-delete hook called back"); }
template <int I> void SNew_(const MallocHook::SampledAlloc&) {
  CallBackIn("sampled-new hook called back");
  if (I == 2) { (void)MallocHook::RemoveSampledNewHook(SNew_<2>); (void)MallocHook::AddSampledNewHook(SNew_<1>); }
}
const MallocHook::NewHook nf[] = {New_<0>, New_<1>, New_<2>};
const MallocHook::DeleteHook df[] = {Del_<0>, Del_<1>, Del_<2>};
const MallocHook::SampledNewHook snf[] = {SNew_<0>, SNew_<1>, SNew_<2>};
const MallocHook::SampledDeleteHook sdf[] = {SDel_<0>, SDel_<1>, SDel_<2>};

void HookOp(uint64_t v) {
  int i = v % 3, k = v / 3 % 4;
  bool add = v / 12 % 5 < 2;
  Api a("change hooks");
  if (k == 0) (void)(add ? MallocHook::AddNewHook(nf[i]) : MallocHook::RemoveNewHook(nf[i]));
  else if (k == 1) (void)(add ? MallocHook::AddDeleteHook(df[i]) : MallocHook::RemoveDeleteHook(df[i]));
  else if (k == 2) (void)(add ? MallocHook::AddSampledNewHook(snf[i]) : MallocHook::RemoveSampledNewHook(snf[i]));
  else (void)(add ? MallocHook::AddSampledDeleteHook(sdf[i]) : MallocHook::RemoveSampledDeleteHook(sdf[i]));
  if (add) SIM_PROBE("hook added");
}

// ---- profiles and sessions
void Walk(const Profile& p, uint64_t v) {
  Api a("Profile::Iterate");
  uint64_t n = 0;
  p.Iterate([&](const Profile::Sample& s) {
    if (s.depth < 0 || s.depth > Profile::Sample::kMaxStackDepth) Violation("profile", "depth", "a sample with a stack of %d frames", s.depth);
    if (v & 1 && (n++ & 7) < 3) CallBackIn("profile callback called back");
  });
}
MallocExtension::AllocationProfilingToken Open(int k) {
  if (k == 0) return MallocExtension::StartAllocationProfiling();
  if (k == 1) return MallocExtension::StartLifetimeProfiling();
  return MallocExtension::StartEventTracing();
}
constexpr int kSlots = 6;
struct Slot { int state; MallocExtension::AllocationProfilingToken t; };
Slot* slots;
void SessionOp(uint64_t v) {
  Slot& s = slots[v % kSlots];
  int st;
  { NoSwitch ns; st = s.state; if (st != 1) s.state = 1; }
  if (st == 1) return;
  if (st == 0) {
    Api a("start profiling");
    s.t = Open(v / kSlots % 3);
    SIM_PROBE("session started");
  } else if (v / 64 % 4 == 0) {
    Api a("drop profiling");
    s.t = MallocExtension::AllocationProfilingToken();
    SIM_PROBE("session dropped");
  } else {
    Profile p;
    { Api a("stop profiling"); p = std::move(s.t).Stop(); }
    Walk(p, v / 256);
    SIM_PROBE("session stopped");
  }
  NoSwitch ns;
  s.state = st == 0 ? 2 : 0;
}
Profile* kept[3];
void SnapshotOp(uint64_t v) {
  auto* p = new (HostAlloc(sizeof(Profile), 16)) Profile();
  { Api a("SnapshotCurrent"); *p = MallocExtension::SnapshotCurrent(v & 1 ? ProfileType::kHeap : ProfileType::kPeakHeap); }
  Walk(*p, v / 2);
  { NoSwitch ns; std::swap(kept[v / 4 % 3], p); }        // some profiles outlive a good deal
  if (p) { Api a("drop profile"); p->~Profile(); }
}

// ---- the provider of address space
struct Passer : tcmalloc::AddressRegionFactory {
  tcmalloc::AddressRegionFactory* inner;
  explicit Passer(tcmalloc::AddressRegionFactory* f) : inner(f) {}
  tcmalloc::AddressRegion* Create(void* start, size_t size, UsageHint hint) override { return inner->Create(start, size, hint); }
  size_t GetStats(absl::Span<char> b) override { return inner->GetStats(b); }
  size_t GetStatsInPbtxt(absl::Span<char> b) override { return inner->GetStatsInPbtxt(b); }
};
tcmalloc::AddressRegionFactory* factories[3];

void ReportOp(uint64_t v) {
  switch (v % 8) {
    case 0: case 1: case 2: {
      // A short buffer does not make a report shorter work; its end is cut off.
      char b[512];
      Api a("numeric property");
      static const char* const names[] = {"generic.current_allocated_bytes", "generic.heap_size", "generic.physical_memory_used",
        "generic.virtual_memory_used", "generic.bytes_in_use_by_app", "tcmalloc.pageheap_free_bytes", "tcmalloc.pageheap_unmapped_bytes",
        "tcmalloc.max_total_thread_cache_bytes", "tcmalloc.current_total_thread_cache_bytes", "tcmalloc.cpu_free", "tcmalloc.sharded_transfer_cache_free",
        "tcmalloc.per_cpu_caches_active", "tcmalloc.sampled_internal_fragmentation", "tcmalloc.slack_bytes", "tcmalloc.required_bytes",
        "tcmalloc.desired_usage_limit_bytes", "tcmalloc.hard_usage_limit_bytes", "tcmalloc.successful_shrinks_after_soft_limit_hit",
        "tcmalloc.num_released_soft_limit_bytes", "tcmalloc.no_such_property", "generic.peak_memory_usage", "generic.realized_fragmentation"};
      (void)b;
      (void)MallocExtension::GetNumericProperty(names[v / 8 % (sizeof names / sizeof *names)]);
      return;
    }
    case 3: { Api a("mallinfo"); (void)TCMallocInternalMallInfo(); (void)TCMallocInternalMallInfo2(); return; }
    case 4: { Api a("malloc_trim"); TCMallocInternalMallocTrim(0); TCMallocInternalMallOpt(1, 2); return; }
    case 5: {
      Api a("GetAllocatedAddressRanges");
      (void)tcmalloc::malloc_tracing_extension::GetAllocatedAddressRanges();
      return;
    }
    case 6: { Api a("GetProperties"); (void)MallocExtension::GetProperties(); return; }
    case 7: {
#ifdef NDEBUG
      Api a("GetStats");
      (void)MallocExtension::GetStats();
#endif
      return;
    }
  }
}
void TuneOp(uint64_t v) {
  uint64_t w = v / 16;
  Api a("tune");
  switch (v % 11) {
    case 0: { static const int64_t iv[] = {0, 1, 512, 16384, 1 << 20}; MallocExtension::SetProfileSamplingInterval(iv[w % 5]); break; }
    case 1: { static const int64_t iv[] = {-1, 0, 1, 4096}; if (cfg.guarded >= 0) MallocExtension::SetGuardedSamplingInterval(iv[w % 4]); break; }
    case 2: MallocExtension::SetMemoryLimit(w % 3 ? SIZE_MAX : (size_t)(w / 3 % 96) << 20, MallocExtension::LimitKind::kSoft); break;
    case 3: (void)MallocExtension::GetMemoryLimit(w & 1 ? MallocExtension::LimitKind::kSoft : MallocExtension::LimitKind::kHard); break;
    case 4: (void)MallocExtension::GetRegionFactory(); if (factories[w % 3]) MallocExtension::SetRegionFactory(factories[w % 3]); break;
    case 5: MallocExtension::SetBackgroundProcessSleepInterval(absl::Milliseconds(100 + w % 3000)); break;
    case 6: (void)MallocExtension::GetMaxPerCpuCacheSize(); (void)MallocExtension::GetMaxTotalThreadCacheBytes(); break;
    case 7: (void)MallocExtension::GetSkipSubreleaseShortInterval(); (void)MallocExtension::GetSkipSubreleaseLongInterval(); break;
    case 8: (void)MallocExtension::PerCpuCachesActive(); (void)MallocExtension::GetBackgroundProcessSleepInterval(); break;
    case 9: (void)MallocExtension::GetProfileSamplingInterval(); (void)MallocExtension::GetGuardedSamplingInterval(); break;
    case 10: (void)MallocExtension::GetEstimatedAllocatedSize(w % 400000); (void)MallocExtension::GetBackgroundReleaseRate(); break;
  }
}

void OnApi(Fiber* f, bool begin) {
  stash[f->id].quota = 60;
  if (f->held_locks) Violation("hang", begin ? "callback-locked" : "lock-kept", "%s with %d locks of the allocator held by the thread", begin ? "an operation begins" : "an operation ended", f->held_locks);
}
bool wild;
void Conf(Rng& r) {
  cfg.sampling = r.Below(4) == 0 ? 0 : 1ll << (r.Below(3) ? 8 + r.Below(8) : r.Below(20));
  cfg.guarded = cfg.sampling && r.Below(3) == 0 ? 0 : -1;
  cfg.threads = 2 + r.Below(5);
  cfg.phases = 1 + r.Below(2);
  cfg.ops_per_thread = 8 + r.Below(30);
  cfg.max_live = 64 << 20;
  cfg.first_use_race = r.Below(6) == 0;
  static const double pl[] = {0, 0, 0.03, 0.2, 0.6};
  sc.p_lock = pl[r.Below(5)];
  if (sc.p_lock > 0 && r.Below(2)) sc.quantum = 2000 << r.Below(5);   // hardly any other switches
  sc.max_steps = 1500000000;
  sc.max_op_steps = 20000000;
  if (r.Below(3) == 0 && !cfg.first_use_race) { cfg.background = true; sc.ns_per_step_num = 20000; }
  hook_acts = r.Below(3) ? 1 | r.Below(64) : 1;
  wild = r.Below(2);
#ifdef NDEBUG
  if (r.Below(3) == 0) {
    double l = r.Below(2) ? 0.02 : 0.25;
    if (r.Below(2)) fault_rate[F_MADV_DONTNEED] = l;
    if (r.Below(2)) fault_rate[F_MADV_OTHER] = l;
    if (r.Below(3) == 0) fault_rate[F_MMAP] = l;
    if (r.Below(3) == 0 && cfg.guarded >= 0) fault_rate[F_MPROTECT] = l;
  }
#endif
  if (r.Below(3) == 0) fault_rate[F_SLEEP_OVERSHOOT] = 0.3;
  if (r.Below(5) == 0) fault_rate[F_CLOCK_JUMP] = 0.02;
}
void Gen(Rng& r) {
  double w = wild ? 4 : 1;
  GenerateMix(r, {{O_ALLOC, 16}, {O_FREE, 14}, {O_BURST_ALLOC, 5}, {O_BURST_FREE, 6}, {O_REALLOC, 3}, {O_PINGPONG, 3}, {O_RELEASE, 1.5 * w},
                  {O_RELEASE_CPU, 1.5 * w}, {O_MIGRATE, 1.5}, {O_IDLE, 1}, {O_PARAM, 1.5 * w}, {O_CHURN, 1.2}, {O_CPUSET, cfg.background ? 0.5 : 0.2},
                  {O_UNIT, 8 * w}, {O_STALL, 0.5}, {O_SLEEP, cfg.background ? 1.5 : 0.2}, {O_QUERY, 1}});
  bool reports = r.Below(3) == 0;
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind != O_UNIT) continue;
    uint64_t k = (uint64_t)o.a[0] % 100;
    o.a[0] = k < 30 ? 0 : k < 48 ? 1 : k < 62 ? 2 : k < 80 ? 3 : 4;
    if (o.a[0] == 3 && !reports) { uint64_t x = (uint64_t)o.a[1]; o.a[1] = x - x % 8 + x / 8 % 6; }
    if (o.a[0] == 3 && reports && o.a[1] % 8 >= 6 && o.a[2] % 4) o.a[1] -= 4;
  }
}
void Start() {
  on_api = OnApi;
  { NoSwitch ns; slots = new Slot[kSlots](); }
  Api a("GetRegionFactory");
  factories[0] = MallocExtension::GetRegionFactory();
  if (factories[0]) {
    factories[1] = new (HostAlloc(sizeof(Passer), 16)) Passer(factories[0]);
    factories[2] = new (HostAlloc(sizeof(Passer), 16)) Passer(factories[1]);
  }
}
bool DoOp(const Op& o) {
  if (o.kind != O_UNIT) return false;
  sh->allocs++;
  uint64_t v = o.a[1];
  switch (o.a[0]) {
    case 0: HookOp(v); break;
    case 1: SessionOp(v); break;
    case 2: SnapshotOp(v); break;
    case 3: ReportOp(v); break;
    default: TuneOp(v);
  }
  return true;
}
void Quiet(int phase) {
  BaseQuiet(phase);
  Quiesce();
  NoSwitch ns;
  for (int k = 0; k < n_fibers; ++k)
    if (fibers[k]->held_locks) Violation("hang", "lock-kept", "t%d rests between operations with %d locks of the allocator held", k, fibers[k]->held_locks);
}
void End() {
  for (int i = 0; i < 36; ++i) HookOp(i % 12 + 12 * 2);
  for (int i = 0; i < kSlots; ++i) if (slots[i].state == 2) SessionOp(i + 64);
  for (auto& p : kept) if (p) { Api a("drop profile"); p->~Profile(); p = nullptr; }
  for (int i = 0; i < n_fibers; ++i) { Api a("callback's blocks"); while (stash[i].n) DropOne(stash[i]); }
  { Api a("limit"); MallocExtension::SetMemoryLimit(SIZE_MAX, MallocExtension::LimitKind::kSoft); }
  FreeEverything();
}
const Plugin kC12 = {"C12", Conf, Gen, Start, DoOp, Quiet, End, nullptr};
Reg r12(&kC12);
}  // namespace
}  // namespace world
