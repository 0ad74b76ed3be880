// C07 limits, C08 release to the system, C17 background maintenance.
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>

#include <set>

#include "acct.h"
#include "tcmalloc/internal/parameter_accessors.h"

using tcmalloc::MallocExtension;

namespace world {
static constexpr size_t kNone = SIZE_MAX;

// ------------------------------------------------------------- C07
static size_t lim[2] = {kNone, kNone};  // soft, hard
static size_t min_meta = kNone;
static size_t prev_hard;                 // while the limit is being changed
static bool ReleasesMayFail() {
  return fault_rate[F_MADV_DONTNEED] > 0;
}
static bool SingleThread() { return cfg.threads == 1 && !cfg.background; }

static void ConfC07(Rng& r) {
  lim[0] = lim[1] = kNone;
  min_meta = kNone;
  prev_hard = 0;
  cfg.sampling = r.Below(4) == 0 ? 1 << (12 + r.Below(8)) : 0;
  if (r.Below(2)) cfg.threads = 1;
  cfg.size_mode = r.Below(3) ? 2 : r.Below(4);
  cfg.phases = 2 + r.Below(3);
  cfg.ops_per_thread = cfg.threads == 1 ? 30 + r.Below(60) : 8 + r.Below(25);
  if (cfg.threads > 1 && r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
#ifdef NDEBUG
  if (r.Below(4) == 0) fault_rate[F_MADV_DONTNEED] = r.Below(2) ? 0.05 : 0.5;
#endif
}
static void GenC07(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 22}, {O_FREE, 20}, {O_BURST_ALLOC, 6}, {O_BURST_FREE, 8}, {O_REALLOC, 3}, {O_LIMIT, 6},
                  {O_RELEASE, 1}, {O_RELEASE_CPU, 1}, {O_MIGRATE, 0.5}, {O_PARAM, 0.5}, {O_SLEEP, cfg.background ? 1.0 : 0.05}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind == O_LIMIT && o.tid != 1) o.kind = O_VERIFY, o.a[1] = 3;
    if (o.kind == O_PARAM && o.a[0] % 16 == 13) o.a[0]++;
  }
}
static void SetLimit(int kind, size_t v) {
  size_t got_s, got_h;
  size_t meta = InstBackingLocked().metadata;
  {
    NoSwitch ns;
    prev_hard = lim[1];
    lim[kind] = v;
    if (lim[1] < lim[0]) lim[0] = lim[1];
    min_meta = meta;
  }
  {
    Api a("SetMemoryLimit");
    MallocExtension::SetMemoryLimit(v, kind ? MallocExtension::LimitKind::kHard : MallocExtension::LimitKind::kSoft);
    got_s = MallocExtension::GetMemoryLimit(MallocExtension::LimitKind::kSoft);
    got_h = MallocExtension::GetMemoryLimit(MallocExtension::LimitKind::kHard);
  }
  prev_hard = 0;
  SIM_PROBE("limit_set");
  if (got_s != lim[0] || got_h != lim[1])
    Violation("limit", "read-back", "after setting the %s limit to %zu the limits read soft %zu hard %zu, expected %zu and %zu",
              kind ? "hard" : "soft", v, got_s, got_h, lim[0], lim[1]);
}
static size_t Backed(const Figures& f) { return f.system() - f.unmapped; }
static size_t Backed(const InstBackingStats& f) { return f.system - f.unmapped; }
static std::string Text(const InstBackingStats& f) {
  char b[200];
  snprintf(b, sizeof b, "system %zu, free %zu, unmapped %zu, metadata %zu", f.system, f.free, f.unmapped, f.metadata);
  return b;
}
// Free memory that may lie on partly used hugepages of a region, which gives back whole hugepages only.  Regions hold
// large allocations only, so such hugepages carry an end of one.
static size_t RegionSlack(size_t n = 0) {
  constexpr uintptr_t kHuge = 2 << 20;
  std::set<uintptr_t> ends;
  for (auto& [p, b] : live) {
    if (b.cap < kHuge / 2) continue;
    ends.insert(p / kHuge * kHuge);
    ends.insert((p + b.cap - 1) / kHuge * kHuge);
  }
  for (uintptr_t h : ends) {
    size_t used = 0;
    auto it = live.upper_bound(h);
    if (it != live.begin()) --it;
    for (; it != live.end() && it->first < h + kHuge; ++it) {
      uintptr_t a = std::max(it->first, h), e = std::min(it->first + PageUp(it->second.cap), h + kHuge);
      if (e > a) used += e - a;
    }
    n += kHuge - std::min<size_t>(used, kHuge);
  }
  return n;
}
static bool OpC07(const Op& o) {
  if (o.kind == O_LIMIT) {
    size_t backed, free;
    { InstBackingStats f = InstBackingLocked(); backed = Backed(f) + f.metadata; free = f.free; }
    Rng r(o.a[1]);
    size_t v;
    int kind = o.a[0];
    switch (r.Below(kind ? 6 : 7)) {
      case 0: v = !kind && lim[1] < kNone ? lim[1] - r.Below(8 << 20) : kNone; break;
      case 1: v = backed + (r.Below(64) << 20); break;
      case 2: v = backed - free / 2; break;
      case 3: v = backed - free + (4 << 20) + r.Below(16 << 20); break;
      case 4: v = backed + r.Below(4 << 20); break;
      case 5: v = backed + ((size_t)8 << 20); break;
      default: v = r.Below(backed); break;
    }
    Log("limit %s := %zu (backed %zu free %zu)", kind ? "hard" : "soft", v, backed, free);
    SetLimit(kind, v);
    if (SingleThread()) {
      NoSwitch ns;
      InstBackingStats f = InstBacking();
      if (lim[1] < kNone && Backed(f) + min_meta > lim[1])
        Violation("limit", "set-hard", "%zu bytes are backed after a hard limit of %zu was set (%s)", Backed(f) + f.metadata, lim[1], Text(f).c_str());
    }
    return true;
  }
  if (!SingleThread()) return false;
  NoSwitch ns;  // nobody else runs anyway
  InstBackingStats f0 = InstBacking();
  uint64_t mf = sh->fault_fired[F_MADV_DONTNEED];
  cur->no_switch--;
  bool done = o.kind == O_BURST_ALLOC ? false : BaseOp(o);
  cur->no_switch++;
  if (!done) return false;
  InstBackingStats f1 = InstBacking();
  min_meta = std::min(min_meta, f1.metadata);
  if (Backed(f1) > Backed(f0)) {
    if (lim[1] < kNone) {
      SIM_PROBE("grew_under_hard_limit");
      if (Backed(f1) + f0.metadata > lim[1] && sh->fault_fired[F_MADV_DONTNEED] == mf)
        Violation("limit", "hard-exceeded", "an allocation was granted and leaves %zu bytes backed, the hard limit is %zu (%s)",
                  Backed(f1) + f1.metadata, lim[1], Text(f1).c_str());
    }
    if (lim[0] < kNone && Backed(f1) + f0.metadata > lim[0] && sh->fault_fired[F_MADV_DONTNEED] == mf) {
      SIM_PROBE("grew_over_soft_limit");
      // whatever could be released has been
      if (f1.free > 0 && o.kind == O_ALLOC && f1.free > RegionSlack())
        Violation("limit", "soft-ignored", "%zu bytes are backed, above the soft limit of %zu, while %zu free bytes were not released (%s)",
                  Backed(f1) + f1.metadata, lim[0], f1.free, Text(f1).c_str());
    }
  }
  return true;
}
static void QuietC07(int) {
  Quiesce();
  NoSwitch ns;
  VerifyAll("at a quiet point");
  InstBackingStats f = InstBacking();
  min_meta = std::min(min_meta, f.metadata);
  if (lim[1] < kNone && !ReleasesMayFail()) {
    SIM_PROBE("quiet_under_hard_limit");
    if (Backed(f) + min_meta > lim[1])
      Violation("limit", "hard-exceeded-quiet", "at a quiet point %zu bytes are backed, the hard limit is %zu (%s)", Backed(f) + f.metadata, lim[1], Text(f).c_str());
    uint64_t res = os::BackedBytes(0x1000000000ull, 0x7c0000000000ull);
    if (res > lim[1] + f.metadata + (16 << 20))
      Violation("limit", "hard-exceeded-os", "at a quiet point %zu bytes are resident, the hard limit is %zu (%s)", (size_t)res, lim[1], Text(f).c_str());
  }
}
static bool CrashC07(const char* kind, const char* text, uintptr_t) {
  const char* p = strstr(text, "Hit hard tcmalloc heap limit of ");
  if (!p) return false;
  size_t n = strtoull(p + 32, nullptr, 10);
  InstBackingStats s = InstBacking();
  size_t backed = s.system - s.unmapped + s.metadata;
  if (n != lim[1] && n != prev_hard) Violation("limit", "wrong-limit", "the process was ended for a hard limit of %zu, but %zu is set", n, lim[1]);
  if (backed <= n) Violation("limit", "needless-end", "the process was ended at %zu backed bytes, below its hard limit of %zu", backed, n);
  if (SingleThread() && !ReleasesMayFail() && s.subrelease && backed - std::min(backed, s.free - std::min(s.free, RegionSlack((size_t)4 << 20))) <= n)
    Violation("limit", "releasable", "the process was ended at %zu backed bytes (hard limit %zu) although %zu of them were free and could have been released", backed, n, s.free);
  SIM_PROBE("hard_limit_ended_process");
  return true;
}
static const Plugin kC07 = {"C07", ConfC07, GenC07, nullptr, OpC07, QuietC07, nullptr, CrashC07};
static Reg r07(&kC07);

// ------------------------------------------------------------- C08
static std::set<uintptr_t> accepted;     // pages (4K) the system took back since the set was cleared
static uint64_t given_back;
static bool advice_run;
// The allocator then trusts a residency snapshot taken without its locks, which can be out of date (noted in the code).
static bool unbacked_subrelease;
static void OnReleaseC08(uintptr_t p, size_t n, bool ok) {
  if (!ok || Tag(p) == 3 || p >= 0x7c0000000000ull) return;
  given_back += n;
  for (uintptr_t q = p; q < p + n; q += 4096) accepted.insert(q);
}
struct Released { size_t total, api, bg, soft, hard; };
static Released TakeReleased() {
  std::map<std::string, MallocExtension::Property> m;
  Released r;
  Api a("GetProperties");
  auto props = MallocExtension::GetProperties();
  auto get = [&](const char* k) { auto it = props.find(k); return it == props.end() ? (size_t)0 : it->second.value; };
  r.total = get("tcmalloc.num_released_total_bytes");
  r.api = get("tcmalloc.num_released_release_memory_to_system_bytes");
  r.bg = get("tcmalloc.num_released_process_background_actions_bytes");
  r.soft = get("tcmalloc.num_released_soft_limit_exceeded_bytes");
  r.hard = get("tcmalloc.num_released_hard_limit_exceeded_bytes");
  return r;
}
static void ConfC08(Rng& r) {
  accepted.clear();
  given_back = 0;
  cfg.sampling = r.Below(4) == 0 ? 1 << (12 + r.Below(8)) : 0;
  cfg.size_mode = r.Below(3) ? 2 + r.Below(2) : r.Below(4);
  cfg.phases = 2 + r.Below(4);
  cfg.ops_per_thread = 8 + r.Below(30);
  cfg.deep_fill = r.Below(3) == 0;
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
#ifdef NDEBUG
  if (r.Below(2)) fault_rate[F_MADV_DONTNEED] = r.Below(2) ? 0.05 : 0.5;
  if (r.Below(3) == 0) fault_rate[F_MADV_OTHER] = 0.3;
  if (r.Below(4) == 0) fault_rate[F_MINCORE] = 0.3;
#endif
  advice_run = r.Below(5) == 0;
  cfg.regions = r.Below(3) == 0;
  unbacked_subrelease = false;
  for (auto& e : cfg.env) if (e.find("SUBRELEASE_UNBACKED_PAGES") != std::string::npos) unbacked_subrelease = true;
}
static void GenC08(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 20}, {O_FREE, 20}, {O_BURST_ALLOC, 8}, {O_BURST_FREE, 10}, {O_REALLOC, 3}, {O_RELEASE, 5}, {O_TOUCH, 2},
                  {O_RELEASE_CPU, 1}, {O_MIGRATE, 0.5}, {O_PARAM, 1}, {O_LIMIT, 1}, {O_CHURN, 0.5}, {O_SLEEP, cfg.background ? 1.0 : 0.05}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind == O_PARAM && o.a[0] % 16 == 13 && !advice_run) o.a[0]++;
  }
}
static bool OpC08(const Op& o) {
  if (o.kind != O_LIMIT) return false;
  size_t backed;
  { InstBackingStats f = InstBackingLocked(); backed = Backed(f) + f.metadata; }
  Api a("SetMemoryLimit");
  MallocExtension::SetMemoryLimit(o.a[1] % 3 ? backed * (o.a[1] % 7) / 6 + 1 : kNone, MallocExtension::LimitKind::kSoft);
  return true;
}
static void ReleaseAndCheck(size_t n, const char* when) {
  Released r0 = TakeReleased();
  Figures f0 = Take();
  accepted.clear();
  { Api a("ReleaseMemoryToSystem"); MallocExtension::ReleaseMemoryToSystem(n); }
  Figures f1 = Take();
  Released r1 = TakeReleased();
  size_t took = accepted.size() * 4096;
  if (!advice_run && f1.unmapped - f0.unmapped != took)
    Violation("release", "unmapped-delta", "%s: ReleaseMemoryToSystem(%zu) gave back %zu bytes, but the unmapped figure moved from %zu to %zu", when, n, took, f0.unmapped, f1.unmapped);
  if (f0.free - f1.free != f1.unmapped - f0.unmapped)
    Violation("release", "free-delta", "%s: ReleaseMemoryToSystem(%zu): free %zu -> %zu, unmapped %zu -> %zu", when, n, f0.free, f1.free, f0.unmapped, f1.unmapped);
  if (f0.in_use != f1.in_use || f0.cached() != f1.cached())
    Violation("release", "in-use-moved", "%s: ReleaseMemoryToSystem changed what is in use: %s, then %s", when, Text(f0).c_str(), Text(f1).c_str());
  size_t rel = f1.unmapped - f0.unmapped;
  // memory unmapped earlier without being asked for is accounted for with the next release
  if (r1.api - r0.api < rel || r1.total - r0.total != r1.api - r0.api || r1.bg != r0.bg || r1.soft != r0.soft || r1.hard != r0.hard)
    Violation("release", "release-stats", "%s: %zu bytes were released on request; counters moved by total %zu, requested %zu, background %zu, soft limit %zu, hard limit %zu",
              when, rel, r1.total - r0.total, r1.api - r0.api, r1.bg - r0.bg, r1.soft - r0.soft, r1.hard - r0.hard);
  if (r1.total > given_back && !unbacked_subrelease && !advice_run)
    Violation("release", "overcounted", "%s: %zu bytes are counted as released since start, but the system was only given %zu", when, r1.total, (size_t)given_back);
  SIM_PROBE("release_checked");
  if (rel) SIM_PROBE("release_gave_something_back");
}
static void CheckResident(const char* when) {
  if (advice_run || unbacked_subrelease) return;
  InstBackingStats f = InstBacking();  // (the reported figure also counts metadata given back)
  size_t acc = Accessible(), res = 0;
  for (auto& m : os::AllMappings())
    if (!m.foreign && (m.prot & PROT_WRITE) && Tag(m.start) != 3 && m.start < 0x7c0000000000ull) res += os::BackedBytes(m.start, m.end);
  if (f.unmapped + res > acc)
    Violation("release", "still-resident", "%s: %zu bytes are reported as released, but of %zu accessible bytes %zu are still resident", when, f.unmapped, acc, res);
}
// Nothing fails and everything is asked for, again and again: no wholly free hugepage may stay resident.
static void ReleaseAll(const char* when) {
  for (int i = 0; i < 400; ++i) {
    size_t g0 = given_back;
    { Api a("ReleaseMemoryToSystem"); MallocExtension::ReleaseMemoryToSystem((size_t)1 << 44); }
    if (given_back == g0) break;
  }
  FlushAllCaches();
  for (int i = 0; i < 6; ++i) InstPlunder();
  if (Take().cached()) return;  // (other threads' own caches)
  for (int i = 0; i < 400; ++i) {
    size_t g0 = given_back;
    { Api a("ReleaseMemoryToSystem"); MallocExtension::ReleaseMemoryToSystem((size_t)1 << 44); }
    if (given_back == g0) break;
  }
  if (advice_run || unbacked_subrelease || !TCMalloc_Internal_GetReleasePagesFromHugeRegionEnabled()) return;
  // Regions not asked to give memory back on request do so once, when it is freed.
  for (auto& e : cfg.env) if (e.find("USE_HUGE_REGION_MORE_OFTEN_DISABLE") != std::string::npos && fault_rate[F_MADV_DONTNEED] > 0) return;
  constexpr uintptr_t kHuge = 2 << 20;
  size_t n = 0;
  for (auto& m : os::AllMappings()) {
    if (m.foreign || !(m.prot & PROT_WRITE) || Tag(m.start) == 3 || Tag(m.start) < 2 || m.start >= 0x7c0000000000ull) continue;
    for (uintptr_t h = (m.start + kHuge - 1) & -kHuge; h + kHuge <= m.end; h += kHuge) {
      auto it = live.lower_bound(h + kHuge);
      if (it != live.begin() && std::prev(it)->second.p + PageUp(std::prev(it)->second.cap) > h) continue;
      n++;
      if (os::BackedBytes(h, h + kHuge))
        Violation("release", "free-hugepage-resident", "%s: hugepage %#lx holds no live block, yet %zu bytes of it are resident after everything was asked back", when, h, os::BackedBytes(h, h + kHuge));
    }
  }
  if (n) SIM_PROBE("free_hugepages_checked");
}
static void QuietC08(int ph) {
  Quiesce();
  NoSwitch ns;
  VerifyAll("at a quiet point");
  { Api a("limit"); MallocExtension::SetMemoryLimit(kNone, MallocExtension::LimitKind::kSoft); }
  CheckResident("at a quiet point");
  Rng r(sh->seed * 31 + ph);
  ReleaseAndCheck(r.Below(3) ? r.Below(16 << 20) : r.Below(4096), "at a quiet point");
  ReleaseAndCheck(r.Below(64 << 20), "at a quiet point");
  CheckResident("after a release");
  // without failures a request is met as far as there is whole free memory
  os::no_faults = true;
  ReleaseAndCheck((size_t)1 << 44, "with nothing failing");
  Figures f0 = Take();
  std::vector<uintptr_t> tmp;
  int k = 1 + r.Below(4);
  for (int i = 0; i < k; ++i) {
    AllocSpec s;
    s.size = ((2u << 20) * (1 + r.Below(8))) - (r.Below(2) ? r.Below(8192) : 0);
    if (!Room(s.size)) break;
    Blk* b = Alloc(s);
    if (b) tmp.push_back(b->p);
  }
  for (uintptr_t p : tmp) FreeBlk(p, 0);
  Figures f1 = Take();
  size_t whole = f1.free > f0.free ? f1.free - f0.free : 0;
  whole = whole / (2 << 20) * (2 << 20);
  size_t n = r.Below(3) == 0 ? whole : 1 + r.Below(whole + (4 << 20));
  size_t u0 = f1.unmapped;
  ReleaseAndCheck(n, "with nothing failing");
  Figures f2 = Take();
  if (whole && !advice_run) {
    SIM_PROBE("whole_free_memory_released");
    if (f2.unmapped - u0 < std::min(n, whole))
      Violation("release", "too-little", "ReleaseMemoryToSystem(%zu) released %zu bytes while %zu bytes of whole free hugepages existed", n, f2.unmapped - u0, whole);
  }
  ReleaseAndCheck((size_t)1 << 44, "with nothing failing");
  CheckResident("after releasing everything");
  ReleaseAll("at a quiet point");
  os::no_faults = false;
}
static void StartC08() { os::OnRelease = OnReleaseC08; }
static const Plugin kC08 = {"C08", ConfC08, GenC08, StartC08, OpC08, QuietC08, nullptr, nullptr};
static Reg r08(&kC08);

// ------------------------------------------------------------- C17
static double allowed;            // bytes background release may have given back by now
static int64_t allow_mark;        // ForwardNs up to which `allowed` was brought
static size_t bg_rate_now, bg_os, peak_backed, peak_free;
static int64_t bg_interval, bg_longest;  // the current one; the longest a sleep begun earlier may have used
static uint64_t zero_since_sleeps;   // number of the background thread's sleeps when its rate became zero
static size_t zero_by_bg;
static bool odd_run;
static void AllowUpTo() {
  int64_t t = ForwardNs();
  if (bg_fiber >= 0) allowed += (double)bg_rate_now * (t - allow_mark) / 1e9;
  allow_mark = t;
}
// Within one round, memory that others free while the lock is dropped to give some back is given back as well (the cache is
// shrunk to a size, and counts the surplus towards later rounds): only the first release of a round that others run in counts.
static uint64_t round_id = ~0ull, round_others;
static void OnReleaseC17(uintptr_t p, size_t n, bool ok) {
  if (!ok || Tag(p) == 3 || bg_fiber < 0 || cur->id != bg_fiber) return;
  bg_os += n;
  bool locked = InstPageHeapLocked();
  size_t backed = os::BackedBytes(0x1000000000ull, 0x7c0000000000ull) + n;
  peak_free = std::max(peak_free, locked ? backed : InstFree() + n);
  uint64_t others = 0;
  for (int k = 0; k < n_fibers; ++k)
    if (k != bg_fiber) others += fibers[k]->steps;
  if (round_id != cur->sleeps) { round_id = cur->sleeps; round_others = others; }
  else if (others != round_others) { AllowUpTo(); allowed += n; SIM_PROBE("released_what_others_freed"); }
}
// Free memory beyond this may be given back ahead of the rate when it has been unused for long (it counts towards later
// periods); below it the cache of free hugepages has no such memory.
static constexpr size_t kSteadyCache = 20 << 20;
static void SetRate(size_t rate) {
  zero_since_sleeps = 1ull << 62;
  zero_by_bg = kNone;
  AllowUpTo();
  // the time since the last releases may be paid for at the new rate
  if (bg_fiber >= 0) allowed += (double)rate * (ForwardNs() - fibers[bg_fiber]->sleep_mark[1]) / 1e9;
  bg_rate_now = rate;
  Log("background rate := %zu (allowed %.0f, released %zu)", rate, allowed, bg_os);
  { Api a("SetBackgroundReleaseRate"); MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)rate); }
  size_t got = (size_t)MallocExtension::GetBackgroundReleaseRate();
  if (got != rate) Violation("background", "rate-read-back", "the background release rate was set to %zu and reads %zu", rate, got);
  zero_since_sleeps = bg_fiber >= 0 ? fibers[bg_fiber]->sleeps : 0;
  if (rate) allowed += (2 << 20);  // releases come in whole hugepages
}
static void SetInterval(int64_t ns) {
  bg_interval = ns;
  bg_longest = std::max(bg_longest, ns);
  Api a("SetBackgroundProcessSleepInterval");
  MallocExtension::SetBackgroundProcessSleepInterval(absl::Nanoseconds(ns));
  if (MallocExtension::GetBackgroundProcessSleepInterval() != absl::Nanoseconds(ns))
    Violation("background", "interval-read-back", "the background interval was set to %ld ns and reads otherwise", (long)ns);
}
static void CheckRate(const char* when) {
  if (odd_run || InstOddRelease()) { odd_run = true; return; }
  InstBackingStats f = InstBackingLocked();
  AllowUpTo();
  Log("background released %zu (counted %zu), allowed %.0f", bg_os, f.by_bg, allowed);
  double got = std::min(f.by_bg, bg_os);
  peak_backed = std::max(peak_backed, Backed(f));
  bool steady = peak_backed < kSteadyCache;
  if (steady && f.by_bg) SIM_PROBE("strict_rate_checked");
  if (got > allowed + (6 << 20) + (steady ? 0 : peak_free))
    Violation("background", "too-fast", "%s: background actions gave back %zu bytes (%zu counted); the configured rates allow %.0f (at most %zu bytes were free)", when, bg_os, f.by_bg, allowed, peak_free);
  SIM_PROBE("rate_checked");
  if (f.by_bg) SIM_PROBE("background_released");
  if (bg_rate_now == 0 && bg_fiber >= 0) {
    if (fibers[bg_fiber]->sleeps >= zero_since_sleeps + 2) {
      if (zero_by_bg != kNone && f.by_bg != zero_by_bg)
        Violation("background", "released-at-zero", "%s: with a rate of zero background actions released %zu bytes", when, f.by_bg - zero_by_bg);
      if (zero_by_bg != kNone) SIM_PROBE("zero_rate_checked");
      zero_by_bg = f.by_bg;
    } else zero_by_bg = kNone;
  } else zero_by_bg = kNone;
}
static void ConfC17(Rng& r) {
  allowed = 0; allow_mark = 0; bg_os = 0; peak_backed = 0; peak_free = 0; odd_run = false; zero_by_bg = kNone; zero_since_sleeps = 0; bg_longest = 0; round_id = ~0ull;
  cfg.background = true;
  cfg.size_mode = r.Below(3) ? 2 + r.Below(2) : r.Below(4);
  cfg.phases = 2 + r.Below(3);
  cfg.threads = 1 + r.Below(3);
  cfg.ops_per_thread = 8 + r.Below(30);
  cfg.sampling = r.Below(4) == 0 ? 1 << (14 + r.Below(8)) : 0;
  sc.ns_per_step_num = 20000;
  cfg.regions = false;
  if (r.Below(2)) { cfg.max_live = 10 << 20; cfg.ops_per_thread *= 2; }
  fault_rate[F_SLEEP_OVERSHOOT] = r.Below(3) ? 0 : 0.3;
  sc.p_stall = sc.p_freeze = 0;  // the maintenance loop may wake up late, but works at full speed
#ifdef NDEBUG
  if (r.Below(3) == 0) fault_rate[F_MADV_DONTNEED] = r.Below(2) ? 0.05 : 0.5;
  if (r.Below(4) == 0) fault_rate[F_MADV_OTHER] = 0.3;
#endif
}
static void GenC17(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 18}, {O_FREE, 18}, {O_BURST_ALLOC, 8}, {O_BURST_FREE, 10}, {O_REALLOC, 2}, {O_RELEASE, 0.5}, {O_CHURN, 0.5}, {O_IDLE, 0.5},
                  {O_RELEASE_CPU, 0.5}, {O_MIGRATE, 1}, {O_PARAM, 1}, {O_CPUSET, 0.5}, {O_SLEEP, 4}, {O_RATE, 2}, {O_JUMP, 1}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind == O_RATE && o.tid != 1) o.kind = O_VERIFY, o.a[1] = 3;
    if (o.kind == O_PARAM) while (o.a[0] % 16 == 13 || o.a[0] % 16 == 2 || o.a[0] % 16 == 7 || o.a[0] % 16 == 15) o.a[0]++;
  }
}
static bool OpC17(const Op& o) {
  if (o.kind == O_RATE) {
    Rng r(o.a[1]);
    switch (o.a[0] % 4) {
      case 0: SetRate(0); break;
      case 1: SetRate(1 + r.Below(1 << 20)); break;
      case 2: SetRate(r.Below(200u << 20)); break;
      default: SetInterval((int64_t[]){1000000, 100000000, 1000000000, 10000000000, 0}[r.Below(4)]); break;
    }
    return true;
  }
  if (o.kind == O_JUMP) {
    AllowUpTo();
    Rng r(o.a[1]);
    int64_t j = (int64_t)1000000 << r.Below(o.a[0] % 3 == 0 ? 34 : 16);
    if (r.Below(2)) j = -j;
    Log("the wall clock is set by %ld ns", (long)j);
    NoSwitch ns;
    JumpRealtime(j);
    SIM_PROBE(j > 0 ? "clock_set_forward" : "clock_set_back");
    return true;
  }
  bool done = BaseOp(o);
  if (o.kind == O_SLEEP) CheckRate("while running");
  else peak_backed = std::max(peak_backed, Backed(InstBackingLocked()));
  return done;
}
// A round of background work may take far longer than the interval slept between rounds: waits until n more are complete.
static void RoundsOfWork(int n, int64_t iv) {
  if (bg_fiber < 0) return;
  uint64_t s0 = fibers[bg_fiber]->sleeps;
  for (int k = 0; k < 300 && bg_fiber >= 0 && fibers[bg_fiber]->sleeps < s0 + n; ++k) SleepNs(iv);
}
static void QuietC17(int ph) {
  Rng r(sh->seed * 77 + ph);
  VerifyAll("at a quiet point");
  CheckRate("at a quiet point");
  int what = r.Below(3);
  if (what == 0) {  // disabled: nothing happens any more, and it can be started again
    StopBackground();
    Quiesce();
    AllowUpTo();
    InstBackingStats f0 = InstBacking();
    SleepNs(20000000000);
    InstBackingStats f1 = InstBacking();
    if (f0.by_bg != f1.by_bg || f0.free != f1.free) Violation("background", "released-disabled", "memory was released while background actions were disabled");
    SIM_PROBE("restarted");
    AllowUpTo();
    StartBackground();
    allowed += (double)bg_rate_now * 1;
    return;
  }
  // calm from here on: what must happen in the background happens within a bounded number of periods
  bool nf = os::no_faults;
  os::no_faults = true;
  double ov = fault_rate[F_SLEEP_OVERSHOOT];
  fault_rate[F_SLEEP_OVERSHOOT] = 0;
  if (bg_rate_now < 1000000) SetRate(1000000 + r.Below(100 << 20));
  SleepNs(4 * bg_longest + 1000000000);
  bg_longest = bg_interval;
  int64_t iv = (int64_t[]){200000000, 1000000000, 5000000000}[r.Below(3)];
  SetInterval(iv);
  SleepNs(bg_longest * 2 + iv);
  bg_longest = iv;
  if (r.Below(2)) {
    AllowUpTo();
    int64_t j = (int64_t)1000000000 << r.Below(29);
    if (r.Below(3)) j = -j;
    Log("the wall clock is set by %ld ns", (long)j);
    JumpRealtime(j);
    SIM_PROBE("clock_set_while_waiting");
  }
  int pin = r.Below(cfg.ncpu);
  if (what == 1) {
    while (!(sc.cpu_allowed >> pin & 1)) pin = (pin + 1) % cfg.ncpu;
    fibers[bg_fiber]->affinity = 1ull << pin;
    Log("idle for 100 periods of %ld ns, background on cpu %d", (long)iv, pin);
    SleepNs(100 * iv);
    RoundsOfWork(10, iv);    // a round may take far longer than the interval it sleeps in between
    Quiesce();
    NoSwitch ns;
    int left = 0, busiest = -1;
    for (int c = 0; c < cfg.ncpu; ++c) {
      long u = InstCpuUsed(c);
      if (u > 0 && (sc.mm_cid_feature || c != pin)) { left++; busiest = c; }
    }
    SIM_PROBE("idle_caches_drained");
    if (left > (sc.mm_cid_feature ? 2 : 0))
      Violation("background", "idle-cache", "after 100 periods without activity the cache of cpu %d still holds %ld bytes (the only active thread runs on cpu %d)", busiest, InstCpuUsed(busiest), pin);
    fibers[bg_fiber]->affinity = ~0ull;
  } else {
    size_t whole = 0;
    InstBackingStats f1;
    bool regions = TCMalloc_Internal_GetReleasePagesFromHugeRegionEnabled();
    TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(true);
    {
      Quiesce();
      NoSwitch ns;
      InstBackingStats f0 = InstBacking();
      std::vector<uintptr_t> tmp;
      int k = 1 + r.Below(6);
      for (int i = 0; i < k; ++i) {
        AllocSpec s;
        s.size = (2u << 20) * (1 + r.Below(8));
        if (!Room(s.size)) break;
        Blk* b = Alloc(s);
        if (b) tmp.push_back(b->p);
      }
      peak_backed = std::max(peak_backed, Backed(InstBacking()));
      for (uintptr_t p : tmp) FreeBlk(p, 0);
      f1 = InstBacking();
      whole = f1.free > f0.free ? (f1.free - f0.free) / (2 << 20) * (2 << 20) : 0;
    }
    size_t os0 = bg_os;
    // time to pay for it, for memory that is already due for release, and for the lead that earlier calls gained
    int64_t t = (int64_t)((f1.free + (8 << 20)) * 1e9 / bg_rate_now) + 4 * iv;
    if (t / iv > 400) { SetInterval(t / 200); t += iv + t / 100; bg_longest = t; }
    SleepNs(t);
    RoundsOfWork(2, iv);
    if (bg_os - os0 + (4 << 20) < whole) {  // a long lead has to be made up for: at most what was ever given back
      int64_t more = (int64_t)((bg_os + f1.free) * 1e9 / bg_rate_now) + iv;
      if (more / iv > 400) { SetInterval(more / 200); more += iv + more / 100; bg_longest = more; }
      SleepNs(more);
      RoundsOfWork(2, iv);
      t += more;
      SIM_PROBE("progress_after_long_lead");
    }
    Quiesce();
    InstBackingStats f2 = InstBacking();
    TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(regions);
    allowed += f1.free;
    SIM_PROBE("progress_checked");
    if (whole) SIM_PROBE("progress_expected");
    if (bg_os - os0 + (4 << 20) < whole)  // (some may have been put to use)
      Violation("background", "no-progress", "%zu bytes of whole free hugepages (of %zu free); %ld ns later at %zu bytes/s background actions have given back %zu bytes (%zu free)",
                whole, f1.free, (long)t, bg_rate_now, bg_os - os0, f2.free);
  }
  os::no_faults = nf;
  fault_rate[F_SLEEP_OVERSHOOT] = ov;
  VerifyAll("after waiting");
  CheckRate("after waiting");
}
static void StartC17() {
  os::OnRelease = OnReleaseC17;
  Rng r(sh->seed * 5 + 3);
  // (regions give back free hugepages regardless of the rate)
  if (r.Below(8)) TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(false);
  bg_interval = 1000000000;
  SetInterval((int64_t[]){100000000, 1000000000, 1000000000, 10000000000}[r.Below(4)]);
  bg_rate_now = 0;
  SetRate(r.Below(4) ? r.Below(3) ? 1 + r.Below(4 << 20) : r.Below(200u << 20) : 0);
}
static const Plugin kC17 = {"C17", ConfC17, GenC17, StartC17, OpC17, QuietC17, nullptr, nullptr};
static Reg r17(&kC17);
}  // namespace world
