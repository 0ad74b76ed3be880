// C22: the filter of guarded sampling in small shapes, and the pool's own counts.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <set>

#include "acct.h"
#include "tcmalloc/internal_malloc_extension.h"

int InstFilterShapes();
void InstFilterAdd(int k, int s, int v);
bool InstFilterHas(int k, int s);
void InstFilterDecay(int k);
void InstFilterDecayAll(int k);
bool InstFilterPlain(int k, const int* count, int n, int s);
int InstFilterRing(int k);

using tcmalloc::MallocExtension;
using tcmalloc::Profile;
using tcmalloc::ProfileType;

namespace world {
namespace {
constexpr uint32_t kOwnStack = 7777777;
constexpr size_t kMaxGuarded = 64;
bool unit;
int shape, n_stacks;

// ------------------------------------------------------------- filter alone
int done_adds[64], begun_removes[64];
std::vector<int> entries;                  // of completed additions not yet taken for removal

void UnitOp(const Op& o) {
  Api a("filter");
  Rng r(o.a[0]);
  sh->allocs++;
  int n = 1 + r.Below(30);
  std::vector<int> hold;
  for (int i = 0; i < n; ++i) {
    int s = r.Below(n_stacks), d = r.Below(100);
    if (d < 30) {
      if (entries.size() > 400) continue;
      InstFilterAdd(shape, s, 1);
      done_adds[s]++;
      NoSwitch ns;
      entries.push_back(s);
    } else if (d < 62) {
      {
        NoSwitch ns;
        if (entries.empty()) continue;
        size_t k = r.Below(2) ? entries.size() - 1 : r.Below(entries.size());
        s = entries[k];
        entries[k] = entries.back();
        entries.pop_back();
        begun_removes[s]++;
      }
      InstFilterAdd(shape, s, -1);
    } else if (d < 90) {
      int sure = done_adds[s];
      bool has = InstFilterHas(shape, s);
      sure -= begun_removes[s];
      if (!has && sure > 0) Violation("filter", "lost-entry", "stack %d is reported absent although %d of its entries were live throughout (filter shape %d)", s, sure, shape);
      if (sure > 0) SIM_PROBE("present_throughout");
      else if (has) SIM_PROBE("present_otherwise");
      else SIM_PROBE("absent");
    } else if (d < 98) {
      InstFilterDecay(shape);
    } else {
      InstFilterDecayAll(shape);
    }
  }
}
void CompareUnit(const int* sum, const char* when) {
  for (int s = 0; s < n_stacks; ++s) {
    bool want = InstFilterPlain(shape, sum, n_stacks, s), got = InstFilterHas(shape, s);
    if (want != got)
      Violation("filter", got ? "ghost-entry" : "lost-entry", "%s: stack %d is reported %s; %d entries of it are left (filter shape %d)", when, s, got ? "present" : "absent", sum[s], shape);
  }
  SIM_PROBE("filter_compared");
}
void LiveCounts(int* sum) {
  for (int s = 0; s < 64; ++s) sum[s] = 0;
  for (int s : entries) sum[s]++;
}
void QuietUnit(int phase) {
  NoSwitch ns;
  int sum[64];
  LiveCounts(sum);
  for (int s = 0; s < n_stacks; ++s)
    if (!InstFilterHas(shape, s) && sum[s]) Violation("filter", "lost-entry", "at a quiet point: stack %d is reported absent, it has %d live entries (filter shape %d)", s, sum[s], shape);
  InstFilterDecayAll(shape);
  CompareUnit(sum, "after decaying everything");
  // One thread alone follows the documented decay exactly: additions count twice until kDecaySteps further additions or decays.
  Rng r(sh->seed * 77 + phase);
  std::vector<int> ring(std::max(InstFilterRing(shape), 1), -1);
  size_t pos = 0;
  auto step = [&](int s) {
    if (!InstFilterRing(shape)) return;
    int& e = ring[pos++ % ring.size()];
    if (e >= 0) sum[e]--;
    e = s;
    if (s >= 0) sum[s]++;
  };
  for (int i = 0; i < 60; ++i) {
    int s = r.Below(n_stacks), d = r.Below(10);
    if (d < 4) {
      InstFilterAdd(shape, s, 1);
      step(s);
      sum[s]++;
      done_adds[s]++;
      entries.push_back(s);
    } else if (d < 8 && !entries.empty()) {
      size_t k = r.Below(entries.size());
      s = entries[k];
      entries[k] = entries.back();
      entries.pop_back();
      begun_removes[s]++;
      sum[s]--;
      InstFilterAdd(shape, s, -1);
    } else {
      InstFilterDecay(shape);
      step(-1);
    }
    CompareUnit(sum, "one thread alone");
  }
}
void EndUnit() {
  NoSwitch ns;
  for (int s : entries) InstFilterAdd(shape, s, -1);
  entries.clear();
  InstFilterDecayAll(shape);
  int sum[64] = {};
  CompareUnit(sum, "after removing and decaying everything");
}

// ------------------------------------------------------------- pool
size_t GuardedNow() {
  uint32_t keep = cur->stack_id;
  cur->stack_id = kOwnStack;   // what the call itself allocates does not count
  std::set<uintptr_t> v;
  Api a("SnapshotCurrent");
  Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
  p.Iterate([&](const Profile::Sample& s) {
    NoSwitch ns;
    bool own = s.depth && ((uintptr_t)s.stack[0] - 0x50000000) / 64 == kOwnStack;
    if (!own && s.guarded_status == Profile::Sample::GuardedStatus::Guarded) v.insert((uintptr_t)s.span_start_address / kPage);
  });
  cur->stack_id = keep;
  return v.size();
}
bool IsGuarded(uintptr_t p) {
  uintptr_t g = p / kPage * kPage;
  auto prot = [](uintptr_t q) { const os::Mapping* m = os::Find(q); return m && !m->foreign ? m->prot : -1; };
  return prot(g - 1) == PROT_NONE && prot(g + kPage) == PROT_NONE;
}
void CheckCounts(const char* when) {
  size_t n = GuardedNow();
  std::string s;
  { Api a("GetStats"); s = MallocExtension::GetStats(); }
  NoSwitch ns;
  const char* q = strstr(s.c_str(), "Currently Allocated: ");
  if (!q) return;
  size_t have = 0, most = 0, high = 0;
  if (sscanf(q, "Currently Allocated: %zu / %zu", &have, &most) != 2) return;
  if (have != n) Violation("guard-count", "drift", "%s: the pool counts %zu guarded blocks, %zu are live", when, have, n);
  if (most != kMaxGuarded || n > most) Violation("guard-count", "too-many", "%s: %zu blocks are guarded, %zu may be", when, n, most);
  q = strstr(s.c_str(), "Allocated High-Watermark: ");
  if (q && sscanf(q, "Allocated High-Watermark: %zu", &high) == 1 && (high < n || high > kMaxGuarded))
    Violation("guard-count", "watermark", "%s: a high watermark of %zu guarded blocks with %zu live", when, high, n);
  SIM_PROBE("guard_counts_compared");
}
void QuietPool(int phase) {
  Quiesce();
  CheckCounts("at a quiet point");
  bool faults = fault_rate[F_MPROTECT] > 0;
  size_t n = GuardedNow();
  Rng r(sh->seed * 91 + phase);
  std::multiset<uint32_t> covered;
  std::vector<std::pair<uintptr_t, uint32_t>> mine;   // stack 0: not guarded
  int rounds = 10 + r.Below(90);
  for (int i = 0; i < rounds && Room(1 << 20); ++i) {
    if (!mine.empty() && r.Below(4) == 0) {
      size_t k = r.Below(mine.size());
      auto [p, s] = mine[k];
      mine.erase(mine.begin() + k);
      if (s) { covered.erase(covered.find(s)); --n; }
      NoSwitch ns;
      FreeBlk(p, 0);
      continue;
    }
    AllocSpec sp;
    sp.size = 1 + r.Below(3000);
    cur->stack_id = 900 + r.Below(80);
    uint32_t s = cur->stack_id;
    NoSwitch ns;
    Blk* b = Alloc(sp);
    if (!b) continue;
    bool g = IsGuarded(b->p);
    if (g) {
      if (n >= kMaxGuarded) Violation("guard-count", "too-many", "one more block is guarded although %zu are", n);
      // (with half of the pool in use stacks covered already are skipped for certain)
      if (n * 100 / kMaxGuarded >= 50 && cfg.guarded > 0 && covered.count(s))
        Violation("filter", "lost-entry", "call stack %u is guarded again although a guarded block of it is live and %zu of %zu blocks are in use", s, n, kMaxGuarded);
      covered.insert(s);
      ++n;
    } else if (b->aux2 && b->cap <= kPage && cfg.guarded == 0 && n < kMaxGuarded && !faults) {
      Violation("guard-count", "lost-slot", "a sampled block is not guarded although only %zu of %zu blocks are and none is to be skipped", n, kMaxGuarded);
    }
    if (!g && b->aux2 && covered.count(s)) SIM_PROBE("covered_stack_skipped");
    if (n == kMaxGuarded) SIM_PROBE("pool_full");
    mine.push_back({b->p, g ? s : 0});
  }
  CheckCounts("after more allocations");
}

void Conf(Rng& r) {
  unit = r.Below(3) != 0;
  entries.clear();
  if (unit) {
    cfg.ops_per_thread = 2 + r.Below(10);
    shape = r.Below(InstFilterShapes());
    n_stacks = 2 + r.Below(r.Below(2) ? 4 : 60);
    return;
  }
  static const int64_t iv[] = {1, 1, 64, 512};
  cfg.sampling = iv[r.Below(4)];
  cfg.guarded = r.Below(3) ? 1 + r.Below(cfg.sampling) : 0;
  cfg.size_mode = r.Below(2) ? 4 : r.Below(2);
  cfg.ops_per_thread = 10 + r.Below(40);
  cfg.max_live = 48 << 20;
#ifdef NDEBUG
  if (r.Below(3) == 0) fault_rate[F_MPROTECT] = 0.2;
#endif
}
void Gen(Rng& r) {
  if (unit) {
    GenerateMix(r, {{O_UNIT, 1}});
    for (int i = 0; i < sh->n_ops; ++i) for (auto& x : sh->ops[i].a) x = (uint64_t)x >> 1;
    return;
  }
  GenerateMix(r, {{O_ALLOC, 30}, {O_FREE, 22}, {O_BURST_ALLOC, 3}, {O_BURST_FREE, 3}, {O_REALLOC, 4}, {O_PINGPONG, 4}, {O_MIGRATE, 2}, {O_VERIFY, 1}, {O_STATS, 0.5}});
}
bool DoOp(const Op& o) {
  if (o.kind == O_UNIT) { UnitOp(o); return true; }
  return BaseOp(o);
}
void Quiet(int phase) {
  if (unit) return QuietUnit(phase);
  BaseQuiet(phase);
  QuietPool(phase);
}
void End() {
  if (unit) return EndUnit();
  FreeEverything();
  Quiesce();
  CheckCounts("after everything was freed");
  size_t n = GuardedNow();
  if (n) Violation("guard-count", "left-over", "%zu blocks count as guarded although everything was freed", n);
}
const Plugin kC22 = {"C22", Conf, Gen, nullptr, DoOp, Quiet, End, nullptr};
Reg r22(&kC22);
}  // namespace
}  // namespace world
