// C11 per-CPU caching, C13 address queries, C14 placement, C19 address space.
#include <errno.h>
#include <string.h>
#include <sys/mman.h>

#include "acct.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/malloc_tracing_extension.h"

using tcmalloc::MallocExtension;
extern "C" int sim_mprotect(void*, size_t, int);
extern "C" void* sim_mmap(void*, size_t, int, int, int, off_t);

namespace world {
// ------------------------------------------------------------- C11
static bool many_cpus;
static void ConfC11(Rng& r) {
  cfg.regions = false;
  cfg.rseq = r.Below(8) != 0;
  cfg.threads = 2 + r.Below(5);
  cfg.ncpu = 1 + r.Below(4);
  cfg.phases = 1 + r.Below(4);
  cfg.ops_per_thread = 20 + r.Below(60);
  cfg.size_mode = r.Below(2) ? 1 : r.Below(2) ? 0 : 4;
  cfg.max_live = 24 << 20;
  for (auto& h : cfg.hot_sizes) h = r.Below(4) ? 8 + r.Below(2000) : 2000 + r.Below(60000);
  static const double q[] = {3, 8, 25, 80, 300};
  sc.quantum = q[r.Below(5)];
  sc.p_preempt = r.Below(2) ? 0.3 : 0.8;
  sc.p_migrate = r.Below(3) ? 0.2 : 0.7;
  sc.p_arm = r.Below(3) ? 0.1 + 0.1 * r.Below(5) : 0.02;
  if (r.Below(2)) { cfg.background = true; sc.ns_per_step_num = r.Below(2) ? 20000 : 200000; }
  if (r.Below(4) == 0) cfg.sampling = 1 << (12 + r.Below(8));
  if (r.Below(4) == 0) cfg.first_use_race = true;
#ifdef NDEBUG
  if (r.Below(4) == 0) fault_rate[F_AFFINITY] = 0.3;
  if (r.Below(5) == 0) fault_rate[F_MADV_DONTNEED] = 0.2;
#endif
  if (r.Below(4) == 0 && !cfg.background) fault_rate[F_RSEQ] = r.Below(2) ? 0.2 : 0.7;
  many_cpus = r.Below(5) == 0;
  if (many_cpus) {
    // enough CPUs for the memory of idle ones to be given back (in hugepages of eight)
    cfg.ncpu = 9 + r.Below(16);
    cfg.disable_dynamic_slabs = r.Below(4) != 0;
    cfg.rseq = true;
    cfg.background = true;
    cfg.first_use_race = r.Below(4) == 0;
    fault_rate[F_RSEQ] = 0;
    cfg.phases = 2 + r.Below(4);
    sc.ns_per_step_num = 5000 << r.Below(5);
    sc.max_steps = 200000000;
    if (r.Below(2)) { static const double v[] = {0.003, 0.02, 0.1}; sc.p_freeze = v[r.Below(3)]; }
  }
}
static void OnReleaseC11(uintptr_t p, size_t n, bool ok) {
  if (ok && Tag(p) == 3 && n >= 2u << 20) SIM_PROBE("slab_memory_released");
}
static void StartC11() {
  os::OnRelease = OnReleaseC11;
  if (TCMalloc_Internal_SetReleaseDrainedSlabMetadata && (many_cpus || Rng(sh->seed + 9).Below(3) == 0)) { Api a("param"); TCMalloc_Internal_SetReleaseDrainedSlabMetadata(true); }
}
static void GenC11(Rng& r) {
  double bg = many_cpus ? 5 : cfg.background ? 2 : 0.05;
  GenerateMix(r, {{O_ALLOC, 12}, {O_FREE, 12}, {O_BURST_ALLOC, 8}, {O_BURST_FREE, 9}, {O_PINGPONG, 9}, {O_RELEASE_CPU, 6}, {O_MIGRATE, 6},
                  {O_CPUSET, 3}, {O_IDLE, 1.5}, {O_PARAM, 1.5}, {O_CHURN, 1.5}, {O_SLEEP, bg}, {O_STALL, 0.4}, {O_VERIFY, 1}, {O_REALLOC, 1}, {O_QUERY, 0.7}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind == O_PARAM) o.a[0] = r.Below(4) ? 0 : r.Below(2) ? 9 : o.a[0];
    if (o.kind == O_STALL) o.a[0] %= 2000000000;
  }
}
static void QuietC11(int) {
  Quiesce();
  NoSwitch ns;
  os::no_faults = true;
  VerifyAll("at a quiet point");
  Figures f = Take();
  CheckFigures(f, "at a quiet point");
  if (f.cpu) SIM_PROBE("cpu_cache_nonempty");
  uint64_t all = sc.cpu_allowed;
  if (sh->seed & 1) {
    // Emptying the caches loses nothing and leaves them empty.
    { Api a("ReleaseCpuMemory"); for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c); }
    Figures g = Take();
    CheckFigures(g, "after emptying the CPU caches");
    for (int c = 0; c < cfg.ncpu; ++c)
      if (InstCpuUsed(c) > 0) Violation("accounting", "cpu-flushed", "CPU %d's cache was emptied but holds %ld bytes", c, InstCpuUsed(c));
    if (g.cpu) Violation("accounting", "cpu-flushed", "all CPU caches were emptied but %zu bytes are reported in them", g.cpu);
    SIM_PROBE("emptied_and_checked");
  }
  sc.cpu_allowed = all;
  os::no_faults = false;
}
static void EndC11() {
  NoSwitch ns;
  os::no_faults = true;
  FreeEverything();
  { Api a("ReleaseCpuMemory"); for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c); }
  Figures f = Take();
  CheckFigures(f, "after freeing everything");
}
static const Plugin kC11 = {"C11", ConfC11, GenC11, StartC11, nullptr, QuietC11, EndC11, nullptr};
static Reg r11(&kC11);

// ------------------------------------------------------------- C13
static std::vector<uintptr_t> not_ours;  // pages somebody else mapped
static void ConfC13(Rng& r) {
  not_ours.clear();
  if (r.Below(2)) cfg.sampling = 1 << (10 + r.Below(10));
  if (cfg.sampling && r.Below(2)) cfg.guarded = 0;
  cfg.size_mode = r.Below(2) ? 0 : r.Below(4);
  cfg.ops_per_thread = 20 + r.Below(40);
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
#ifdef NDEBUG
  if (r.Below(4) == 0) { fault_rate[F_MADV_DONTNEED] = 0.2; fault_rate[F_MMAP_HINT] = 0.1; }
#endif
}
static void GenC13(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 18}, {O_FREE, 16}, {O_BURST_ALLOC, 6}, {O_BURST_FREE, 7}, {O_REALLOC, 3}, {O_QUERY, 14}, {O_UNIT, 8}, {O_RANGES, 4},
                  {O_RELEASE, 3}, {O_RELEASE_CPU, 2}, {O_MIGRATE, 1}, {O_CHURN, 1}, {O_IDLE, 0.5}, {O_PARAM, 0.4}, {O_SLEEP, cfg.background ? 0.5 : 0.02}});
}
static void CheckNotOwned(uintptr_t p, const char* what) {
  MallocExtension::Ownership own;
  { Api a("GetOwnership"); own = MallocExtension::GetOwnership((void*)p); }
  if (own == MallocExtension::Ownership::kOwned) Violation("query", "foreign-owned", "%s (%#lx) is reported as owned by the allocator", what, p);
  SIM_PROBE("foreign_address_queried");
}
static void CheckRanges(bool quiet) {
  struct Was { uintptr_t p; uint64_t seq; size_t cap; };
  std::vector<Was> was;
  {
    NoSwitch ns;
    for (auto& kv : live) was.push_back({kv.first, kv.second.seq, kv.second.cap});
  }
  std::vector<tcmalloc::malloc_tracing_extension::AllocatedAddressRanges::SpanDetails> spans;
  bool ok = false;
  {
    Api a("GetAllocatedAddressRanges");
    auto res = tcmalloc::malloc_tracing_extension::GetAllocatedAddressRanges();
    ok = res.ok();
    if (ok) for (auto& s : res->spans) spans.push_back(s);
  }
  NoSwitch ns;
  if (!ok) {
    if (quiet) Violation("ranges", "failed", "the allocated ranges could not be listed although nothing else runs");
    SIM_PROBE("ranges_gave_up");
    return;
  }
  SIM_PROBE("ranges_listed");
  std::sort(spans.begin(), spans.end(), [](auto& a, auto& b) { return a.start_addr < b.start_addr; });
  for (size_t i = 0; i < spans.size(); ++i) {
    auto& s = spans[i];
    if (!s.size || s.start_addr % kPage || s.size % kPage)
      Violation("ranges", "bounds", "listed range %#lx+%#zx is not made of whole pages", s.start_addr, s.size);
    if (i && spans[i - 1].start_addr + spans[i - 1].size > s.start_addr)
      Violation("ranges", "overlap", "listed ranges %#lx+%#zx and %#lx+%#zx overlap", spans[i - 1].start_addr, spans[i - 1].size, s.start_addr, s.size);
    if (s.object_size > s.size) Violation("ranges", "object-size", "range %#lx+%#zx lists objects of %zu bytes", s.start_addr, s.size, s.object_size);
  }
  for (auto& w : was) {
    auto it = live.find(w.p);
    if (it == live.end() || it->second.seq != w.seq || it->second.cap != w.cap) continue;
    const Blk& b = it->second;
    auto s = std::upper_bound(spans.begin(), spans.end(), w.p, [](uintptr_t v, auto& x) { return v < x.start_addr; });
    if (s == spans.begin()) Violation("ranges", "missing", "%s is in no listed range", Describe(b).c_str());
    --s;
    size_t need = std::max<size_t>(b.cap, 1);
    if (w.p + need > s->start_addr + s->size)
      Violation("ranges", "missing", "%s is not inside a listed range (nearest %#lx+%#zx)", Describe(b).c_str(), s->start_addr, s->size);
    if (Tag(w.p) >= 2 && s->object_size && (s->object_size != b.cap || (w.p - s->start_addr) % s->object_size))
      Violation("ranges", "object-size", "%s lies in range %#lx+%#zx of %zu-byte objects", Describe(b).c_str(), s->start_addr, s->size, s->object_size);
    if (Tag(w.p) >= 2 && !s->object_size && (s->start_addr != w.p || s->size != b.cap))
      Violation("ranges", "large-bounds", "%s is listed as %#lx+%#zx", Describe(b).c_str(), s->start_addr, s->size);
  }
}
static bool OpC13(const Op& o) {
  switch (o.kind) {
    case O_RANGES: CheckRanges(false); return true;
    case O_UNIT: {
      static int some_static;
      int on_stack;
      uintptr_t p = 0;
      const char* what = "";
      {
        NoSwitch ns;
        Rng r(o.a[1]);
        auto maps = os::AllMappings();
        switch (o.a[0] % 8) {
          case 0: p = r.Below(4096); what = "an address in the first page"; break;
          case 1: p = (uintptr_t)&on_stack; what = "a stack address"; break;
          case 2: p = (uintptr_t)&some_static + r.Below(64); what = "a static variable"; break;
          case 3: {  // somebody else maps a page, often next to the heap
            if (!maps.empty() && not_ours.size() < 40) {
              auto& m = maps[r.Below(maps.size())];
              uintptr_t at = r.Below(3) ? m.end + 4096 * r.Below(4) : ((uintptr_t)2 << 44) + (r.Below(1 << 20) << 12);
              if (!os::Find(at)) { os::AddForeign(at & -4096ul, 4096); if (os::Find(at & -4096ul)) not_ours.push_back(at & -4096ul); }
            }
            if (not_ours.empty()) return true;
            p = not_ours[r.Below(not_ours.size())] + r.Below(4096);
            what = "memory mapped by somebody else";
            break;
          }
          case 4: {
            if (maps.empty()) return true;
            auto& m = maps[r.Below(maps.size())];
            if (m.prot & PROT_WRITE) return true;
            p = m.start + r.Below(std::min<size_t>(m.end - m.start, 1 << 20));
            if (Tag(p) == 0 || Tag(p) == 1) return true;  // (guard pages of sampled blocks belong to a span)
            auto it = live.upper_bound(p);
            if (it != live.begin() && std::prev(it)->second.p + std::prev(it)->second.cap > p) return true;
            // the heap may grow into it while we ask
            if (cfg.threads > 1 || cfg.background) return true;
            what = "address space reserved but never used";
            break;
          }
          case 5: {
            for (auto& m : maps) if (Tag(m.start) == 3 && (m.prot & PROT_WRITE)) p = m.start + r.Below(m.end - m.start);
            if (!p) return true;
            what = "the allocator's own metadata";
            break;
          }
          case 6: p = (r.Next() % ((uintptr_t)1 << 42)) & ~7ul; if (os::Find(p)) return true; what = "an unmapped low address"; break;
          case 7: {
            p = ((uintptr_t)1 << 46) + r.Below((uintptr_t)1 << 45);
            if (os::Find(p)) return true;
            what = "an unmapped high address";
            break;
          }
        }
      }
      CheckNotOwned(p, what);
      return true;
    }
  }
  return false;
}
static void QuietC13(int) {
  Quiesce();
  NoSwitch ns;
  VerifyAll("at a quiet point");
  CheckRanges(true);
  for (auto& kv : live) {
    const Blk& b = kv.second;
    Api a("query");
    if (MallocExtension::GetOwnership((void*)kv.first) != MallocExtension::Ownership::kOwned) Violation("query", "ownership", "%s reported as not owned", Describe(b).c_str());
    size_t n = MallocExtension::GetAllocatedSize((void*)kv.first).value_or(0);
    if (n != b.cap) Violation("query", "size", "%s: capacity query changed from %zu to %zu", Describe(b).c_str(), b.cap, n);
  }
  for (uintptr_t p : not_ours) CheckNotOwned(p + 8, "memory mapped by somebody else");
}
static const Plugin kC13 = {"C13", ConfC13, GenC13, nullptr, OpC13, QuietC13, nullptr, nullptr};
static Reg r13(&kC13);

// ------------------------------------------------------------- C14
enum { kTagSampled = 0, kTagSampledP1 = 1, kTagCold = 2, kTagMeta = 3, kTagP0 = 4, kTagP1 = 6 };
static int part_mode;  // 0 off, 1 full, 2 light
static int min_hot = -1;
static std::map<uint64_t, std::pair<int, Blk>> placed;   // what decides the placement -> tag
static void ConfC14(Rng& r) {
  cfg.size_mode = r.Below(2) ? 0 : r.Below(5);
  cfg.regions = r.Below(20) == 0;
#ifdef TCMALLOC_INTERNAL_NUMA_AWARE
  cfg.numa = r.Below(6) != 0;
  cfg.ncpu = 2 + r.Below(5);
  if (cfg.numa) {
    static const char* const bind[] = {"TCMALLOC_NUMA_AWARE=1", "TCMALLOC_NUMA_AWARE=advisory-binding", "TCMALLOC_NUMA_AWARE=no-binding", "TCMALLOC_NUMA_AWARE=strict-binding"};
    cfg.env.push_back(bind[r.Below(4)]);
    sc.p_migrate = std::max(sc.p_migrate, 0.3);
  }
#endif
  for (size_t i = 0; i < cfg.env.size();) if (cfg.env[i].compare(0, 27, "TCMALLOC_HEAP_PARTITIONING=") == 0) cfg.env.erase(cfg.env.begin() + i); else ++i;
  uint64_t m = r.Below(5);
  if (m < 3) cfg.env.push_back(m == 0 ? "TCMALLOC_HEAP_PARTITIONING=light" : m == 1 ? "TCMALLOC_HEAP_PARTITIONING=full" : "TCMALLOC_HEAP_PARTITIONING=0");
  if (r.Below(3) == 0) cfg.sampling = 1 << (9 + r.Below(10));
  if (cfg.sampling && r.Below(2)) cfg.guarded = 0;
  cfg.ops_per_thread = 20 + r.Below(50);
  if (r.Below(4) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
#ifdef NDEBUG
  if (r.Below(4) == 0) { fault_rate[F_MADV_DONTNEED] = 0.2; fault_rate[F_MMAP_HINT] = 0.2; if (r.Below(2) && cfg.guarded < 0) fault_rate[F_MPROTECT] = 0.05; }
#endif
}
static void GenC14(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 24}, {O_FREE, 22}, {O_BURST_ALLOC, 10}, {O_BURST_FREE, 12}, {O_REALLOC, 3}, {O_PINGPONG, 2}, {O_RELEASE, 2}, {O_RELEASE_CPU, 2},
                  {O_MIGRATE, 5}, {O_CPUSET, 1}, {O_IDLE, 1}, {O_CHURN, 1}, {O_QUERY, 2}, {O_PARAM, 0.5}, {O_SLEEP, cfg.background ? 0.5 : 0.02}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind == O_ALLOC || o.kind == O_BURST_ALLOC) {
      AllocSpec s = UnpackSpec(o.a[2], o.a[0], o.a[1]);
      // more of the entry points that carry hints and tokens
      if (r.Below(3) == 0) {
        static const int k[] = {AK_TOK_NEW, AK_TOK_MALLOC, AK_TOK_NEW_HC, AK_NEW_HC, AK_NEW_AL_HC, AK_SRN_HC, AK_TOK_SRN};
        s.kind = k[r.Below(7)];
        if (Aligned(s.kind)) s.align = (size_t)8 << r.Below(10);
        s.hint = r.Below(3) == 0 ? 0 : r.Below(2) ? 255 : r.Below(256);
        s.token = r.Below(3);
        o.a[2] = PackSpec(s); o.a[0] = s.size; o.a[1] = s.align;
      }
    }
  }
}
// Called under NoSwitch for each new block.
static void CheckPlacement(Blk& b) {
  int tag = Tag(b.p), last = Tag(b.p + std::max<size_t>(b.cap, 1) - 1);
  if (tag != last) Violation("placement", "straddle", "%s begins in memory class %d and ends in class %d", Describe(b).c_str(), tag, last);
  if (tag == kTagMeta || tag == 5 || tag == 7) Violation("placement", "class", "%s lies in memory class %d, which holds no application memory", Describe(b).c_str(), tag);
  bool sampled = tag == kTagSampled || tag == kTagSampledP1;
  if (sampled && cfg.sampling == 0) Violation("placement", "sampled", "%s lies in memory for sampled blocks but sampling is off", Describe(b).c_str());
  bool hinted = b.hint >= 0;
  bool cold = hinted && b.hint < min_hot;
  if (tag == kTagCold && !cold) Violation("placement", "cold", "%s was not asked to be cold but lies in cold memory", Describe(b).c_str());
  if (b.inplace) return;  // placed when it was allocated
  bool tok = b.token >= 0;
  int part = tok ? b.token > 0 : 1;
  bool large = b.cap > 262144;
  if (sampled) {
    if (tag == kTagSampledP1 && part_mode != 1) Violation("placement", "sampled", "%s lies in the second sampled partition, but the heap is not partitioned", Describe(b).c_str());
    // all guarded blocks share one pool, each on a page of its own between inaccessible pages
    uintptr_t g = b.p / kPage * kPage;
    auto prot = [](uintptr_t q) { const os::Mapping* m = os::Find(q); return m && !m->foreign ? m->prot : -1; };
    bool guarded = b.cap <= kPage && prot(g - 1) == PROT_NONE && prot(g + kPage) == PROT_NONE;
    if (part_mode == 1 && !cfg.numa && !guarded && (tag == kTagSampledP1) != (part == 1)) Violation("placement", "sampled-partition", "%s (sampled) lies in the wrong partition", Describe(b).c_str());
    SIM_PROBE("sampled_placed");
    return;
  }
  if (tag == kTagCold) {
    SIM_PROBE("cold_placed");
    if (part_mode == 1 && part == 1) Violation("placement", "partition", "%s belongs to the second partition but lies in the first one's cold memory", Describe(b).c_str());
  }
#ifndef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
  if (large && cold && tag != kTagCold && !(part_mode == 1 && part == 1)) Violation("placement", "cold-large", "%s was asked to be cold but lies in memory class %d", Describe(b).c_str(), tag);
#endif
  if (tag != kTagCold) {
    if (cfg.numa) {
      // the node of a CPU the thread was on while it allocated
      int half = (cfg.ncpu + 1) / 2;
      uint64_t lo = (1ull << half) - 1;
      bool n0 = b.cpus & lo, n1 = b.cpus & ~lo;
      if (n0 != n1) SIM_PROBE("node_known");
      if (!cold && (tag == kTagP0 ? !n0 : !n1))
        Violation("placement", "node", "%s was allocated on CPUs %#lx (node 0: CPUs 0-%d) but lies in node %d's memory", Describe(b).c_str(), b.cpus, half - 1, tag == kTagP1);
    } else if (part_mode == 0) {
      if (tag != kTagP0) Violation("placement", "partition", "%s lies in the second partition of an unpartitioned heap", Describe(b).c_str());
    } else if (part_mode == 1) {
      if ((tag == kTagP1) != (part == 1)) Violation("placement", "partition", "%s belongs to partition %d but lies in memory class %d", Describe(b).c_str(), part, tag);
      SIM_PROBE("partition_checked");
    }
  }
  if (!cfg.numa) {
    // What was asked for decides, not the history, the thread or the CPU.
    uint64_t key = (uint64_t)b.kind << 56 | (uint64_t)part << 55 | (uint64_t)cold << 54 | (b.req & ((1ull << 40) - 1)) << 8 | (b.align ? __builtin_ctzll(b.align) : 0);
    auto it = placed.find(key);
    if (it == placed.end()) placed[key] = {tag, b};
    else if (it->second.first != tag)
      Violation("placement", "unstable", "%s lies in memory class %d, an identical request was placed in class %d: %s", Describe(b).c_str(), tag, it->second.first, Describe(it->second.second).c_str());
  }
}
static void StartC14() {
  placed.clear();
  Api a("parameters");
  min_hot = TCMalloc_Internal_GetMinHotAccessHint();
  part_mode = 0;
  part_mode = Prop("tcmalloc.security_partitioning_active");
  if (part_mode == 2) SIM_PROBE("light_partitioning");
  if (part_mode == 1) SIM_PROBE("full_partitioning");
  on_alloc = CheckPlacement;
}
static void QuietC14(int) {
  Quiesce();
  NoSwitch ns;
  VerifyAll("at a quiet point");
  // No page holds blocks of two placement classes: whatever a page is used for follows from its address, so it suffices
  // that the class of every live block still is what it was when it was allocated.
  for (auto& kv : live) {
    const Blk& b = kv.second;
    if (cfg.numa && os::Find(b.p) && (Tag(b.p) == kTagP0 || Tag(b.p) == kTagP1)) {
      const os::Mapping* m = os::Find(b.p);
      int node = Tag(b.p) == kTagP1;
      if (m->node >= 0 && m->node != node) Violation("placement", "bound", "%s lies in node %d's memory, which is bound to node %d", Describe(b).c_str(), node, m->node);
      if (m->node >= 0) SIM_PROBE("binding_checked");
    }
  }
  Figures f = Take();
  CheckFigures(f, "at a quiet point");
}
static const Plugin kC14 = {"C14", ConfC14, GenC14, StartC14, nullptr, QuietC14, nullptr, nullptr};
static Reg r14(&kC14);

// ------------------------------------------------------------- C19
struct Reserve { uintptr_t start, end; bool given; };
static std::map<uintptr_t, Reserve> reserves;           // what the allocator reserved and still has
static bool own_factory;
static void OnMapC19(uintptr_t at, size_t n, bool add) {
  if (add) { reserves[at] = {at, at + n, false}; return; }
  auto it = reserves.upper_bound(at);
  if (it == reserves.begin()) return;
  --it;
  if (it->second.start == at && it->second.end == at + n) { reserves.erase(it); return; }
  if (it->second.end <= at) return;
  // only what could not be used may be given back, and that whole
  Violation("os-misuse", "munmap-part", "munmap(%#lx, %#zx) takes away part of the reservation %#lx-%#lx", at, n, it->second.start, it->second.end);
}
struct Region : tcmalloc::AddressRegion {
  uintptr_t start, free_end;
  Region(uintptr_t s, size_t n) : start(s), free_end(s + n) {}
  std::pair<void*, size_t> Alloc(size_t size, size_t alignment) override {
    NoSwitch ns;
    if (FaultPoint(F_PROVIDER)) { os::refusals++; os::refusals_by[cur->id]++; return {nullptr, 0}; }
    size = (size + (2 << 20) - 1) & -(size_t)(2 << 20);
    if (alignment < (2 << 20)) alignment = 2 << 20;
    if (size > free_end - start) return {nullptr, 0};
    uintptr_t at = (free_end - size) & -alignment;
    if (at < start) return {nullptr, 0};
    size_t n = free_end - at;
    if (sim_mprotect((void*)at, n, PROT_READ | PROT_WRITE)) return {nullptr, 0};
    free_end = at;
    return {(void*)at, n};
  }
};
static std::vector<Region*> provided;
struct Factory : tcmalloc::AddressRegionFactory {
  tcmalloc::AddressRegion* Create(void* start, size_t size, UsageHint hint) override {
    NoSwitch ns;
    uintptr_t p = (uintptr_t)start;
    if ((p | size) & (kPage - 1) || !size) Violation("provider", "unaligned", "the region provider was given %#lx+%#zx", p, size);
    auto it = reserves.find(p);
    if (it == reserves.end() || it->second.end != p + size) Violation("provider", "not-reserved", "the region provider was given %#lx+%#zx, which the allocator did not reserve as such", p, size);
    if (it->second.given) Violation("provider", "twice", "the region provider was given %#lx+%#zx twice", p, size);
    it->second.given = true;
    for (uintptr_t q = p; q < p + size;) {
      const os::Mapping* m = os::Find(q);
      if (!m || m->foreign) Violation("provider", "not-reserved", "the region provider was given %#lx+%#zx, which is not reserved at %#lx", p, size, q);
      if (m->prot != PROT_NONE) Violation("provider", "in-use", "the region provider was given %#lx+%#zx, which is in use at %#lx", p, size, q);
      q = m->end;
    }
    int want = Tag(p), last = Tag(p + size - 1);
    bool ok = want == last;
    switch (hint) {
      case UsageHint::kNormal: ok &= want == 4 || want == 6; break;
      case UsageHint::kInfrequentAllocation: ok &= want == 0 || want == 1; break;
      case UsageHint::kMetadata: ok &= want == 3; break;
      case UsageHint::kInfrequentAccess: ok &= want == 2; break;
      case UsageHint::kNormalNumaAwareS0: ok &= want == 4; break;
      case UsageHint::kNormalNumaAwareS1: ok &= want == 6; break;
    }
    if (!ok) Violation("provider", "hint", "the region provider was given %#lx+%#zx (memory classes %d..%d) with hint %d", p, size, want, last, (int)hint);
    SIM_PROBE("provider_used");
    if (FaultPoint(F_PROVIDER)) { os::refusals++; os::refusals_by[cur->id]++; it->second.given = false; return nullptr; }
    Region* r = new (HostAlloc(sizeof(Region), 16)) Region(p, size);
    return r;
  }
};
static Factory* factory;
static void ConfC19(Rng& r) {
  reserves.clear();
  own_factory = r.Below(3) == 0;
  cfg.max_live = (size_t)(r.Below(3) ? 64 : 6000) << 20;
  cfg.size_mode = r.Below(2) ? 2 : r.Below(4);
  cfg.phases = 2 + r.Below(2);
  cfg.ops_per_thread = 10 + r.Below(40);
  if (r.Below(3) == 0) cfg.sampling = 1 << (10 + r.Below(10));
  if (cfg.sampling && r.Below(2)) cfg.guarded = 0;
  if (r.Below(4) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
  os::kernel = r.Below(3) ? 0 : 1 + r.Below(2);
#ifdef NDEBUG
  static const double lv[] = {0.01, 0.1, 0.5, 0.9};
  double l = lv[r.Below(4)];
  if (r.Below(2)) fault_rate[F_MMAP_HINT] = l / 2;
  if (r.Below(2)) fault_rate[F_MMAP] = l;
  if (r.Below(2) && cfg.guarded < 0) fault_rate[F_MPROTECT] = l;
  if (r.Below(3) == 0) fault_rate[F_MADV_DONTNEED] = l;
  if (r.Below(3) == 0) fault_rate[F_MADV_OTHER] = l;
  if (r.Below(4) == 0) fault_rate[F_MUNMAP] = l;
  if (r.Below(4) == 0) fault_rate[F_PRCTL] = l;
  if (r.Below(4) == 0) fault_rate[F_MINCORE] = l;
  if (own_factory && r.Below(2)) fault_rate[F_PROVIDER] = l;
#else
  if (r.Below(2)) fault_rate[F_MMAP_HINT] = 0.3;
#endif
}
static void GenC19(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 26}, {O_FREE, 16}, {O_BURST_ALLOC, 8}, {O_BURST_FREE, 8}, {O_REALLOC, 4}, {O_HUGE, 5}, {O_RELEASE, 4}, {O_RELEASE_CPU, 1},
                  {O_MIGRATE, 1}, {O_CHURN, 0.5}, {O_PARAM, 1}, {O_STATS, 0.2}, {O_SLEEP, cfg.background ? 1 : 0.05}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind == O_ALLOC || o.kind == O_BURST_ALLOC) {
      AllocSpec s = UnpackSpec(o.a[2], o.a[0], o.a[1]);
      for (int k = 0; Throws(s.kind) && k < 50; ++k) s = RandomSpec(r, o.a[0]);
      if (Throws(s.kind)) s.kind = AK_MALLOC;
      o.a[0] = s.size; o.a[1] = s.align; o.a[2] = PackSpec(s);
    }
  }
}
static bool OpC19(const Op& o) {
  if (o.kind != O_HUGE) return false;
  // requests beyond one reservation, and alignments beyond it
  Rng r(o.a[1]);
  AllocSpec s;
  s.fill = false;
  cur->stack_id = 500;
  size_t G = (size_t)1 << 30;
  if (o.a[0] % 2) { s.kind = r.Below(2) ? AK_MALLOC : AK_NEW_NT; s.size = r.Below(3) ? G / 2 + r.Below(2 * G) : G - r.Below(3) * 4096 + r.Below(5) * (2 << 20); }
  else { s.kind = r.Below(2) ? AK_MEMALIGN : AK_NEW_AL_NT; s.size = r.Below(64 << 20); s.align = (size_t)1 << (12 + r.Below(10)); }
  if (!Room(s.size)) { uintptr_t p; while (!Room(s.size) && PickBlk(r.Next() >> 8, 1, &p)) FreeBlk(p, 0); if (!Room(s.size)) return true; }
  SIM_PROBE("beyond_one_reservation");
  Blk* b = Alloc(s);
  if (b && r.Below(2)) FreeBlk(b->p, 0);
  return true;
}
static void StartC19() {
  os::OnMap = OnMapC19;
  if (own_factory) {
    Api a("SetRegionFactory");
    factory = new (HostAlloc(sizeof(Factory), 16)) Factory;
    MallocExtension::SetRegionFactory(factory);
    if (MallocExtension::GetRegionFactory() != factory) Violation("provider", "not-set", "the region provider just set is not in force");
  }
}
static void QuietC19(int) {
  Quiesce();
  NoSwitch ns;
  VerifyAll("at a quiet point");
  // A reservation from which nothing was ever used is kept for a memory class's next request or given back, not lost.
  if (fault_rate[F_MUNMAP] > 0 || own_factory) return;
  auto maps = os::AllMappings();
  int idle[8] = {};
  for (auto& kv : reserves) {
    auto& v = kv.second;
    bool used = false;
    for (auto& m : maps)
      if (!m.foreign && m.start < v.end && m.end > v.start && m.prot != PROT_NONE) used = true;
    if (!used && ++idle[Tag(v.start)] > 1)
      Violation("address-space", "lost", "two or more reservations (the last %#lx-%#lx) of memory class %d were never used and never given back", v.start, v.end, Tag(v.start));
  }
  SIM_PROBE("reservations_checked");
}
static const Plugin kC19 = {"C19", ConfC19, GenC19, StartC19, OpC19, QuietC19, nullptr, nullptr};
static Reg r19(&kC19);
}  // namespace world
