// C01 blocks, C02 capacities, C03 zeroing and reallocation, C04 failing allocations.
#include <errno.h>
#include <string.h>
#include <sys/mman.h>

#include "acct.h"

using tcmalloc::MallocExtension;

namespace world {
// ------------------------------------------------------------- C01
static bool c01_huge;
static void ConfC01(Rng& r) {
  if (r.Below(4) == 0) cfg.sampling = 1 << (12 + r.Below(8));
  if (r.Below(6) == 0) { cfg.sampling = 1 << (10 + r.Below(6)); cfg.guarded = r.Below(2) ? 0 : 1 << 14; }
#ifdef NDEBUG
  if (r.Below(3) == 0) {
    // failing system calls; the allocations they make fail are allowed to fail
    static const double lv[] = {0.002, 0.02, 0.2};
    double l = lv[r.Below(3)];
    fault_rate[F_MADV_DONTNEED] = l;
    fault_rate[F_MADV_OTHER] = l;
    if (r.Below(2)) fault_rate[F_MMAP_HINT] = l;
    if (r.Below(2)) fault_rate[F_MMAP] = l;
    if (r.Below(2) && cfg.guarded < 0) fault_rate[F_MPROTECT] = l;
    fault_rate[F_MINCORE] = l;
  }
#endif
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
  c01_huge = r.Below(6) == 0;
  if (c01_huge) {
    cfg.size_mode = 5;
    cfg.max_live = 96u << 20;
    cfg.threads = 2 + r.Below(3);
    sc.p_sys = std::max(sc.p_sys, 0.3);
  }
}
static void GenC01(Rng& r) {
  if (c01_huge)
    return GenerateMix(r, {{O_ALLOC, 24}, {O_FREE, 24}, {O_REALLOC, 1}, {O_VERIFY, 3}, {O_RELEASE, 8}, {O_MIGRATE, 1}, {O_TOUCH, 2}, {O_PARAM, 0.5}});
  GenerateMix(r, {{O_ALLOC, 20}, {O_FREE, 18}, {O_BURST_ALLOC, 6}, {O_BURST_FREE, 6}, {O_REALLOC, 4}, {O_PINGPONG, 3}, {O_VERIFY, 4},
                  {O_RELEASE, 1.5}, {O_RELEASE_CPU, 1}, {O_MIGRATE, 2}, {O_TOUCH, 2}, {O_QUERY, 2}, {O_IDLE, 0.5}, {O_PARAM, 0.5},
                  {O_CHURN, 0.6}});
}
static const Plugin kC01 = {"C01", ConfC01, GenC01, nullptr, nullptr, nullptr, nullptr, nullptr};
static Reg r01(&kC01);

// ------------------------------------------------------------- C02
static void ConfC02(Rng& r) {
  if (r.Below(4)) cfg.sampling = 1 << (8 + r.Below(12));
  if (r.Below(2) == 0 && cfg.sampling) cfg.guarded = r.Below(2) ? 0 : 1 << (10 + r.Below(10));
  cfg.deep_fill = true;
  cfg.size_mode = r.Below(3) ? 0 : r.Below(5);
}
// Sizes around class and page boundaries.
static size_t EdgeSize(Rng& r) {
  switch (r.Below(6)) {
    case 0: { size_t b = 1ull << r.Below(23); size_t n = b + r.Range(-9, 9); return n > (size_t)1 << 40 ? 1 : n; }
    case 1: return (r.Below(200) + 1) * 8 + r.Range(-1, 1);
    case 2: return (r.Below(64) + 1) * 8192 + r.Range(-17, 17);
    case 3: return 262144 + r.Range(-5000, 5000);
    case 4: return r.Below(40);
    default: return RandomSize(r);
  }
}
static void GenC02(Rng& r) {
  GenerateMix(r, {{O_FREE, 20}, {O_BURST_ALLOC, 3}, {O_BURST_FREE, 5}, {O_REALLOC, 3}, {O_QUERY, 6}, {O_VERIFY, 2},
                  {O_RELEASE, 0.7}, {O_RELEASE_CPU, 0.7}, {O_MIGRATE, 1}, {O_TOUCH, 2}, {O_PARAM, 0.3}});
  int extra = sh->n_ops * 2;
  for (int i = 0; i < extra; ++i) {
    size_t n = EdgeSize(r);
    AllocSpec s = RandomSpec(r, n);
    if (s.kind == AK_CALLOC || s.kind == AK_TOK_CALLOC) s.n = 1 + r.Below(3), s.size = n / s.n;
    Emit(1 + r.Below(cfg.threads), r.Below(cfg.phases), O_UNIT, s.size, s.align, PackSpec(s), r.Below(64) | r.Below(4) << 8);
  }
}
// nallocx and the library estimate never promise more than the allocation then has.
static bool OpC02(const Op& o) {
  if (o.kind != O_UNIT) return false;
  AllocSpec s = UnpackSpec(o.a[2], o.a[0], o.a[1]);
  if (!Room(s.size * std::max<size_t>(s.n, 1) + s.align)) { BaseOp(Op{o.tid, O_BURST_FREE, 0, o.pad, {o.a[2], 1, 1, 50}}); return true; }
  size_t est = 0, est2 = 0;
  bool have = false, have2 = false;
  bool mallocish = FamOf(s.kind) == kMalloc && !Aligned(s.kind) && s.kind != AK_CALLOC && s.kind != AK_TOK_CALLOC &&
                   s.kind != AK_VALLOC && s.kind != AK_PVALLOC;
  {
    Api a("nallocx");
    if (Aligned(s.kind) && s.align && s.kind != AK_ALIGNED_ALLOC && s.size > 0) {
      est = nallocx(s.size, __builtin_ctzll(s.align));
      have = true;
    } else if (!Aligned(s.kind) && !mallocish && FamOf(s.kind) != kMalloc) {
      est = nallocx(s.size, 0);
      have = true;
      est2 = MallocExtension::GetEstimatedAllocatedSize(s.size);
      have2 = true;
    } else if (mallocish) {
      est = nallocx(s.size, 0);
      have = true;
    }
  }
  cur->stack_id = 300 + (o.a[3] & 63);
  Blk* b = Alloc(s);
  if (!b) return true;
  uintptr_t p;
  {
    NoSwitch ns;
    p = b->p;
    if (have && est < s.size) Violation("estimate", "short", "nallocx(%zu, align %zu) = %zu is below the size itself", s.size, s.align, est);
    bool sampled = b->aux2 != 0;
    if (have && est > b->cap && !sampled)
      Violation("estimate", "nallocx", "nallocx promised %zu bytes but %s has less", est, Describe(*b).c_str());
    if (have2 && est2 > b->cap && !sampled)
      Violation("estimate", "library", "GetEstimatedAllocatedSize promised %zu bytes but %s has less", est2, Describe(*b).c_str());
  }
  if ((o.a[3] >> 8) & 1) {
    // query again after other activity, then free
    Yield();
    if (live.count(p)) BaseOp(Op{o.tid, O_QUERY, 0, o.pad, {(int64_t)(o.a[2] >> 3), 0, 0, 0}});
  }
  if ((o.a[3] >> 9) & 1) {
    uintptr_t q;
    if (PickBlk(0, 2, &q)) FreeBlk(q, o.a[3] & 63);
  }
  return true;
}
static const Plugin kC02 = {"C02", ConfC02, GenC02, nullptr, OpC02, nullptr, nullptr, nullptr};
static Reg r02(&kC02);

// ------------------------------------------------------------- C03
static void ConfC03(Rng& r) {
  if (r.Below(3) == 0) cfg.sampling = 1 << (9 + r.Below(12));
  if (r.Below(2) && cfg.sampling) cfg.guarded = 0;
  cfg.deep_fill = true;
  sc.quantum = std::max(sc.quantum, 25.0);
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
#ifdef NDEBUG
  if (r.Below(2)) {
    static const double lv[] = {0.01, 0.1, 0.6};
    fault_rate[F_MADV_DONTNEED] = lv[r.Below(3)];
    if (r.Below(2)) fault_rate[F_MPROTECT] = cfg.guarded < 0 ? lv[r.Below(3)] : 0;
    if (r.Below(2)) fault_rate[F_MMAP] = lv[r.Below(3)];
    fault_rate[F_MADV_OTHER] = lv[r.Below(3)];
  }
#endif
}
static void GenC03(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 8}, {O_FREE, 16}, {O_BURST_ALLOC, 4}, {O_BURST_FREE, 6}, {O_REALLOC, 14}, {O_CALLOC, 20}, {O_VERIFY, 2},
                  {O_RELEASE, 2}, {O_RELEASE_CPU, 1}, {O_MIGRATE, 1}, {O_TOUCH, 1}, {O_CYCLE, 6}, {O_MISUSE, 1}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind == O_REALLOC) {
      if (r.Below(3) == 0) o.a[1] = EdgeSize(r);
      o.a[3] = r.Below(12) == 0 ? 3 : r.Below(3);
    }
    if (o.kind == O_CALLOC) { o.a[0] = r.Below(3) ? EdgeSize(r) : RandomSize(r); o.a[1] = 1 + r.Below(9); o.a[2] = r.Next() >> 8; }
    if (o.kind == O_CYCLE) { o.a[0] = EdgeSize(r); o.a[1] = r.Next() >> 8; o.a[2] = 1 + r.Below(6); }
    if (o.kind == O_MISUSE) { o.a[0] = r.Next() >> 8; }
  }
}
static bool OpC03(const Op& o) {
  switch (o.kind) {
    case O_CALLOC: {
      AllocSpec s;
      s.kind = o.a[2] & 8 ? AK_TOK_CALLOC : AK_CALLOC;
      s.token = o.a[2] >> 4 & 1;
      s.n = o.a[1];
      s.size = o.a[0] / s.n;
      cur->stack_id = 400 + (o.a[2] & 15);
      if (!Room(s.size * s.n)) return true;
      Blk* b = Alloc(s);
      if (b && (o.a[2] & 3) == 0) FreeBlk(b->p, o.a[2] >> 5);
      return true;
    }
    case O_CYCLE: {  // dirty, free, zero-allocate the same class right away
      for (int i = 0; i < o.a[2]; ++i) {
        if (!Room(o.a[0])) return true;
        AllocSpec s;
        s.size = o.a[0];
        s.kind = AK_MALLOC;
        Blk* b = Alloc(s);
        if (!b) return true;
        FreeBlk(b->p, o.a[1] + i);
        if (((o.a[1] >> i) & 7) == 0) { Api a("release"); MallocExtension::ReleaseMemoryToSystem(1 << 24); }
        s.kind = AK_CALLOC;
        s.n = 1;
        b = Alloc(s);
        if (b && ((o.a[1] >> (i + 8)) & 1)) Realloc(b->p, o.a[0] * 2 + 5, i % 3);
      }
      return true;
    }
    case O_MISUSE: {  // array sizes that overflow
      static const size_t big[] = {SIZE_MAX, SIZE_MAX / 2 + 1, SIZE_MAX / 3 + 1, SIZE_MAX / 4096 + 1, (size_t)1 << 32, ((size_t)1 << 63) + 1};
      size_t n = big[o.a[0] % 6], m = (o.a[0] >> 8) % 4 == 0 ? n : n == ((size_t)1 << 32) ? ((size_t)1 << 32) + ((o.a[0] >> 16) & 15) : 2 + (o.a[0] >> 16) % 4096;
      unsigned __int128 tot = (unsigned __int128)n * m;
      if (tot <= SIZE_MAX) return true;
      errno = 0;
      void* p;
      { Api a("calloc overflow"); p = o.a[0] >> 40 & 1 ? TCMallocInternalCalloc(n, m) : TCMallocInternalCalloc(m, n); }
      if (p || errno != ENOMEM) Violation("overflow", "calloc", "calloc(%zu, %zu) returned %p, errno %d", n, m, p, errno);
      uintptr_t q;
      if (PickBlk(o.a[0] >> 3, 0, &q)) {
        NoSwitch ns0;
        if (live[q].fam != kMalloc) return true;
        Verify(live[q], "before an overflowing reallocarray");
        errno = 0;
        live[q].pins++;
        cur->no_switch--;
        { Api a("reallocarray overflow"); p = TCMallocInternalReallocArray((void*)q, n, m); }
        cur->no_switch++;
        live[q].pins--;
        if (p || errno != ENOMEM) Violation("overflow", "reallocarray", "reallocarray(%zu, %zu) returned %p, errno %d", n, m, p, errno);
        Verify(live[q], "after an overflowing reallocarray");
      }
      SIM_PROBE("overflowing_array_request");
      return true;
    }
  }
  return false;
}
static const Plugin kC03 = {"C03", ConfC03, GenC03, nullptr, OpC03, nullptr, nullptr, nullptr};
static Reg r03(&kC03);

// ------------------------------------------------------------- C04
static void ConfC04(Rng& r) {
  cfg.spare_metadata = r.Below(8) != 0;
  cfg.max_live = (64 + r.Below(600)) << 20;
  cfg.size_mode = r.Below(2) ? 2 : r.Below(4);
  cfg.phases = 2 + r.Below(2);
  if (r.Below(4) == 0) cfg.sampling = 1 << (12 + r.Below(8));
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
  static const double lv[] = {0.01, 0.1, 0.5, 0.9};
  double l = lv[r.Below(4)];
  if (r.Below(2)) fault_rate[F_MPROTECT] = l;
  if (r.Below(2)) fault_rate[F_MMAP] = l;
  if (r.Below(3) == 0) fault_rate[F_MMAP_HINT] = l / 2;
  if (r.Below(3) == 0) fault_rate[F_MADV_DONTNEED] = l;
  if (r.Below(3) == 0) fault_rate[F_MADV_OTHER] = l;
  if (r.Below(3) == 0) fault_rate[F_MUNMAP] = l;
}
static void GenC04(Rng& r) {
  // some runs live at the very end of memory
  double squeeze = r.Below(3) == 0 ? 6 : r.Below(2) ? 0.5 : 0;
  GenerateMix(r, {{O_ALLOC, 26}, {O_FREE, 12}, {O_BURST_ALLOC, 8}, {O_BURST_FREE, 5}, {O_REALLOC, 6}, {O_CALLOC, 4}, {O_VERIFY, 3},
                  {O_RELEASE, 1}, {O_RELEASE_CPU, 1}, {O_MIGRATE, 1}, {O_OSMODE, 5}, {O_HUGE, 4}, {O_QUERY, 1}, {O_UNIT, squeeze}});
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    // operator new terminates on failure: most runs use the entry points that report instead
    if ((o.kind == O_ALLOC || o.kind == O_BURST_ALLOC) && r.Below(200)) {
      AllocSpec s = UnpackSpec(o.a[2], o.a[0], o.a[1]);
      for (int k = 0; Throws(s.kind) && k < 50; ++k) s = RandomSpec(r, o.a[0]);
      if (Throws(s.kind)) s.kind = AK_MALLOC;
      o.a[0] = s.size; o.a[1] = s.align; o.a[2] = PackSpec(s);
    }
    if (o.kind == O_CALLOC) { o.a[0] = RandomSize(r); o.a[1] = 1 + r.Below(5); }
  }
}
static bool OpC04(const Op& o) {
  switch (o.kind) {
    case O_CALLOC: {
      AllocSpec s;
      s.kind = AK_CALLOC;
      s.n = o.a[1];
      s.size = o.a[0] / s.n;
      if (Room(s.size * s.n)) Alloc(s);
      return true;
    }
    case O_OSMODE: {
      NoSwitch ns;
      int m = o.a[0] % 7;
      os::deny_mmap = m == 1 || m == 3;
      os::deny_mprotect = m == 2 || m == 3;
      os::deny_madvise = o.a[1] % 4 == 0;
      os::mmap_budget = m == 4 ? o.a[2] % (64 << 20) : -1;
      os::reserve_budget = m == 5 ? (int64_t)(o.a[2] % 6) << 29 : -1;
      if (m) { SIM_PROBE("os_starts_refusing"); sh->fault_fired[m == 2 || m == 4 ? F_MPROTECT : F_MMAP]++; }
      else SIM_PROBE("os_recovers");
      Log("os mode %d budget %ld reserve %ld", m, os::mmap_budget, os::reserve_budget);
      return true;
    }
    case O_UNIT: {  // no more memory: use up what is left, down to one small class, and live off it
      { NoSwitch ns; os::deny_mmap = os::deny_mprotect = true; sh->fault_fired[F_MPROTECT]++; }
      Rng r(o.a[0]);
      size_t hot = o.a[1] % 3 ? cfg.hot_sizes[o.a[1] / 3 % 2] : 8 + r.Below(8000);
      if (hot > 20000) hot = 8 + hot % 8000;
      AllocSpec s;
      s.kind = o.a[2] & 1 ? AK_NEW_NT : AK_MALLOC;
      s.fill = false;
      cur->stack_id = 400;
      for (size_t n : {(size_t)1 << 20, (size_t)100 << 10, (size_t)8000, hot}) {
        s.size = n;
        for (int i = 0; i < 1500 && Room(n); ++i) if (!Alloc(s)) { if (n == hot) SIM_PROBE("used_up_all_memory"); break; }
      }
      for (int round = 0; round < 3; ++round) {
        int k = 1 + r.Below(60);
        uintptr_t p;
        for (int i = 0; i < k; ++i) if (PickBlk(r.Next() >> 8, r.Below(3), &p)) FreeBlk(p, r.Below(64));
        if (r.Below(3) == 0) { Api a("ReleaseCpuMemory"); MallocExtension::ReleaseCpuMemory(r.Below(cfg.ncpu)); }
        Yield();
        for (int i = 0; i < 2 * k; ++i) if (!Alloc(s)) break;
      }
      return true;
    }
    case O_HUGE: {  // sizes no system can serve
      static const size_t sizes[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 4095, SIZE_MAX / 2, (size_t)PTRDIFF_MAX + 1, (size_t)1 << 47,
                                     (size_t)1 << 46, ((size_t)1 << 42) + 1, (size_t)1 << 43, SIZE_MAX - (2 << 20), (size_t)1 << 41};
      AllocSpec s;
      Rng r(o.a[1]);
      do s = RandomSpec(r, 1); while (Throws(s.kind) || s.kind == AK_CALLOC || s.kind == AK_TOK_CALLOC || s.kind == AK_PVALLOC || s.kind == AK_AAL || s.kind == AK_AALA);
      s.size = sizes[o.a[0] % 11] - ((o.a[2] & 3) == 0 ? r.Below(100000) : 0);
      s.fill = false;
      if (Aligned(s.kind) && (o.a[2] & 4)) s.align = (size_t)1 << (12 + r.Below(35));
      if (s.kind == AK_POSIX_MEMALIGN && s.align < 8) s.align = 8;
      if (s.size < ((size_t)1 << 40)) return true;
      SIM_PROBE("impossible_size_requested");
      AllocOut ao = RawAlloc(s);
      if (ao.p) {
        // only acceptable if the block really is that big
        NoSwitch ns;
        if (!os::RangeUsable((uintptr_t)ao.p, s.size))
          Violation("bad-block", "huge", "%s(%zu) returned %p without that much accessible memory behind it", kAkName[s.kind], s.size, ao.p);
        cur->no_switch--;
        { Api a("free"); FamOf(s.kind) == kMalloc ? TCMallocInternalFree(ao.p) : Aligned(s.kind) ? TCMallocInternalDeleteAligned(ao.p, (std::align_val_t)s.align) : TCMallocInternalDelete(ao.p); }
        cur->no_switch++;
      } else if (FamOf(s.kind) == kMalloc && ao.err != ENOMEM) {
        Violation("oom-report", kAkName[s.kind], "%s(%zu) failed with errno %d", kAkName[s.kind], s.size, ao.err);
      }
      return true;
    }
  }
  return false;
}
static void QuietC04(int) {
  VerifyAll("at a quiet point");
  // the system serves requests again: everything must work
  os::deny_mmap = os::deny_mprotect = os::deny_madvise = false;
  os::mmap_budget = os::reserve_budget = -1;
  double save[F_NUM];
  memcpy(save, fault_rate, sizeof save);
  memset(fault_rate, 0, sizeof save);
  os::no_faults = true;
  static const size_t sz[] = {1, 100, 5000, 70000, 300000, 3 << 20, 30 << 20};
  for (int k : {AK_MALLOC, AK_NEW_NT, AK_NEW_HC_NT, AK_MEMALIGN, AK_NEW, AK_CALLOC}) {
    for (size_t n : sz) {
      AllocSpec s;
      s.kind = k;
      s.size = n;
      s.n = 1;
      s.align = 64;
      s.hint = 1;
      Blk* b = Alloc(s);   // reports a violation when it fails
      if (b) FreeBlk(b->p, 0);
    }
  }
  SIM_PROBE("recovered_after_refusals");
  if (cfg.guarded < 0) {   // refused requests must not have cost memory
    Quiesce();
    NoSwitch ns;
    size_t in_use = Prop("generic.current_allocated_bytes"), lo, hi;
    Held(&lo, &hi);
    if (in_use < lo || in_use > hi)
      Violation("oom-damage", "in-use", "after the system refused memory the application holds %zu..%zu bytes but %zu are reported in use", lo, hi, in_use);
  }
  os::no_faults = false;
  memcpy(fault_rate, save, sizeof save);
}
// Failures must not have cost memory: once everything is freed, all of it is back.
static void EndC04() {
  sc.cpu_allowed = ~0ull;
  os::deny_mmap = os::deny_mprotect = os::deny_madvise = false;
  os::mmap_budget = os::reserve_budget = -1;
  os::no_faults = true;
  FreeEverything();
  NoSwitch ns;
  {
    Api a("flush");
    MallocExtension::MarkThreadIdle();
    for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c);
    for (int i = 0; i < 6; ++i) InstPlunder();
  }
  Figures f = Take();
  if (f.in_use || f.cached())
    Violation("oom-damage", "lost", "the system refused memory; after everything was freed and every cache flushed, memory is not back in the page heap (%s)", Text(f).c_str());
  SIM_PROBE("nothing_lost");
}
static const Plugin kC04 = {"C04", ConfC04, GenC04, nullptr, OpC04, QuietC04, EndC04, nullptr};
static Reg r04(&kC04);
}  // namespace world
