// The simulated application: blocks it holds, how it allocates and frees, generic operations.
#include "world.h"

#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <algorithm>
#include <set>

#include "harness.h"
#include "tcmalloc/alloc_at_least.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/malloc_tracing_extension.h"

extern "C" {
typedef void (*ctor_t)();
extern ctor_t __start_sim_ctors[] __attribute__((weak));
extern ctor_t __stop_sim_ctors[] __attribute__((weak));
}
extern "C" void sim_set_cycle_base(int64_t);

using tcmalloc::MallocExtension;

namespace tcmalloc {
namespace tcmalloc_internal {
// Link-time configuration points the allocator looks for.
int default_want_legacy_size_classes() { return world::cfg.legacy_classes; }
int default_want_disable_dynamic_slabs() { return world::cfg.disable_dynamic_slabs; }
}  // namespace tcmalloc_internal
}  // namespace tcmalloc

namespace world {
std::vector<const Plugin*>& Plugins() { static std::vector<const Plugin*> v; return v; }
Cfg cfg;
std::string prop;
const Plugin* plugin;
std::map<uintptr_t, Blk> live;
std::vector<uintptr_t> by_owner[kMaxFibers];
size_t live_bytes, live_cap_bytes, peak_live;
uint64_t alloc_seq;
static bool cfg_exempt(uintptr_t a);
Rng rng_ops;
void (*on_alloc)(Blk&);
void (*on_free_begin)(const Blk&);
void (*on_free_end)(const Blk&);

static const char* kOpNames[O_NUM] = {
    "none", "alloc", "free", "realloc", "calloc", "burst_alloc", "burst_free", "verify", "release", "release_cpu", "stats",
    "props", "profile", "limit", "sleep", "migrate", "idle", "sampling", "query", "hook", "session", "param", "ranges",
    "misuse", "cpuset", "cycle", "pingpong", "osmode", "stall", "huge", "jump", "unit", "rate", "freeall", "churn", "trim",
    "touch"};

// ------------------------------------------------------------- patterns
static inline uint64_t Word(uint64_t pat, size_t i) { return (pat + i * 0x9e3779b97f4a7c15ull) ^ (pat >> 7); }
// Calls f(offset, len) for the parts of the block that are filled and verified.
template <class F>
static bool Parts(size_t n, F f) {
  if (n <= 16384 || (cfg.deep_fill && n <= (128 << 10))) return f(0, n);
  if (!f(0, 4096)) return false;
  size_t step = n <= (4u << 20) ? 4096 : n <= (64u << 20) ? 65536 : (2u << 20);
  for (size_t o = 4096; o + 64 < n - 4096; o += step)
    if (!f(o, 64)) return false;
  size_t tail = (n - 4096) & ~7ull;
  return f(tail, n - tail);
}
void Fill(const Blk& b) {
  Parts(b.cap, [&](size_t o, size_t n) {
    char* p = (char*)b.p + o;
    size_t i = o / 8;
    for (; n >= 8; n -= 8, p += 8, ++i) { uint64_t w = Word(b.pat, i); memcpy(p, &w, 8); }
    uint64_t w = Word(b.pat, i);
    memcpy(p, &w, n);
    return true;
  });
}
static bool CheckPart(const Blk& b, size_t limit, size_t* bad) {
  bool good = true;
  Parts(b.cap, [&](size_t o, size_t n) {
    if (o >= limit) return false;
    if (o + n > limit) n = limit - o;
    const char* p = (const char*)b.p + o;
    size_t i = o / 8;
    for (; n >= 8; n -= 8, p += 8, ++i) {
      uint64_t w = Word(b.pat, i);
      if (memcmp(p, &w, 8)) { good = false; *bad = (uintptr_t)p - b.p; return false; }
    }
    uint64_t w = Word(b.pat, i);
    if (memcmp(p, &w, n)) { good = false; *bad = (uintptr_t)p - b.p; return false; }
    return true;
  });
  return good;
}
std::string Describe(const Blk& b) {
  char t[300];
  snprintf(t, sizeof t, "block %#lx (request %zu, capacity %zu, align %zu, entry %d, hint %d, allocated by t%d as #%lu)", b.p,
           b.req, b.cap, b.align, b.kind, b.hint, b.tid, b.seq);
  return t;
}
void Verify(const Blk& b, const char* when) {
  if (!b.filled) return;
  size_t bad = 0;
  if (!CheckPart(b, b.cap, &bad))
    Violation("contents", "changed", "%s: contents changed at offset %zu, noticed %s", Describe(b).c_str(), bad, when);
}
void VerifyAll(const char* when) {
  NoSwitch ns;
  for (auto& kv : live) Verify(kv.second, when);
}

size_t Usable(void* p) {
  Api a("GetAllocatedSize");
  return MallocExtension::GetAllocatedSize(p).value_or(0);
}
size_t Prop(const char* name, bool* ok) {
  Api a("GetNumericProperty");
  auto v = MallocExtension::GetNumericProperty(name);
  if (ok) *ok = v.has_value();
  return v.value_or(0);
}

// ------------------------------------------------------------- entry points
const char* const kAkName[AK_NUM] = {
    "malloc", "calloc", "memalign", "aligned_alloc", "posix_memalign", "valloc", "pvalloc", "realloc(null)", "new", "new(nothrow)",
    "new(align)", "new(align,nothrow)", "new(hot_cold)", "new(nothrow,hot_cold)", "new(align,hot_cold)",
    "new(align,nothrow,hot_cold)", "new[]", "new[](nothrow)", "new[](align)", "new[](align,nothrow)", "size_returning_new",
    "size_returning_new_aligned", "size_returning_new_hot_cold", "size_returning_new_aligned_hot_cold", "alloc_at_least",
    "aligned_alloc_at_least", "token new", "token malloc", "token new(hot_cold)", "token calloc", "token size_returning_new"};

static Pending pending_alloc[kMaxFibers];
const Pending& PendingAlloc() { return pending_alloc[cur->id]; }
// Failing allocations: which end is the documented one?
bool Throws(int kind);
static bool MayFail(size_t need, size_t align, uint64_t refused_before) {
  return os::refusals_by[cur->id] != refused_before || need >= (1ull << 40) || align >= (1ull << 40);
}
AllocOut RawAlloc(const AllocSpec& s) {
  AllocOut o;
  o.refused = os::refusals_by[cur->id];
  auto al = (std::align_val_t)s.align;
  auto hc = (__hot_cold_t)s.hint;
  __sized_ptr_t sp{nullptr, 0};
  alloc_result_t ar{nullptr, 0};
  errno = 0;
  pending_alloc[cur->id] = Pending{s.kind, s.size * (s.kind == AK_CALLOC || s.kind == AK_TOK_CALLOC ? s.n : 1), os::refusals_by[cur->id], true};
  struct Clear { int id = cur->id; ~Clear() { pending_alloc[id].active = false; } } clear;
  Api api(kAkName[s.kind]);
  try {
    switch (s.kind) {
      case AK_MALLOC: o.p = TCMallocInternalMalloc(s.size); break;
      case AK_CALLOC: o.p = TCMallocInternalCalloc(s.n, s.size); break;
      case AK_MEMALIGN: o.p = TCMallocInternalMemalign(s.align, s.size); break;
      case AK_ALIGNED_ALLOC: o.p = TCMallocInternalAlignedAlloc(s.align, s.size); break;
      case AK_POSIX_MEMALIGN: {
        void* q = (void*)0x5a5a;
        int rc = TCMallocInternalPosixMemalign(&q, s.align, s.size);
        if (rc == 0) o.p = q;
        else { o.err = rc; if (q != (void*)0x5a5a) Violation("oom-report", "posix_memalign", "failing posix_memalign changed its result"); }
        break;
      }
      case AK_VALLOC: o.p = TCMallocInternalValloc(s.size); break;
      case AK_PVALLOC: o.p = TCMallocInternalPvalloc(s.size); break;
      case AK_REALLOC0: o.p = TCMallocInternalRealloc(nullptr, s.size); break;
      case AK_NEW: o.p = TCMallocInternalNew(s.size); break;
      case AK_NEW_NT: o.p = TCMallocInternalNewNothrow(s.size, std::nothrow); break;
      case AK_NEW_AL: o.p = TCMallocInternalNewAligned(s.size, al); break;
      case AK_NEW_AL_NT: o.p = TCMallocInternalNewAlignedNothrow(s.size, al, std::nothrow); break;
      case AK_NEW_HC: o.p = TCMallocInternalNewHotCold(s.size, hc); break;
      case AK_NEW_HC_NT: o.p = TCMallocInternalNewHotColdNothrow(s.size, std::nothrow, hc); break;
      case AK_NEW_AL_HC: o.p = TCMallocInternalNewAlignedHotCold(s.size, al, hc); break;
      case AK_NEW_AL_HC_NT: o.p = TCMallocInternalNewAlignedHotColdNothrow(s.size, al, std::nothrow, hc); break;
      case AK_NEWA: o.p = TCMallocInternalNewArray(s.size); break;
      case AK_NEWA_NT: o.p = TCMallocInternalNewArrayNothrow(s.size, std::nothrow); break;
      case AK_NEWA_AL: o.p = TCMallocInternalNewArrayAligned(s.size, al); break;
      case AK_NEWA_AL_NT: o.p = TCMallocInternalNewArrayAlignedNothrow(s.size, al, std::nothrow); break;
      case AK_SRN: sp = __size_returning_new(s.size); break;
      case AK_SRN_AL: sp = __size_returning_new_aligned(s.size, al); break;
      case AK_SRN_HC: sp = __size_returning_new_hot_cold(s.size, hc); break;
      case AK_SRN_AL_HC: sp = __size_returning_new_aligned_hot_cold(s.size, al, hc); break;
      case AK_AAL: ar = TCMallocInternalAllocAtLeast(s.size); break;
      case AK_AALA: ar = TCMallocInternalAlignedAllocAtLeast(s.align, s.size); break;
      case AK_TOK_NEW: o.p = s.token ? __alloc_token_1__Znwm(s.size) : __alloc_token_0__Znwm(s.size); break;
      case AK_TOK_MALLOC: o.p = s.token ? __alloc_token_1_malloc(s.size) : __alloc_token_0_malloc(s.size); break;
      case AK_TOK_NEW_HC: o.p = s.token ? __alloc_token_1__Znwm12__hot_cold_t(s.size, hc) : __alloc_token_0__Znwm12__hot_cold_t(s.size, hc); break;
      case AK_TOK_CALLOC: o.p = s.token ? __alloc_token_1_calloc(s.n, s.size) : __alloc_token_0_calloc(s.n, s.size); break;
      case AK_TOK_SRN: sp = s.token ? __alloc_token_1___size_returning_new(s.size) : __alloc_token_0___size_returning_new(s.size); break;
    }
    if (!o.err) o.err = errno;
  } catch (const std::bad_alloc&) {
    o.threw = true;
  }
  if (sp.p) { o.p = sp.p; o.ret = sp.n; }
  if (ar.ptr) { o.p = ar.ptr; o.ret = ar.size; }
  return o;
}
Fam FamOf(int kind) {
  if (kind >= AK_NEWA && kind <= AK_NEWA_AL_NT) return kNewArr;
  if (kind == AK_AAL || kind == AK_AALA || kind == AK_TOK_MALLOC || kind == AK_TOK_CALLOC || kind <= AK_REALLOC0) return kMalloc;
  return kNew;
}
bool Aligned(int kind) {
  switch (kind) {
    case AK_MEMALIGN: case AK_ALIGNED_ALLOC: case AK_POSIX_MEMALIGN: case AK_NEW_AL: case AK_NEW_AL_NT:
    case AK_NEW_AL_HC: case AK_NEW_AL_HC_NT: case AK_NEWA_AL: case AK_NEWA_AL_NT: case AK_SRN_AL: case AK_SRN_AL_HC: case AK_AALA:
      return true;
  }
  return false;
}
bool Throws(int kind) {
  switch (kind) {
    case AK_NEW: case AK_NEW_AL: case AK_NEW_HC: case AK_NEW_AL_HC: case AK_NEWA: case AK_NEWA_AL: case AK_SRN: case AK_SRN_AL:
    case AK_SRN_HC: case AK_SRN_AL_HC: case AK_TOK_NEW: case AK_TOK_NEW_HC: case AK_TOK_SRN:
      return true;
  }
  return false;
}

static bool Overlap(uintptr_t p, size_t n, const Blk** who) {
  if (n == 0) n = 1;
  auto it = live.upper_bound(p);
  if (it != live.end() && it->second.p < p + n) { *who = &it->second; return true; }
  if (it != live.begin()) {
    --it;
    if (it->second.p + std::max<size_t>(it->second.cap, 1) > p) { *who = &it->second; return true; }
  }
  return false;
}
static bool OverlapsLive(uintptr_t p, size_t n, char* why, size_t whylen) {
  const Blk* b;
  if (!Overlap(p, n, &b)) return false;
  snprintf(why, whylen, "%s", Describe(*b).c_str());
  return true;
}

Blk* Register(Blk b, bool) {
  NoSwitch ns;
  const Blk* other;
  if (Overlap(b.p, b.cap, &other))
    Violation("overlap", "live-blocks", "new %s overlaps live %s", Describe(b).c_str(), Describe(*other).c_str());
  // (a guarded block of no size stays inaccessible)
  if (!os::Managed((void*)b.p) || ((b.cap || cfg.guarded < 0) && !os::RangeUsable(b.p, std::max<size_t>(b.cap, 1))))
    Violation("bad-block", "not-mapped", "%s lies outside accessible memory of the allocator", Describe(b).c_str());
  b.seq = ++alloc_seq;
  b.owner = cur->id;
  b.tid = cur->id;
  if (!b.first_tid) b.first_tid = cur->id, b.first_stack = b.stack_id, b.first_req = b.req;
  b.pos = by_owner[b.owner].size();
  b.t_alloc = NowNs();
  by_owner[b.owner].push_back(b.p);
  live_bytes += b.req;
  live_cap_bytes += b.cap;
  peak_live = std::max(peak_live, live_cap_bytes);
  sh->allocs++;
  Blk& r = live[b.p] = b;
  Log("  have %s", Describe(b).c_str());
  if (on_alloc) on_alloc(r);
  return &r;
}
void Unregister(uintptr_t p) {
  NoSwitch ns;
  auto it = live.find(p);
  if (it == live.end()) Internal("unregister");
  Blk& b = it->second;
  auto& v = by_owner[b.owner];
  uintptr_t last = v.back();
  v[b.pos] = last;
  v.pop_back();
  if (last != p) live[last].pos = b.pos;
  live_bytes -= b.req;
  live_cap_bytes -= b.cap;
  sh->frees++;
  live.erase(it);
}

static size_t Need(const AllocSpec& s) {
  if (s.kind == AK_CALLOC || s.kind == AK_TOK_CALLOC) return s.n * s.size;
  if (s.kind == AK_PVALLOC) return (std::max<size_t>(s.size, 1) + 4095) & ~4095ull;
  return s.size;
}

bool unique_stacks;
static uint32_t next_stack = 1000;
FreedSize freed_size[kMaxFibers];
Blk* Alloc(const AllocSpec& s0) {
  if (unique_stacks) cur->stack_id = next_stack++;
  AllocSpec s = s0;
  if (s.kind == AK_ALIGNED_ALLOC && s.align == 0) s.align = 16;
  uint32_t sid = cur->stack_id;
  int cpu0 = cur->cpu;
  AllocOut o = RawAlloc(s);
  uint64_t cpus = cur->cpus_seen;
  size_t need = Need(s);
  if (!o.p) {
    const char* nm = kAkName[s.kind];
    if (Throws(s.kind)) Violation("oom-report", nm, "%s(%zu) returned null", nm, s.size);
    if (FamOf(s.kind) == kMalloc && o.err != ENOMEM && s.kind != AK_AAL && s.kind != AK_AALA)
      Violation("oom-report", nm, "%s(%zu) failed with errno %d", nm, s.size, o.err);
    SIM_PROBE("alloc_failed");
    bool overflow = (s.kind == AK_CALLOC || s.kind == AK_TOK_CALLOC) && s.n && s.size > SIZE_MAX / s.n;
    if (!overflow && !MayFail(need, s.align, o.refused))
      Violation("spurious-oom", nm, "%s(%zu, align %zu) failed although the system refused nothing", nm, need, s.align);
    return nullptr;
  }
  Blk b;
  b.p = (uintptr_t)o.p;
  b.req = need;
  b.align = Aligned(s.kind) ? s.align : (s.kind == AK_VALLOC || s.kind == AK_PVALLOC) ? 4096 : 0;
  b.fam = FamOf(s.kind);
  b.kind = s.kind;
  if (s.kind == AK_NEW_HC || s.kind == AK_NEW_HC_NT || s.kind == AK_NEW_AL_HC || s.kind == AK_NEW_AL_HC_NT ||
      s.kind == AK_SRN_HC || s.kind == AK_SRN_AL_HC || s.kind == AK_TOK_NEW_HC) b.hint = s.hint;
  if (s.kind >= AK_TOK_NEW) b.token = s.token;
  b.ret = o.ret;
  b.aux2 = Tag(b.p) < 2;
  b.pat = (alloc_seq + 1) * 0xd1342543de82ef95ull + cur->id;
  b.stack_id = sid;
  b.cpu = cpu0;
  b.cpus = cpus;
  size_t al = b.align ? b.align : need >= 16 ? 16 : need >= 8 ? 8 : 1;
  if (b.p & (al - 1))
    Violation("alignment", kAkName[s.kind], "%s(%zu, align %zu) returned misaligned %#lx", kAkName[s.kind], need, b.align, b.p);
  size_t cap;
  {
    // The size query must not give other threads a chance before the block is registered.
    NoSwitch ns;
    b.cap = std::max<size_t>(need, b.ret);
    const Blk* other;
    if (Overlap(b.p, b.cap, &other))
      Violation("overlap", "live-blocks", "new %s overlaps live %s", Describe(b).c_str(), Describe(*other).c_str());
    cap = Usable(o.p);
    if (cap < need)
      Violation("capacity", "short", "%s: reported capacity %zu is below the %zu requested", Describe(b).c_str(), cap, need);
    if (b.ret && (b.ret < need))
      Violation("capacity", "returned-short", "%s: returned capacity %zu is below the request", Describe(b).c_str(), b.ret);
    if (b.ret && b.ret > cap)
      Violation("capacity", "returned-long", "%s: returned capacity %zu exceeds the reported capacity %zu", Describe(b).c_str(), b.ret, cap);
    b.cap = cap;
    b.filled = s.fill;
    if (s.kind == AK_CALLOC || s.kind == AK_TOK_CALLOC) {
      const unsigned char* q = (const unsigned char*)o.p;
      size_t step = need > (8u << 20) ? 509 : 1;
      for (size_t i = 0; i < need; i += step)
        if (q[i]) Violation("calloc", "nonzero", "%s: byte %zu of zero-initialised memory is %#x", Describe(b).c_str(), i, q[i]);
    }
    Blk* r = Register(b);
    if (s.fill) Fill(*r);
    return r;
  }
}

void FreeBlk(uintptr_t p, int variant) {
  Blk b;
  {
    NoSwitch ns;
    auto it = live.find(p);
    if (it == live.end()) return;
    b = it->second;
    Verify(b, "when freed");
    if (on_free_begin) on_free_begin(b);
    Unregister(p);
  }
  void* q = (void*)p;
  auto al = (std::align_val_t)b.align;
  // any size between the request and the returned capacity is valid
  size_t sz = b.req;
  if (b.ret > b.req) {
    uint64_t h = (uint64_t)variant * 0x9e3779b97f4a7c15ull;
    sz = (variant >> 4) & 1 ? b.ret : b.req + h % (b.ret - b.req + 1);
  }
  if (unique_stacks) cur->stack_id = next_stack++;
  freed_size[cur->id].known = false;
  auto Sz = [&] { freed_size[cur->id] = {true, sz}; return sz; };
  Log("  free(variant %d, size %zu) %s", variant & 3, sz, Describe(b).c_str());
  bool alg = b.align != 0 && b.kind != AK_VALLOC && b.kind != AK_PVALLOC;
  Api a("free");
  switch (b.fam) {
    case kMalloc:
      switch (variant & 3) {
        case 0: TCMallocInternalFree(q); break;
        case 1:
          if (alg) {
            if (b.kind == AK_MEMALIGN || b.kind == AK_POSIX_MEMALIGN || b.kind == AK_ALIGNED_ALLOC || b.kind == AK_AALA)
              TCMallocInternalFreeAlignedSized(q, b.align, Sz());
            else TCMallocInternalFree(q);
          } else if (b.kind == AK_VALLOC || b.kind == AK_PVALLOC) TCMallocInternalFree(q);
          else TCMallocInternalFreeSized(q, Sz());
          break;
        case 2:
          if (alg && b.align > 1) TCMallocInternalSdallocx(q, Sz(), __builtin_ctzll(b.align));
          else if (alg) TCMallocInternalFree(q);  // flags cannot express alignment 1
          else if (b.kind == AK_VALLOC || b.kind == AK_PVALLOC) TCMallocInternalFree(q);
          else TCMallocInternalSdallocx(q, Sz(), 0);
          break;
        case 3: TCMallocInternalCfree(q); break;
      }
      break;
    case kNew:
      if (alg) {
        switch (variant & 3) {
          case 0: TCMallocInternalDeleteAligned(q, al); break;
          case 1: case 2: TCMallocInternalDeleteSizedAligned(q, Sz(), al); break;
          case 3: TCMallocInternalDeleteAlignedNothrow(q, al, std::nothrow); break;
        }
      } else {
        switch (variant & 3) {
          case 0: TCMallocInternalDelete(q); break;
          case 1: case 2: TCMallocInternalDeleteSized(q, Sz()); break;
          case 3: TCMallocInternalDeleteNothrow(q, std::nothrow); break;
        }
      }
      break;
    case kNewArr:
      if (alg) {
        switch (variant & 3) {
          case 0: TCMallocInternalDeleteArrayAligned(q, al); break;
          case 1: case 2: TCMallocInternalDeleteArraySizedAligned(q, Sz(), al); break;
          case 3: TCMallocInternalDeleteArrayAlignedNothrow(q, al, std::nothrow); break;
        }
      } else {
        switch (variant & 3) {
          case 0: TCMallocInternalDeleteArray(q); break;
          case 1: case 2: TCMallocInternalDeleteArraySized(q, Sz()); break;
          case 3: TCMallocInternalDeleteArrayNothrow(q, std::nothrow); break;
        }
      }
      break;
  }
  if (on_free_end) { NoSwitch ns; on_free_end(b); }
}

bool PickBlk(int64_t pick, int mode, uintptr_t* out) {
  NoSwitch ns;
  uint64_t u = (uint64_t)pick;
  int o = cur->id;
  if (mode == 1) o = (int)((u >> 20) % n_fibers);
  for (int k = 0; k < n_fibers; ++k) {
    auto& v = by_owner[(o + k) % n_fibers];
    if (v.empty()) continue;
    size_t i;
    switch (mode) {
      case 2: i = v.size() - 1; break;        // LIFO of own
      default: i = u % v.size();
    }
    size_t n = v.size();
    for (size_t j = 0; j < n; ++j, i = (i + 1) % n)
      if (live[v[i]].pins == 0) { *out = v[i]; return true; }
  }
  return false;
}
Pin::Pin(uintptr_t q) : p(q) { NoSwitch ns; live[p].pins++; }
Pin::~Pin() { NoSwitch ns; live[p].pins--; }

bool Realloc(uintptr_t p, size_t n, int variant) {
  Blk b;
  {
    NoSwitch ns;
    auto it = live.find(p);
    if (it == live.end()) return true;
    b = it->second;
    if (b.fam != kMalloc) return true;
    Verify(b, "before realloc");
    if (on_free_begin) on_free_begin(b);
    Unregister(p);
  }
  if (unique_stacks) cur->stack_id = next_stack++;
  freed_size[cur->id].known = false;
  void* r;
  size_t want = n;
  uint64_t refused = os::refusals_by[cur->id];
  bool overflow = false;
  errno = 0;
  {
    Api a("realloc");
    switch (variant == 3 ? 3 : variant % 3) {
      case 3:
        overflow = true;
        want = SIZE_MAX;
        r = TCMallocInternalReallocArray((void*)p, SIZE_MAX / 16 + 2 + n, 16);
        break;
      case 0: r = TCMallocInternalRealloc((void*)p, n); break;
      case 1: r = TCMallocInternalReallocArray((void*)p, 1, n); break;
      default:
        want = n / 3 * 3;
        r = TCMallocInternalReallocArray((void*)p, 3, n / 3);
    }
  }
  int err = errno;
  n = want;
  NoSwitch ns;
  if (!r) {
    if (n == 0) { if (on_free_end) on_free_end(b); return true; }   // freed
    if (err != ENOMEM) Violation("oom-report", "realloc", "failing realloc(%zu) left errno %d", n, err);
    if (!overflow && !MayFail(n, 0, refused)) Violation("spurious-oom", "realloc", "realloc(%zu) failed although the system refused nothing", n);
    // the old block must be intact and still ours
    uint64_t keep = b.seq;
    Verify(b, "after a failing realloc");
    Blk* nb = Register(b);
    (void)keep;
    (void)nb;
    SIM_PROBE("realloc_failed");
    return false;
  }
  Blk nb = b;
  nb.p = (uintptr_t)r;
  nb.req = n;
  nb.ret = 0;
  nb.align = 0;
  nb.kind = AK_MALLOC;
  nb.hint = -1;
  // Moving keeps the block's partition (and node).
  nb.token = Tag(b.p) == 6 || Tag(b.p) == 1;
  nb.kind = AK_TOK_MALLOC;
  nb.cpus = ~0ull;
  nb.inplace = nb.p == b.p;
  if (!nb.inplace) nb.first_tid = 0;
  nb.aux2 = Tag(nb.p) < 2;
  nb.stack_id = cur->stack_id;
  if (nb.p == b.p) nb.aux |= 1;
  size_t bad = 0;
  size_t keepn = std::min(b.req, n);
  Blk probe = b;
  probe.p = nb.p;
  if (b.filled && !CheckPart(probe, keepn, &bad))
    Violation("contents", "realloc", "realloc of %s to %zu lost byte %zu", Describe(b).c_str(), n, bad);
  nb.cap = n;
  const Blk* other;
  if (Overlap(nb.p, nb.cap, &other))
    Violation("overlap", "live-blocks", "reallocated %s overlaps live %s", Describe(nb).c_str(), Describe(*other).c_str());
  nb.cap = Usable(r);
  if (nb.cap < n) Violation("capacity", "short", "%s: capacity %zu below reallocated size %zu", Describe(nb).c_str(), nb.cap, n);
  nb.pat = (alloc_seq + 1) * 0xd1342543de82ef95ull + cur->id;
  nb.filled = true;
  if (on_free_end) on_free_end(b);
  Blk* reg = Register(nb);
  Fill(*reg);
  return true;
}

// Ends of the process that are the documented answer to the system refusing memory.
static bool cfg_exempt(uintptr_t a) {
  // Unhinted mappings are the allocator's probes of what the kernel supports; it insists on them.
  return a == 0 || (cfg.spare_metadata && Tag(a) == 3);
}
bool BaseCrash(const char* kind, const char* text) {
  const Pending& pa = pending_alloc[cur->id];
  if (strstr(text, "Unable to allocate")) {
    if (pa.active && Throws(pa.kind)) {
      SIM_PROBE("oom_terminated_new");
      if (MayFail(pa.size, 0, pa.refused)) return true;
      Violation("spurious-oom", kAkName[pa.kind], "%s(%zu) ended the process although the system refused nothing", kAkName[pa.kind], pa.size);
    }
    if (os::refusals) return true;  // an allocation made by the allocator's own interface functions
  }
  if (strstr(text, "Out of memory trying to allocate internal tcmalloc data") && os::refusals_by[cur->id]) {
    SIM_PROBE("oom_terminated_metadata");
    return true;
  }
  return false;
}

// ------------------------------------------------------------- random specs
static size_t kFixed[] = {1, 7, 8, 9, 16, 17, 24, 32, 33, 48, 63, 64, 65, 96, 128, 200, 256, 512, 1000, 1024, 2048, 4096, 8192, 8193, 16384};
size_t RandomSize(Rng& r) {
  uint64_t d = r.Below(100);
  if (cfg.regions && r.Below(4) == 0) return (2u << 20) + 1 + (d < 50 ? r.Below(300000) : d < 90 ? r.Below(3u << 20) : r.Below(20u << 20));
  switch (cfg.size_mode) {
    case 0:  // mixture
      if (d < 35) return r.Below(1024);
      if (d < 50) return cfg.hot_sizes[r.Below(4)];
      if (d < 60) return kFixed[r.Below(sizeof kFixed / sizeof *kFixed)];
      if (d < 75) return 1024 + r.Below(31 * 1024);
      if (d < 86) return 32768 + r.Below(230 * 1024);
      if (d < 96) return 262144 + r.Below(4u << 20) + 1;
      if (d < 98) return (2u << 20) * (1 + r.Below(6)) + r.Range(-8192, 8192);
      return (4u << 20) + r.Below(24u << 20);
    case 1:  // one or few classes
      return d < 92 ? cfg.hot_sizes[r.Below(2)] : r.Below(4096);
    case 2:  // pages
      if (d < 60) return 262145 + r.Below(1 << 20);
      if (d < 80) return (1 << 20) + r.Below(6u << 20);
      if (d < 90) return 8192 * (1 + r.Below(255));
      return (2u << 20) * (1 + r.Below(12)) - r.Below(16384);
    case 3:  // spans of medium objects: central free list and filler traffic
      if (d < 70) return 8192 + r.Below(248 * 1024);
      return 2048 + r.Below(30000);
    case 4:  // tiny
      return r.Below(64);
    case 5:  // whole hugepages
      return d < 70 ? (2u << 20) * (1 + r.Below(4)) - (d & 1 ? r.Below(16384) : 0) : d < 85 ? 262145 + r.Below(2u << 20) : 1 + r.Below(2048);
  }
  return r.Below(1024);
}
AllocSpec RandomSpec(Rng& r, size_t size) {
  AllocSpec s;
  s.size = size;
  uint64_t d = r.Below(100);
  if (d < 40) s.kind = d & 1 ? AK_MALLOC : AK_NEW;
  else s.kind = r.Below(AK_NUM);
  if (s.kind == AK_CALLOC || s.kind == AK_TOK_CALLOC) { s.n = 1 + r.Below(8); s.size = size / s.n; }
  if (Aligned(s.kind)) {
    int lg = r.Below(100) < 80 ? 3 + r.Below(10) : r.Below(22);
    s.align = 1ull << lg;
    if (s.kind == AK_POSIX_MEMALIGN && s.align < 8) s.align = 8;
  }
  s.hint = r.Below(3) == 0 ? 0 : r.Below(2) ? 255 : r.Below(256);
  s.token = r.Below(2);
  return s;
}

// ------------------------------------------------------------- op list
void Emit(int tid, int phase, int kind, int64_t a, int64_t b, int64_t c, int64_t d) {
  if (sh->n_ops >= kMaxOps) return;
  Op& o = sh->ops[sh->n_ops++];
  memset(&o, 0, sizeof o);
  o.tid = tid;
  o.pad = phase;
  o.kind = kind;
  o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d;
}
int64_t PackSpec(const AllocSpec& s) {
  return (int64_t)s.kind | (int64_t)s.hint << 8 | (int64_t)s.token << 16 | (int64_t)s.n << 20;
}
AllocSpec UnpackSpec(int64_t v, size_t size, size_t align) {
  AllocSpec s;
  s.kind = (v & 255) % AK_NUM;
  s.hint = (v >> 8) & 255;
  s.token = (v >> 16) & 1;
  s.n = (v >> 20) & 1023;
  s.size = size;
  s.align = align;
  return s;
}
void GenerateMix(Rng& r, const std::vector<Mix>& mix) {
  double tot = 0;
  for (auto& m : mix) tot += m.w;
  for (int ph = 0; ph < cfg.phases; ++ph)
    for (int t = 1; t <= cfg.threads; ++t) {
      int n = cfg.ops_per_thread / 2 + r.Below(cfg.ops_per_thread + 1);
      // some threads only live through the first phases
      if (ph > 0 && cfg.threads > 2 && t % 3 == 0) continue;
      for (int i = 0; i < n; ++i) {
        double x = (r.Next() >> 11) * (1.0 / (1ull << 53)) * tot;
        int k = mix.back().kind;
        for (auto& m : mix) { x -= m.w; if (x < 0) { k = m.kind; break; } }
        switch (k) {
          case O_ALLOC: { AllocSpec s = RandomSpec(r, RandomSize(r)); Emit(t, ph, k, s.size, s.align, PackSpec(s), r.Below(64)); break; }
          case O_BURST_ALLOC: { AllocSpec s = RandomSpec(r, RandomSize(r));
            int cnt = s.size > 300000 ? 1 + r.Below(6) : s.size > 20000 ? 1 + r.Below(30) : 1 + r.Below(150);
            Emit(t, ph, k, s.size, s.align, PackSpec(s), cnt); break; }
          case O_FREE: Emit(t, ph, k, r.Next() >> 8, r.Below(100) < 65 ? 0 : 1, r.Below(64)); break;
          case O_BURST_FREE: Emit(t, ph, k, r.Next() >> 8, r.Below(3), r.Below(64), 1 + r.Below(150)); break;
          case O_REALLOC: Emit(t, ph, k, r.Next() >> 8, RandomSize(r), r.Below(2), r.Below(3)); break;
          case O_VERIFY: Emit(t, ph, k, r.Next() >> 8, 1 + r.Below(20)); break;
          case O_RELEASE: Emit(t, ph, k, r.Below(4) == 0 ? (int64_t)1 << 40 : r.Below(3) == 0 ? 0 : (int64_t)r.Below(32u << 20)); break;
          case O_RELEASE_CPU: Emit(t, ph, k, r.Below(cfg.ncpu)); break;
          case O_SLEEP: Emit(t, ph, k, r.Below(4) ? r.Below(2000000000) : r.Below(40) * 1000000000ull); break;
          case O_MIGRATE: Emit(t, ph, k, 1 + r.Below((1ull << cfg.ncpu) - 1)); break;
          case O_LIMIT: Emit(t, ph, k, r.Below(2), r.Next() >> 8); break;
          case O_PINGPONG: Emit(t, ph, k, cfg.hot_sizes[r.Below(4)], 1 + r.Below(40), r.Below(64)); break;
          default: Emit(t, ph, k, r.Next() >> 8, r.Next() >> 8, r.Next() >> 8, r.Next() >> 8);
        }
      }
    }
}

// ------------------------------------------------------------- generic operations
bool Room(size_t n) { return live_cap_bytes + n <= cfg.max_live; }

bool BaseOp(const Op& o) {
  switch (o.kind) {
    case O_ALLOC: {
      AllocSpec s = UnpackSpec(o.a[2], o.a[0], o.a[1]);
      if (!Room(s.size * std::max<size_t>(s.n, 1) + s.align)) { uintptr_t p; if (PickBlk(o.a[3], 1, &p)) FreeBlk(p, o.a[3]); return true; }
      cur->stack_id = 100 + o.a[3];
      Alloc(s);
      return true;
    }
    case O_BURST_ALLOC: {
      AllocSpec s = UnpackSpec(o.a[2], o.a[0], o.a[1]);
      cur->stack_id = 200 + (o.a[2] & 63);
      for (int64_t i = 0; i < o.a[3]; ++i) {
        if (!Room(s.size * std::max<size_t>(s.n, 1) + s.align)) break;
        Alloc(s);
      }
      return true;
    }
    case O_FREE: {
      uintptr_t p;
      if (PickBlk(o.a[0], o.a[1], &p)) FreeBlk(p, o.a[2]);
      return true;
    }
    case O_BURST_FREE: {
      Rng r(o.a[0]);
      for (int64_t i = 0; i < o.a[3]; ++i) {
        uintptr_t p;
        if (!PickBlk(r.Next() >> 8, o.a[1], &p)) break;
        FreeBlk(p, o.a[2] + (r.Next() & 63));
      }
      return true;
    }
    case O_REALLOC: {
      uintptr_t p;
      size_t n = o.a[1];
      if (!Room(n)) n = 64;
      if (PickBlk(o.a[0], o.a[2], &p)) Realloc(p, n, o.a[3]);
      return true;
    }
    case O_REGIONS:
      cur->stack_id = 300;
      for (int64_t i = 0; i < o.a[0]; ++i) {
        AllocSpec s;
        s.size = (2u << 20) + 1 + (o.a[1] * (i + 1)) % 100000;
        s.fill = false;
        if (!Alloc(s)) break;
      }
      return true;
    case O_PINGPONG: {
      // producer/consumer: frees what others allocated and allocates for them
      AllocSpec s;
      s.size = o.a[0];
      s.kind = o.a[2] & 1 ? AK_NEW : AK_MALLOC;
      for (int64_t i = 0; i < o.a[1]; ++i) {
        Alloc(s);
        uintptr_t p;
        if (PickBlk((i << 20) + i * 7, 1, &p)) FreeBlk(p, o.a[2]);
      }
      return true;
    }
    case O_VERIFY: {
      Rng r(o.a[0]);
      for (int64_t i = 0; i < o.a[1]; ++i) {
        uintptr_t p;
        if (!PickBlk(r.Next() >> 8, 1, &p)) break;
        NoSwitch ns;
        Verify(live[p], "by a reader");
      }
      return true;
    }
    case O_RELEASE: {
      Api a("ReleaseMemoryToSystem");
      MallocExtension::ReleaseMemoryToSystem(o.a[0]);
      return true;
    }
    case O_RELEASE_CPU: {
      Api a("ReleaseCpuMemory");
      MallocExtension::ReleaseCpuMemory(o.a[0] % cfg.ncpu);
      return true;
    }
    case O_SLEEP: SleepNs(o.a[0]); return true;
    case O_CPUSET: {
      NoSwitch ns;
      uint64_t all = (1ull << cfg.ncpu) - 1, m = o.a[0] & all;
      if (o.a[1] & 1) m = all;
      sc.cpu_allowed = m ? m : 1;
      sh->fault_fired[F_CPUSET_CHANGE]++;
      return true;
    }
    case O_MIGRATE: {
      uint64_t m = o.a[0] & ((1ull << cfg.ncpu) - 1);
      if (!m) m = 1;
      NoSwitch ns;
      cur->affinity = m;
      return true;
    }
    case O_IDLE: {
      { Api a("MarkThreadIdle"); MallocExtension::MarkThreadIdle(); }
      if (o.a[0] & 1) { Yield(); Api a("MarkThreadBusy"); MallocExtension::MarkThreadBusy(); }
      return true;
    }
    case O_TRIM: { Api a("malloc_trim"); TCMallocInternalMallocTrim(0); return true; }
    case O_STATS: {
      Api a("GetStats");
      std::string s = MallocExtension::GetStats();
      return true;
    }
    case O_PROPS: {
      Api a("GetProperties");
      auto m = MallocExtension::GetProperties();
      return true;
    }
    case O_QUERY: {
      uintptr_t p;
      if (!PickBlk(o.a[0], 1, &p)) return true;
      size_t cap;
      MallocExtension::Ownership own;
      uint64_t seq;
      Pin pin(p);
      {
        NoSwitch ns;
        cap = live[p].cap;
        seq = live[p].seq;
      }
      size_t got;
      {
        Api a("GetOwnership");
        own = MallocExtension::GetOwnership((void*)p);
        got = MallocExtension::GetAllocatedSize((void*)p).value_or(0);
      }
      NoSwitch ns;
      auto it = live.find(p);
      if (it != live.end() && it->second.seq == seq) {
        if (own != MallocExtension::Ownership::kOwned) Violation("query", "ownership", "%s reported as not owned", Describe(it->second).c_str());
        if (got != cap) Violation("query", "size", "%s: capacity query changed from %zu to %zu", Describe(it->second).c_str(), cap, got);
      }
      return true;
    }
    case O_FREEALL: {
      uintptr_t p;
      while (PickBlk(0, o.a[0] & 1, &p)) FreeBlk(p, o.a[1] & 63);
      return true;
    }
    case O_PARAM: ChangeParam(o.a[0], o.a[1]); return true;
    case O_CHURN: RunShortThread(o.a[0], 2 + o.a[1] % 40); return true;
    case O_STALL: {
      // this thread is descheduled for a long time
      sh->fault_fired[F_STALL]++;
      SleepNs(o.a[0] % 5000000000ll);
      return true;
    }
    case O_TOUCH: {
      uintptr_t p;
      if (!PickBlk(o.a[0], 1, &p)) return true;
      NoSwitch ns;
      Blk& b = live[p];
      Verify(b, "before rewriting");
      b.pat = b.pat * 3 + 1;
      Fill(b);
      return true;
    }
  }
  return false;
}

void ChangeParam(uint64_t a, uint64_t b) {
  Api api("set parameter");
  switch (a % 16) {
    case 0: MallocExtension::SetMaxPerCpuCacheSize(4096 << (b % 11)); break;
    case 1: MallocExtension::SetMaxTotalThreadCacheBytes(512 << 10 << (b % 6)); break;
    case 2: MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)(b % 3 ? b % (64 << 20) : 0)); break;
    case 3: MallocExtension::SetSkipSubreleaseShortInterval(absl::Milliseconds(b % 3 ? b % 60000 : 0)); break;
    case 4: MallocExtension::SetSkipSubreleaseLongInterval(absl::Milliseconds(b % 3 ? b % 600000 : 0)); break;
    case 5: if (TCMalloc_Internal_SetReleasePartialAllocPagesEnabled) TCMalloc_Internal_SetReleasePartialAllocPagesEnabled(b & 1); break;
    case 6: if (TCMalloc_Internal_SetHPAASubrelease) TCMalloc_Internal_SetHPAASubrelease(b & 1); break;
    case 7: if (TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled) TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(b & 1); break;
    case 8: if (TCMalloc_Internal_SetUsermodeHugepageCollapse) TCMalloc_Internal_SetUsermodeHugepageCollapse(b & 1); break;
    case 9: if (TCMalloc_Internal_SetResizeSizeClassMaxCapacityEnabled) TCMalloc_Internal_SetResizeSizeClassMaxCapacityEnabled(b & 1); break;
    case 10: if (TCMalloc_Internal_SetPrioritizeSpansEnabled) TCMalloc_Internal_SetPrioritizeSpansEnabled(b & 1); break;
    case 11: if (TCMalloc_Internal_SetHugeRegionAdaptiveReleaseEnabled) TCMalloc_Internal_SetHugeRegionAdaptiveReleaseEnabled(b & 1); break;
    case 12: if (TCMalloc_Internal_SetReleaseFreeSwapped) TCMalloc_Internal_SetReleaseFreeSwapped(b & 1); break;
    case 13: if (TCMalloc_Internal_SetMadvise) TCMalloc_Internal_SetMadvise((tcmalloc::tcmalloc_internal::MadvisePreference)(b % 4)); break;
    case 14: if (TCMalloc_Internal_SetBackSmallAllocations) TCMalloc_Internal_SetBackSmallAllocations(b & 1); if (TCMalloc_Internal_SetBackSizeThresholdBytes) TCMalloc_Internal_SetBackSizeThresholdBytes(4096 << (b % 8)); break;
    case 15: if (TCMalloc_Internal_SetReleaseMaxColdPages) TCMalloc_Internal_SetReleaseMaxColdPages(b & 1); break;
  }
}
// A thread that lives briefly; its blocks pass to the thread that started it.
void RunShortThread(uint64_t seed, int n) {
  if (n_fibers >= kMaxFibers - 6) return;
  int parent = cur->id, id;
  {
    NoSwitch ns;
    id = Spawn([=] {
      cur->what = "short-lived thread";
      Rng r(seed);
      for (int i = 0; i < n; ++i) {
        size_t sz = RandomSize(r);
        if (sz > 200000) sz %= 200000;
        uintptr_t p;
        if (r.Below(3) && Room(sz)) Alloc(RandomSpec(r, sz));
        else if (PickBlk(r.Next() >> 8, r.Below(3) == 0, &p)) FreeBlk(p, r.Below(64));
        Yield();
      }
      NoSwitch ns2;
      auto& mine = by_owner[cur->id];
      for (uintptr_t p : mine) {
        Blk& b = live[p];
        b.owner = parent;
        b.pos = by_owner[parent].size();
        by_owner[parent].push_back(p);
      }
      mine.clear();
    });
  }
  while (fibers[id]->state != Fiber::kDone) { BlockOn(fibers[id]); }
}
void FreeEverything() {
  uintptr_t p;
  uint64_t i = 0;
  while (PickBlk(i++ << 8, 1, &p)) FreeBlk(p, i);
}
void FlushAllCaches() {
  Api a("flush");
  for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c);
  MallocExtension::MarkThreadIdle();
}

// ------------------------------------------------------------- configuration
void BaseConfigure(Rng& r) {
  cfg.threads = 1 + r.Below(4);
  if (r.Below(5) == 0) cfg.threads = 5 + r.Below(3);
  cfg.phases = 1 + r.Below(2);
  cfg.ops_per_thread = 10 + r.Below(50);
  cfg.ncpu = 1 + r.Below(6);
  if (r.Below(3) == 0) cfg.ncpu = 1 + r.Below(2);
  cfg.rseq = r.Below(5) != 0;
  cfg.size_mode = r.Below(2) ? 0 : r.Below(5);
  for (auto& h : cfg.hot_sizes) {
    uint64_t d = r.Below(10);
    h = d < 5 ? 8 + r.Below(256) : d < 8 ? 256 + r.Below(8192) : 8192 + r.Below(200000);
  }
  cfg.max_live = (r.Below(4) == 0 ? 200u : 48u) << 20;
  sc.ncpu = cfg.ncpu;
  sc.use_rseq = cfg.rseq;
  sc.use_membarrier = true;
  int q = r.Below(6);
  static const double quanta[] = {8, 25, 80, 300, 1500, 6000};
  sc.quantum = quanta[q];
  sc.quantum_var = r.Below(3) ? 0.03 : 0.2;
  sc.long_quantum = 2000 + r.Below(20000);
  sc.p_preempt = r.Below(3) ? 0.1 : 0.5;
  sc.p_migrate = r.Below(3) ? 0.15 : 0.6;
  sc.p_arm = r.Below(2) ? 0.01 : 0.15;
  sc.pct_changes = r.Below(4) == 0 ? (int)r.Below(6) : -1;
  sc.mm_cid_feature = r.Below(3) == 0;
  sc.ns_per_step_num = r.Below(3) ? 1 : r.Below(2) ? 100 : 20000;
  int f = r.Below(10);
  if (f == 0) cfg.legacy_classes = 1;
  else if (f == 1) cfg.env.push_back("TCMALLOC_REUSE_SIZE_CLASSES=reuse");
  cfg.disable_dynamic_slabs = r.Below(12) == 0;
  f = r.Below(12);
  if (f < 3) cfg.env.push_back(f == 0 ? "TCMALLOC_HPAA_CONTROL=0" : f == 1 ? "TCMALLOC_HPAA_CONTROL=1" : "TCMALLOC_HPAA_CONTROL=2");
  f = r.Below(10);
  if (f < 1) cfg.env.push_back("TCMALLOC_USE_HUGE_REGION_MORE_OFTEN_DISABLE=1");
  f = r.Below(10);
  if (f < 2) cfg.env.push_back(f ? "TCMALLOC_HEAP_PARTITIONING=light" : "TCMALLOC_HEAP_PARTITIONING=full");
  auto exp = [&](const char* e, int p) { if ((int)r.Below(100) < p) { std::string& s = cfg.text; s += e; s += ","; } };
  std::string save = cfg.text;
  cfg.text.clear();
  exp("TEST_ONLY_TCMALLOC_SHARDED_TRANSFER_CACHE", 12);
  exp("TEST_ONLY_TCMALLOC_POW2_SIZECLASS", 5);
  exp("TEST_ONLY_TCMALLOC_HEAP_PARTITIONING", 15);
  exp("TEST_ONLY_L3_AWARE", 15);
  exp("TEST_ONLY_MM_VCPU", 15);
  exp("TEST_ONLY_TCMALLOC_RELEASE_STALE_PAGES", 15);
  exp("TEST_ONLY_TCMALLOC_SUBRELEASE_UNBACKED_PAGES", 15);
  exp("TCMALLOC_HUGE_REGION_ADAPTIVE_RELEASE", 15);
  exp("TCMALLOC_SONIC_MADV_NOHUGEPAGE_REGIONS", 15);
  exp("TCMALLOC_REUSE_SIZE_CLASSES_ABLATION", 15);
  exp("TCMALLOC_PER_CPU_CACHE_SIZE_1MB", 15);
  if (!cfg.text.empty()) cfg.env.push_back("BORG_EXPERIMENTS=" + cfg.text.substr(0, cfg.text.size() - 1));
  cfg.text = save;
  cfg.regions = Rng(sh->seed * 77 + 5).Below(12) == 0;
  Rng x(sh->seed * 77 + 6);
  if (x.Below(4) == 0) { static const double v[] = {0.05, 0.3, 1}; sc.p_sys = v[x.Below(3)]; }
  if (x.Below(8) == 0) { static const double v[] = {0.01, 0.1, 0.4}; sc.p_stall = v[x.Below(3)]; }
  if (x.Below(8) == 0) { static const double v[] = {0.001, 0.01, 0.05}; sc.p_freeze = v[x.Below(3)]; }
  if (x.Below(8) == 0) { static const double v[] = {0.03, 0.2, 0.7}; sc.p_lock = v[x.Below(3)]; }
}
void BaseQuiet(int) { VerifyAll("at a quiet point"); }

static void SetupFiles() {
  char b[64];
  snprintf(b, sizeof b, cfg.ncpu > 1 ? "0-%d\n" : "0\n", cfg.ncpu - 1);
  os::AddFile("/sys/devices/system/cpu/possible", b);
  os::AddFile("/proc/self/status", "Name:\tsim\nState:\tR\nVmPeak:\t 1000 kB\nVmRSS:\t     500 kB\nVmSwap:\t       0 kB\nHugetlbPages:\t 0 kB\nTHP_enabled:\t1\n");
  os::AddFile("/proc/self/cpuset", "/\n");
  os::AddFile("/sys/kernel/mm/transparent_hugepage/enabled", "[always] madvise never\n");
  for (int c = 0; c < cfg.ncpu; ++c) {
    char path[128];
    snprintf(path, sizeof path, "/sys/devices/system/cpu/cpu%d/cache/index3/shared_cpu_list", c);
    int lo = c / 2 * 2, hi = std::min(lo + 1, cfg.ncpu - 1);
    snprintf(b, sizeof b, lo == hi ? "%d\n" : "%d-%d\n", lo, hi);
    os::AddFile(path, b);
  }
  if (cfg.numa) {
    os::AddFile("/sys/devices/system/node/possible", "0-1\n");
    int half = (cfg.ncpu + 1) / 2;
    snprintf(b, sizeof b, "0-%d\n", half - 1);
    os::AddFile("/sys/devices/system/node/node0/cpulist", b);
    if (half < cfg.ncpu) snprintf(b, sizeof b, "%d-%d\n", half, cfg.ncpu - 1);
    else snprintf(b, sizeof b, "\n");
    os::AddFile("/sys/devices/system/node/node1/cpulist", b);
  } else {
    os::AddFile("/sys/devices/system/node/possible", "0\n");
    snprintf(b, sizeof b, "0-%d\n", cfg.ncpu - 1);
    os::AddFile("/sys/devices/system/node/node0/cpulist", b);
  }
}

// ------------------------------------------------------------- run structure
static int phase_now = -1;
static int parked, expected;
static char phase_obj, park_obj;
static std::vector<const Op*> thread_ops[kMaxFibers];
static bool stop_background;

static void DoOp(const Op& o) {
  cur->what = kOpNames[o.kind < O_NUM ? o.kind : 0];
  if (plugin->op && plugin->op(o)) return;
  if (!BaseOp(o)) Internal("unhandled operation %d", o.kind);
}

static void ThreadBody(int t) {
  auto& ops = thread_ops[t];
  size_t i = 0;
  int last = ops.empty() ? 0 : ops.back()->pad;
  for (int ph = 0; ph <= last; ++ph) {
    while (phase_now < ph) BlockOn(&phase_obj);
    while (i < ops.size() && ops[i]->pad == ph) { DoOp(*ops[i]); ++i; Yield(); }
    cur->what = "parked";
    parked++;
    WakeAll(&park_obj);
  }
}

static void RunStaticInit() {
  Api a("static initialisation");
  for (ctor_t* c = __start_sim_ctors; c && c < __stop_sim_ctors; ++c)
    if (*c) (*c)();
}

int bg_fiber = -1;
void Quiesce() {
  // threads that finished their last phase may still be on their way out
  for (int i = 0;; ++i) {
    bool busy = false;
    for (int k = 0; k < n_fibers; ++k) {
      Fiber* f = fibers[k];
      if (f == cur || f->state == Fiber::kDone) continue;
      if (k == bg_fiber ? f->state != Fiber::kSleeping || f->stalled : !(f->state == Fiber::kWaiting && f->wait_obj == &phase_obj)) busy = true;
    }
    if (!busy) return;
    if (i > 2000000) Violation("hang", "quiesce", "the threads never come to rest");
    SleepNs(50);
  }
}
void StartBackground() {
  NoSwitch ns;
  bg_fiber = Spawn([] {
    cur->what = "background";
    Api a("ProcessBackgroundActions");
    MallocExtension::ProcessBackgroundActions();
  });
}
void StopBackground() {
  if (bg_fiber < 0) return;
  bool on;
  { Api a("background actions"); on = MallocExtension::GetBackgroundProcessActionsEnabled(); MallocExtension::SetBackgroundProcessActionsEnabled(false); }
  while (fibers[bg_fiber]->state != Fiber::kDone) { cur->what = "joining background"; BlockOn(fibers[bg_fiber]); }
  bg_fiber = -1;
  { Api a("background actions"); MallocExtension::SetBackgroundProcessActionsEnabled(on); }
}

static void MainBody() {
  if (cfg.first_use_race) {
    // The program's threads run while static initialisation is still going on; creating the first thread allocates.
    Api a("first use");
    TCMallocInternalFree(TCMallocInternalMalloc(304));
  } else {
    RunStaticInit();
  }
  MallocExtension::SetProfileSamplingInterval(cfg.sampling);
  MallocExtension::SetGuardedSamplingInterval(cfg.guarded);
  if (cfg.guarded >= 0) { Api a("activate"); MallocExtension::ActivateGuardedSampling(); }
  cur->what = "start";
  if (plugin->start) plugin->start();
  int maxt = 0, phases = 1;
  for (int i = 0; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.tid >= kMaxFibers - 4) continue;
    thread_ops[o.tid].push_back(&o);
    maxt = std::max<int>(maxt, o.tid);
    phases = std::max<int>(phases, o.pad + 1);
  }
  for (auto& v : thread_ops) std::stable_sort(v.begin(), v.end(), [](const Op* a, const Op* b) { return a->pad < b->pad; });
  int first = n_fibers;
  for (int t = 1; t <= std::max(maxt, cfg.threads); ++t) Spawn([t] { ThreadBody(t); });
  (void)first;
  if (cfg.background) StartBackground();
  if (cfg.first_use_race) {
    phase_now = 0;
    WakeAll(&phase_obj);
    Yield();
    RunStaticInit();
  }
  size_t mi = 0;
  for (int ph = 0; ph < phases; ++ph) {
    int want = 0;
    for (int t = 1; t <= std::max(maxt, cfg.threads); ++t) {
      int last = thread_ops[t].empty() ? 0 : thread_ops[t].back()->pad;
      if (last >= ph) want++;
    }
    if (!(cfg.first_use_race && ph == 0)) parked = 0;
    phase_now = ph;
    WakeAll(&phase_obj);
    auto& mo = thread_ops[0];
    while (mi < mo.size() && mo[mi]->pad <= ph) { DoOp(*mo[mi]); ++mi; Yield(); }
    while (parked < want) { cur->what = "main waits"; BlockOn(&park_obj); }
    cur->what = "quiet point";
    cur->affinity = ~0ull;
    if (plugin->quiet) plugin->quiet(ph);
    else BaseQuiet(ph);
  }
  // join
  StopBackground();
  for (int i = 1; i < n_fibers; ++i)
    while (fibers[i]->state != Fiber::kDone) { cur->what = "joining"; BlockOn(fibers[i]); }
  cur->what = "end of run";
  if (plugin->end) plugin->end();
  VerifyAll("at the end");
  sh->nontrivial = sh->switches > 20 && sh->allocs > 5;
  FinishRun();
}

static std::string CfgText() {
  std::string s;
  char b[600];
  snprintf(b, sizeof b,
           "threads=%d phases=%d ncpu=%d rseq=%d size_mode=%d quantum=%g pct=%d p_preempt=%g p_migrate=%g p_arm=%g mm_cid=%d "
           "ns/step=%ld p_sys=%g p_stall=%g p_freeze=%g p_lock=%g sampling=%ld guarded=%ld bg=%d rate=%ld numa=%d hot=%zu,%zu,%zu,%zu",
           cfg.threads, cfg.phases, cfg.ncpu, cfg.rseq, cfg.size_mode, sc.quantum, sc.pct_changes, sc.p_preempt, sc.p_migrate,
           sc.p_arm, sc.mm_cid_feature, (long)sc.ns_per_step_num, sc.p_sys, sc.p_stall, sc.p_freeze, sc.p_lock, (long)cfg.sampling, (long)cfg.guarded, cfg.background,
           (long)cfg.bg_rate, cfg.numa, cfg.hot_sizes[0], cfg.hot_sizes[1], cfg.hot_sizes[2], cfg.hot_sizes[3]);
  s = b;
  if (cfg.legacy_classes) s += " legacy_size_classes";
  if (cfg.disable_dynamic_slabs) s += " no_dynamic_slabs";
  for (auto& e : cfg.env) s += " " + e;
  for (int i = 0; i < F_NUM; ++i)
    if (fault_rate[i] > 0) { snprintf(b, sizeof b, " %s=%g", kFaultName[i], fault_rate[i]); s += b; }
  return s + " " + cfg.text;
}

}  // namespace world

using namespace world;

const char* OpName(int k) { return k < O_NUM ? world::kOpNames[k] : "?"; }

void RunHarness(const std::string& p, uint64_t seed) {
  world::prop = p;
  plugin = nullptr;
  for (auto* q : Plugins())
    if (p == q->id) plugin = q;
  if (!plugin) Internal("unknown property %s", p.c_str());
  Rng r(seed * 2654435761ull + 12345);
  rng_sched.Seed(seed ^ 0x5bd1e995ull);
  rng_fault.Seed(seed ^ 0xfa017ull);
  rng_misc.Seed(seed ^ 0x77aa55ull);
  Rng rops(seed ^ 0x0b5ull);
  os::Reset();
  os::LiveOverlap = world::OverlapsLive;
  on_crash = [](const char* kind, const char* text, uintptr_t addr) {
    if (plugin->crash && plugin->crash(kind, text, addr)) return true;
    return BaseCrash(kind, text);
  };
  os::Exempt = cfg_exempt;
  BaseConfigure(r);
  if (plugin->configure) plugin->configure(r);
  if (cfg.regions) cfg.max_live += 112 << 20;
  sc.ncpu = cfg.ncpu;
  sc.use_rseq = cfg.rseq;
  clearenv();  // the allocator reads the environment: a run must not depend on the caller's
  for (auto& e : cfg.env) {
    auto eq = e.find('=');
    setenv(e.substr(0, eq).c_str(), e.substr(eq + 1).c_str(), 1);
  }
  SetupFiles();
  if (!sh->replay) { sh->n_ops = sh->n_events = sh->n_faults = 0; 
    if (cfg.regions) Emit(1, 0, O_REGIONS, 33 + rops.Below(16), rops.Below(200000));
    plugin->generate(rops);
  }
  snprintf(sh->cfg, sizeof sh->cfg, "%s", CfgText().c_str());
  RunMain([] { MainBody(); });
  __builtin_trap();
}

// ------------------------------------------------------------- operator new / delete
static inline bool InApi() { return sim::cur && sim::cur->api_depth > 0 && sim::cur->no_switch == 0 && sim::g_active; }
static inline bool HostPtr(void* p) { return (uintptr_t)p >= 0x200000000ull && (uintptr_t)p < 0x300000000ull; }
void* operator new(size_t n) { return InApi() ? TCMallocInternalNew(n) : HostAlloc(n); }
void* operator new[](size_t n) { return InApi() ? TCMallocInternalNew(n) : HostAlloc(n); }
void* operator new(size_t n, const std::nothrow_t& t) noexcept { return InApi() ? TCMallocInternalNewNothrow(n, t) : HostAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return InApi() ? TCMallocInternalNewNothrow(n, t) : HostAlloc(n); }
void* operator new(size_t n, std::align_val_t a) { return InApi() ? TCMallocInternalNewAligned(n, a) : HostAlloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return InApi() ? TCMallocInternalNewAligned(n, a) : HostAlloc(n, (size_t)a); }
static inline void Del(void* p) {
  if (!p) return;
  if (HostPtr(p)) HostFree(p);
  else { Api a("delete"); TCMallocInternalDelete(p); }
}
static inline void DelS(void* p, size_t n) {
  if (!p) return;
  if (HostPtr(p)) HostFree(p);
  else { Api a("delete"); TCMallocInternalDeleteSized(p, n); }
}
void operator delete(void* p) noexcept { Del(p); }
void operator delete[](void* p) noexcept { Del(p); }
void operator delete(void* p, size_t n) noexcept { DelS(p, n); }
void operator delete[](void* p, size_t n) noexcept { DelS(p, n); }
void operator delete(void* p, std::align_val_t) noexcept { Del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Del(p); }
