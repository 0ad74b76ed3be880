// C10 guarded allocations, C18 detected misuse.
//
// Both run an ordinary concurrent workload that must never be blamed, then let one thread misuse one
// block on purpose; the run has to end in exactly the right report, carrying the block's own stacks.
#include <stdio.h>
#include <string.h>

#include <set>

#include "acct.h"
#include "tcmalloc/internal_malloc_extension.h"

using tcmalloc::MallocExtension;
using tcmalloc::Profile;
using tcmalloc::ProfileType;

namespace world {
namespace {
constexpr uint32_t kOwnStack = 7777777;
constexpr size_t kPoolLive = 64;     // documented maximum of blocks guarded at a time

// ------------------------------------------------------------- which blocks are guarded
// Pages of guarded blocks that are live, by what the heap profile says.
std::set<uintptr_t> GuardedPages() {
  uint32_t keep = cur->stack_id;
  cur->stack_id = kOwnStack;   // what the call itself allocates does not count
  std::set<uintptr_t> v;
  Api a("SnapshotCurrent");
  Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
  p.Iterate([&](const Profile::Sample& s) {
    NoSwitch ns;
    bool own = s.depth && ((uintptr_t)s.stack[0] - 0x50000000) / 64 == kOwnStack;
    if (!own && s.guarded_status == Profile::Sample::GuardedStatus::Guarded) v.insert((uintptr_t)s.span_start_address / kPage * kPage);
  });
  cur->stack_id = keep;
  return v;
}
int Prot(uintptr_t p) {
  const os::Mapping* m = os::Find(p);
  return m && !m->foreign ? m->prot : -1;
}

// All other threads are outside the allocator, so nothing is half done.
bool Alone() {
  for (int i = 0; i < 400; ++i) {
    bool busy = false;
    for (int k = 0; k < n_fibers; ++k) {
      Fiber* f = fibers[k];
      if (f == cur || f->state == Fiber::kDone) continue;
      if (k == bg_fiber ? f->state != Fiber::kSleeping || f->stalled : f->api_nest > 0) busy = true;
    }
    if (!busy) return true;
    SleepNs(200);
  }
  return false;
}

// ------------------------------------------------------------- expectations
struct Expect {
  bool armed = false;
  const char* name = "";
  const char* texts[4] = {};           // one of them must be in the report
  bool access = false;                 // a report of the fault handler, with offset and length
  int64_t off = 0;
  size_t len = 0;
  bool sampled = false;                // the report carries the allocation stack
  uint32_t sid = 0, dsid = 0;          // allocating and freeing call stacks (0: not required)
  int tid = 0, dtid = 0;
  uintptr_t ptr = 0;
  std::string what;
} want;

uint32_t FirstFrame(const char* q, int* n) {   // of the stack printed from q on
  uint32_t sid = 0;
  *n = 0;
  while (q && *q) {
    const char* at = strstr(q, "  @  0x");
    const char* nl = strchr(q, '\n');
    if (!at || (nl && at > nl)) break;
    unsigned long pc = strtoul(at + 5, nullptr, 16);
    if (*n == 0 && pc >= 0x50000000) sid = (pc - 0x50000000) / 64;
    ++*n;
    if (!nl) break;
    q = nl + 1;
  }
  return sid;
}
const char* NextLine(const char* q) { q = q ? strchr(q, '\n') : nullptr; return q ? q + 1 : nullptr; }
std::string Clip(const char* text) {
  std::string s;
  for (const char* q = text; *q && s.size() < 1500; ++q) s += *q;
  return s;
}
bool CrashWanted(const char* kind, const char* text, uintptr_t addr) {
  (void)addr;
  if (!want.armed) return false;
  want.armed = false;
  static std::string own;   // without what other threads logged meanwhile
  char me[16];
  snprintf(me, sizeof me, "%d ", 5000 + cur->id);
  for (const char* q = text; q && *q;) {
    const char* nl = strchr(q, '\n');
    size_t n = nl ? nl + 1 - q : strlen(q);
    if (strncmp(q, "50", 2) || n < 5 || q[4] != ' ' || !strncmp(q, me, 5)) own.append(q, n);
    q += n;
  }
  text = own.c_str();
  const char* rep = text;
  for (const char* q = text; (q = strstr(q, "has detected a memory error")); ++q) rep = q;
  bool named = false;
  for (const char* t : want.texts) if (t && strstr(rep, t)) named = true;
  if (!named)
    Violation("misuse", want.name, "%s: the process ended (%s) without naming this error (expected \"%s\"): %s", want.what.c_str(), kind, want.texts[0], Clip(rep).c_str());
  if (want.access) {
    char b[120];
    snprintf(b, sizeof b, "Access at offset %ld into buffer of length %zu", (long)want.off, want.len);
    if (!strstr(rep, b)) Violation("misuse", "wrong-offset", "%s: the report lacks \"%s\": %s", want.what.c_str(), b, Clip(rep).c_str());
    const char* q = strstr(rep, "memory allocated in thread ");
    int n;
    if (!q) Violation("misuse", "no-stack", "%s: the report has no allocation stack: %s", want.what.c_str(), Clip(rep).c_str());
    if (atoi(q + 27) != want.tid) Violation("misuse", "wrong-thread", "%s: the report blames thread %d for the allocation made by %d", want.what.c_str(), atoi(q + 27), want.tid);
    uint32_t s = FirstFrame(NextLine(q), &n);
    if (s != want.sid || n < 2) Violation("misuse", "wrong-stack", "%s: the report shows allocation stack %u (%d frames) for the block allocated by %u: %s", want.what.c_str(), s, n, want.sid, Clip(rep).c_str());
    if (want.dsid) {
      q = strstr(rep, "freed in thread ");
      if (!q) Violation("misuse", "no-stack", "%s: the report has no free stack: %s", want.what.c_str(), Clip(rep).c_str());
      if (atoi(q + 16) != want.dtid) Violation("misuse", "wrong-thread", "%s: the report blames thread %d for the free made by %d", want.what.c_str(), atoi(q + 16), want.dtid);
      s = FirstFrame(NextLine(q), &n);
      if (s != want.dsid || n < 2) Violation("misuse", "wrong-stack", "%s: the report shows free stack %u (%d frames) for the block freed by %u", want.what.c_str(), s, n, want.dsid);
    }
  } else if (want.sampled) {
    const char* q = strstr(rep, "allocated at:");
    int n;
    if (!q) Violation("misuse", "no-stack", "%s: the report has no allocation stack: %s", want.what.c_str(), Clip(rep).c_str());
    uint32_t s = FirstFrame(NextLine(q), &n);
    if (s != want.sid || n < 2) Violation("misuse", "wrong-stack", "%s: the report shows allocation stack %u (%d frames) for the block allocated by %u: %s", want.what.c_str(), s, n, want.sid, Clip(rep).c_str());
  }
  char b[64];
  snprintf(b, sizeof b, "caught_%s", want.name);
  int id = ProbeId(strdup(b));
  Probe(id);
  return true;
}
void Arm(const char* name, const Blk& b, const char* t0, const char* t1 = nullptr, const char* t2 = nullptr) {
  want = Expect();
  want.name = name;
  want.texts[0] = t0; want.texts[1] = t1; want.texts[2] = t2;
  want.sid = b.first_stack;
  want.tid = 5000 + b.first_tid;
  want.ptr = b.p;
  want.what = std::string(name) + " of " + Describe(b);
  want.armed = true;
  Log("  misuse: %s", want.what.c_str());
}
[[noreturn]] void Undetected() {
  want.armed = false;
  Violation("misuse", (std::string("undetected-") + want.name).c_str(), "%s went unnoticed", want.what.c_str());
}

// ------------------------------------------------------------- misuse of guarded blocks
const char* const kOverflow = "Buffer overflow";
const char* const kUnderflow = "Buffer underflow";
const char* const kUaf = "Use-after-free";
const char* const kDouble = "Double free occurs";

struct Freed { Blk b; uint32_t dsid; int dtid; };
std::vector<Freed> graveyard;         // guarded blocks freed by the misusing thread
std::set<uintptr_t> reused;           // pages of them that were given out again
void NoteAlloc(Blk& b) {
  for (auto& f : graveyard) if (b.p / kPage == f.b.p / kPage) reused.insert(b.p / kPage * kPage);
}
void NoteProtect(uintptr_t p, size_t, int prot) {
  if (prot == PROT_NONE) return;
  NoSwitch ns;
  for (auto& f : graveyard) if (p / kPage == f.b.p / kPage) reused.insert(p / kPage * kPage);
}

// Frees b in one of the ways that fit it and notes the stack of the call.
Freed FreeNoting(const Blk& b, int variant) {
  Freed f{b, 0, 5000 + cur->id};
  FreeBlk(b.p, variant);
  f.dsid = cur->stack_id;
  return f;
}
volatile char sink;
[[gnu::noinline]] void Touch(uintptr_t a, bool write) {
  volatile char* q = (volatile char*)a;
  if (write) *q = 'M'; else sink = *q;
}
// The slot of a freed block has not been given out again.
bool Untouched(const Blk& b) {
  uintptr_t page = b.p / kPage * kPage;
  auto it = live.lower_bound(page);
  if (it != live.end() && it->first < page + kPage) return false;
  if (reused.count(page)) return false;
  return Prot(page) == PROT_NONE;
}
void CallFree(const Blk& b, uintptr_t q, int variant) {
  if (unique_stacks) cur->stack_id += 100000;
  Api a("misuse");
  void* p = (void*)q;
  auto al = (std::align_val_t)(b.align ? b.align : 16);
  bool alg = b.align && b.kind != AK_VALLOC && b.kind != AK_PVALLOC;
  if (b.fam == kMalloc) {
    if (variant & 1 && !b.align) TCMallocInternalFreeSized(p, b.req);
    else TCMallocInternalFree(p);
  } else if (b.fam == kNew) {
    if (alg) { if (variant & 1) TCMallocInternalDeleteSizedAligned(p, b.req, al); else TCMallocInternalDeleteAligned(p, al); }
    else if (variant & 1) TCMallocInternalDeleteSized(p, b.req);
    else TCMallocInternalDelete(p);
  } else {
    if (alg) { if (variant & 1) TCMallocInternalDeleteArraySizedAligned(p, b.req, al); else TCMallocInternalDeleteArrayAligned(p, al); }
    else if (variant & 1) TCMallocInternalDeleteArraySized(p, b.req);
    else TCMallocInternalDeleteArray(p);
  }
}

// What a guarded block must look like: its own page between inaccessible ones, as big as requested.
void CheckGuarded(const std::set<uintptr_t>& pages, bool exact) {
  NoSwitch ns;
  size_t n = 0;
  for (uintptr_t g : pages) {
    auto it = live.lower_bound(g);
    if (it == live.end() || it->first >= g + kPage) {
      if (exact) Violation("guarded", "ghost", "the page %#lx counts as guarding a live block and holds none", g);
      continue;
    }
    const Blk& b = it->second;
    ++n;
    if (b.p + b.req > g + kPage) Violation("guarded", "spill", "guarded %s leaves its page", Describe(b).c_str());
    if (auto nx = std::next(it); nx != live.end() && nx->first < g + kPage)
      Violation("guarded", "shared", "guarded %s shares its page with %s", Describe(b).c_str(), Describe(nx->second).c_str());
    if (Prot(g - 1) != PROT_NONE || Prot(g + kPage) != PROT_NONE)
      Violation("guarded", "unprotected", "the memory next to guarded %s is accessible", Describe(b).c_str());
    if (b.req && Prot(b.p) != (PROT_READ | PROT_WRITE)) Violation("guarded", "inaccessible", "guarded %s is not accessible", Describe(b).c_str());
    if (b.cap != b.first_req) Violation("guarded", "capacity", "guarded %s: capacity %zu reported; what lies behind the request is not the caller's", Describe(b).c_str(), b.cap);
    SIM_PROBE("guarded_live");
  }
  if (exact && pages.size() > kPoolLive) Violation("guarded", "too-many", "%zu blocks are guarded, at most %zu may be", pages.size(), kPoolLive);
  if (exact && n == kPoolLive) SIM_PROBE("guarded_pool_full");
}

bool MisuseGuarded(const Op& o) {
  std::set<uintptr_t> pages = GuardedPages();
  CheckGuarded(pages, false);
  uint64_t h = o.a[1];
  std::vector<Blk> mine;
  {
    NoSwitch ns;
    for (uintptr_t g : pages) {
      auto it = live.lower_bound(g);
      if (it == live.end() || it->first >= g + kPage) continue;
      if (it->second.owner == cur->id && !it->second.pins) mine.push_back(it->second);
    }
    if (mine.empty()) { SIM_PROBE("misuse_no_guarded"); return true; }
  }
  Blk b = mine[h % mine.size()];
  h /= 1024;
  uintptr_t page = b.p / kPage * kPage, end = page + kPage;
  if (b.p + b.first_req > end) return true;
  {
    NoSwitch ns;   // nobody else may take it away
    auto it = live.find(b.p);
    if (it == live.end() || it->second.seq != b.seq || it->second.pins) return true;
    it->second.pins++;
  }
  auto leave = [&] { NoSwitch ns; live[b.p].pins--; return true; };
  uint64_t r = o.a[2];
  int kind = o.a[0] % 12;
  switch (kind) {
    case 0: case 1: case 2: {     // past the end of its page
      if (kind == 2 && b.first_req) kind = 1;
      uintptr_t a = b.first_req ? end + (r & 1 ? 0 : (r >> 1) % (kPage / 2)) : b.p + (r >> 1) % (end - b.p);
      Arm(kind ? "overflow_write" : "overflow_read", b, kind ? "Buffer overflow (write)" : "Buffer overflow (read)");
      want.access = true; want.off = a - b.p; want.len = b.first_req;
      Touch(a, kind);
      Undetected();
    }
    case 3: case 4: {             // before its page
      uintptr_t a = page - 1 - (r & 1 ? 0 : (r >> 1) % (kPage / 2));
      Arm(kind == 4 ? "underflow_write" : "underflow_read", b, kind == 4 ? "Buffer underflow (write)" : "Buffer underflow (read)");
      want.access = true; want.off = (int64_t)(a - b.p); want.len = b.first_req;
      Touch(a, kind == 4);
      Undetected();
    }
    case 5: {                     // padding overwritten, noticed when freed
      if (b.p == page || b.p + b.first_req >= end) { SIM_PROBE("misuse_no_padding"); return leave(); }
      size_t room = std::min<size_t>(32, end - b.p - b.first_req);
      uintptr_t a = b.p + b.first_req + r % room;
      *(volatile unsigned char*)a ^= 1 << (h & 7);
      Arm("padding", b, "Buffer overflow (write) detected");
      want.access = true; want.off = 0; want.len = b.first_req;
      FreeBlk(b.p, o.a[3]);
      Undetected();
    }
    case 6: case 7: {             // after it was freed
      if (!b.first_req || !Alone()) { SIM_PROBE("misuse_not_alone"); return leave(); }
      cur->no_switch++;
      Freed f = FreeNoting(b, o.a[3]);
      uintptr_t a = b.p + r % b.first_req;
      Arm(kind == 7 ? "uaf_write" : "uaf_read", b, kind == 7 ? "Use-after-free (write)" : "Use-after-free (read)");
      want.access = true; want.off = a - b.p; want.len = b.first_req; want.dsid = f.dsid; want.dtid = f.dtid;
      Touch(a, kind == 7);
      Undetected();
    }
    case 8: {                     // twice, at once
      if (!Alone()) { SIM_PROBE("misuse_not_alone"); return leave(); }
      cur->no_switch++;
      Freed f = FreeNoting(b, o.a[3]);
      Arm("double_free", b, kDouble);
      want.access = true; want.off = 0; want.len = b.first_req; want.dsid = f.dsid; want.dtid = f.dtid;
      CallFree(b, b.p, r);
      Undetected();
    }
    case 9: {                     // an address inside
      uintptr_t a;
      if (r & 1 && b.first_req > 1) a = b.p + 1 + (r >> 1) % (b.first_req - 1);
      else a = page + (r >> 1) % kPage;
      if (a == b.p) return leave();
      { NoSwitch ns; Unregister(b.p); }
      Arm("interior_free", b, "Attempted to free corrupted pointer", "with alignment");
      CallFree(b, a, r >> 20);
      Undetected();
    }
    default: {                    // freed now, misused later (O_MISUSE with 10/11 again, or at the end of the phase)
      size_t k;
      {
        NoSwitch ns;
        for (auto& f : graveyard) if (f.b.p / kPage == page / kPage) f.b.p = 0;
        reused.erase(page);
        k = graveyard.size();
        graveyard.push_back({b, 0, 0});
      }
      Freed f = FreeNoting(b, o.a[3]);
      NoSwitch ns;
      if (graveyard[k].b.p) graveyard[k] = f;
      SIM_PROBE("misuse_deferred");
      return true;
    }
  }
}
// A block freed long ago, whose slot is still quarantined.
void MisuseOld(const Op& o) {
  for (size_t i = graveyard.size(); i-- > 0;) {
    if (graveyard[i].dtid != 5000 + cur->id || !graveyard[i].b.req) continue;
    if (!Alone()) return;
    cur->no_switch++;
    Freed f = graveyard[i];
    if (!f.b.p || !Untouched(f.b)) { cur->no_switch--; SIM_PROBE("misuse_slot_reused"); continue; }
    uint64_t r = o.a[2];
    if (o.a[1] & 1) {
      Arm("late_double_free", f.b, kDouble);
      want.access = true; want.off = 0; want.len = f.b.first_req; want.dsid = f.dsid; want.dtid = f.dtid;
      CallFree(f.b, f.b.p, r);
    } else {
      uintptr_t a = f.b.p + r % f.b.req;
      Arm("late_uaf", f.b, kUaf);
      want.access = true; want.off = a - f.b.p; want.len = f.b.first_req; want.dsid = f.dsid; want.dtid = f.dtid;
      Touch(a, r >> 30 & 1);
    }
    Undetected();
  }
}

void ConfC10(Rng& r) {
  static const int64_t iv[] = {1, 1, 64, 512, 4096};
  cfg.sampling = iv[r.Below(5)];
  cfg.guarded = r.Below(5) ? 0 : 1 << r.Below(12);
  unique_stacks = true;
  cfg.ops_per_thread = 10 + r.Below(50);
  if (cfg.size_mode >= 2) cfg.size_mode = r.Below(2);
  cfg.regions = false;
  cfg.max_live = 48 << 20;
#ifdef NDEBUG
  if (r.Below(3) == 0) fault_rate[F_MPROTECT] = 0.1;
#endif
  if (r.Below(4) == 0) fault_rate[F_MMAP_HINT] = 0.2;
}
bool c10_misuse;
void GenC10(Rng& r) {
  int from = sh->n_ops;
  GenerateMix(r, {{O_ALLOC, 24}, {O_FREE, 22}, {O_BURST_ALLOC, 2}, {O_BURST_FREE, 3}, {O_REALLOC, 4}, {O_PINGPONG, 2}, {O_MIGRATE, 2},
                  {O_VERIFY, 2}, {O_QUERY, 1}, {O_RELEASE, 0.5}, {O_RELEASE_CPU, 0.5}, {O_IDLE, 0.3}, {O_CHURN, 0.5}, {O_MISUSE, 1.2}});
  int keep = r.Below(5), at = -1, seen = 0;
  for (int i = from; i < sh->n_ops; ++i)
    if (sh->ops[i].kind == O_MISUSE && (uint64_t)r.Below(++seen) == 0) at = i;
  // one misuse that ends the run; the others free a guarded block and come back to it later
  for (int i = from; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind != O_MISUSE) continue;
    for (auto& x : o.a) x = (uint64_t)x >> 1;
    bool end = keep && i == at;
    o.a[0] = end ? r.Below(12) : 12 + r.Below(2);
    if (!keep) { o.kind = O_VERIFY; o.a[1] = 3; }
  }
}
bool OpC10(const Op& o) {
  if (o.kind == O_MISUSE) {
    if (o.a[0] == 10 || o.a[0] == 11) MisuseOld(o);
    else if (o.a[0] >= 12) { Op x = o; x.a[0] = 10; MisuseGuarded(x); }
    else MisuseGuarded(o);
    return true;
  }
  return BaseOp(o);
}
void QuietC10(int phase) {
  BaseQuiet(phase);
  Quiesce();
  CheckGuarded(GuardedPages(), true);
}
void EndC10() {
  FreeEverything();
  Quiesce();
  auto left = GuardedPages();
  NoSwitch ns;
  if (!left.empty()) Violation("guarded", "left-over", "%zu blocks count as guarded although everything was freed", left.size());
}
void StartC10() { on_alloc = NoteAlloc; os::OnProtect = NoteProtect; }
const Plugin kC10 = {"C10", ConfC10, GenC10, StartC10, OpC10, QuietC10, EndC10, CrashWanted};
Reg r10(&kC10);

// ------------------------------------------------------------- C18
constexpr size_t kMaxSmall = 262144;
const char* const kPossibleDouble = "Possible double free detected of";
const char* const kCorrupt = "Attempted to free corrupted pointer";
const char* const kSizeMismatch = "Mismatched-size-delete";
const char* const kClassMismatch = "Mismatched-size-class";
const char* const kDealloc = "Deallocating";

bool IsLarge(const Blk& b) { return !b.aux2 && b.cap > kMaxSmall && b.p % kPage == 0; }
// Sampled for sure: its memory is that of sampled blocks.
bool IsSampled(const Blk& b) { return b.aux2; }
// One of the caller's blocks, which nobody else may take away any more.
bool PickMine(uint64_t h, bool (*ok)(const Blk&), Blk* out) {
  NoSwitch ns;
  auto& v = by_owner[cur->id];
  if (v.empty()) return false;
  size_t s = h % v.size();
  for (size_t i = 0; i < v.size(); ++i) {
    Blk& b = live[v[(s + i) % v.size()]];
    if (ok(b) && !b.pins) { *out = b; b.pins++; return true; }
  }
  return false;
}
bool FirstPageFree(uintptr_t p) {
  uintptr_t page = p / kPage * kPage;
  auto it = live.upper_bound(page + kPage - 1);
  if (it == live.begin()) return true;
  --it;
  return it->first + it->second.cap <= page;
}
bool c18_guarded_pool(uintptr_t p) { return Prot(p / kPage * kPage - 1) == PROT_NONE && Prot(p / kPage * kPage + kPage) == PROT_NONE; }
bool Aligned2(const Blk& b) { return b.align && b.kind != AK_VALLOC && b.kind != AK_PVALLOC; }

void MisuseAny(const Op& o) {
  uint64_t h = o.a[1], r = o.a[2];
  Blk b;
  auto leave = [&] { NoSwitch ns; live[b.p].pins--; };
  switch (o.a[0] % 10) {
    case 0: case 1: {       // a page-level or sampled block, twice
      if (!PickMine(h, [](const Blk& x) { return IsLarge(x) || IsSampled(x); }, &b)) return;
      if (!Alone()) return leave();
      cur->no_switch++;
      FreeBlk(b.p, o.a[3]);
      if (r & 1) { Api a("release"); MallocExtension::ReleaseMemoryToSystem(r & 2 ? 1 << 20 : (size_t)1 << 40); }
      if (r & 4) { Api a("stats"); (void)MallocExtension::GetNumericProperty("generic.heap_size"); }
      if (!FirstPageFree(b.p)) { cur->no_switch--; return; }
      Arm(IsLarge(b) ? "double_free_large" : "double_free_sampled", b, kPossibleDouble, kDouble);
      if ((r >> 3) % 4 == 0 && b.fam == kMalloc) {
        want.texts[2] = kUaf;
        want.texts[3] = kCorrupt;
        Api a("realloc");
        (void)TCMallocInternalRealloc((void*)b.p, 1 + (r >> 8) % 100000);
      } else {
        CallFree(b, b.p, r >> 8);
      }
      Undetected();
    }
    case 2: {               // wild: bits no address has
      if (!PickMine(h, [](const Blk&) { return true; }, &b)) return;
      uintptr_t a = b.p | 1ull << (48 + r % 15);
      Arm("wild_high_bits", b, kCorrupt);
      CallFree(b, a, r >> 8);
      Undetected();
    }
    case 3: {               // misaligned address of a small block
      if (!PickMine(h, [](const Blk& x) { return !IsLarge(x) && !IsSampled(x) && x.cap <= kMaxSmall; }, &b)) return;
      uintptr_t a = b.p + 1 + r % 7;
      if (b.req > kMaxSmall) return leave();
      Arm("misaligned", b, kCorrupt);
      CallFree(b, a, r >> 8);
      Undetected();
    }
    case 4: {               // inside a page-level block
      if (!PickMine(h, [](const Blk& x) { return IsLarge(x); }, &b)) return;
      if (b.cap / kPage < 2) return leave();
      size_t d = r & 1 ? (1 + (r >> 1) % (b.cap / kPage - 1)) * kPage : 8 + (r >> 1) % (b.cap - 8);
      if ((r >> 50) % 4 == 0) d = r & 1 ? kPage : r & 2 ? b.cap - 8 : b.cap - kPage;
      Arm("interior_large", b, kCorrupt, "with alignment", kPossibleDouble);
#ifndef NDEBUG
      want.texts[3] = "CHECK in sizeclass";     // assertions check what the page map says about the inside
#endif
      CallFree(b, b.p + d, r >> 40);
      Undetected();
    }
    case 5: {               // wrong size for a sampled block
      if (!PickMine(h, [](const Blk& x) { return IsSampled(x) && x.fam != kMalloc; }, &b)) return;
      size_t hi = std::max(b.req, b.ret), n;
      switch (r % 4) {
        case 0: n = hi + 1; break;
        case 1: n = b.req ? b.req - 1 : hi + 1; break;
        case 2: n = hi + 1 + (r >> 4) % 100000; break;
        default: n = b.req ? (r >> 4) % b.req : hi + 17; break;
      }
      Arm("wrong_size_sampled", b, kSizeMismatch);
      want.sampled = true;
      Blk x = b;
      x.req = n;
      CallFree(x, b.p, 1);
      Undetected();
    }
    case 6: {               // wrong size for a page-level block
      if (!PickMine(h, [](const Blk& x) { return IsLarge(x) && x.fam != kMalloc && x.req > kMaxSmall; }, &b)) return;
      // the sizes next to the valid range as often as any others
      uint64_t edge = (r >> 50) % 4, q = edge < 2 ? edge : (r >> 1);
      size_t n = r & 1 ? b.cap + 1 + q % 100000 : b.cap - kPage - q % (b.cap / 2);
      if (n <= kMaxSmall || n > (1ull << 40)) n = b.cap + 1;
      Arm("wrong_size_large", b, kSizeMismatch);
      Blk x = b;
      x.req = n;
      CallFree(x, b.p, 1);
      Undetected();
    }
    case 7: {               // families do not match
      if (!PickMine(h, [](const Blk& x) { return IsSampled(x) && !Aligned2(x); }, &b)) return;
      Arm("family", b, kDealloc, b.p % 16 ? kCorrupt : nullptr);  // assertions check the alignment first
      Blk x = b;
      x.fam = b.fam == kMalloc ? (r & 2 ? kNew : kNewArr) : kMalloc;
      if (b.kind == AK_VALLOC || b.kind == AK_PVALLOC) x.kind = AK_MALLOC, x.align = 0;
      CallFree(x, b.p, r & 1 && (b.kind != AK_PVALLOC) ? 1 : 0);
      Undetected();
    }
    case 8: {               // alignments do not match
      if (!PickMine(h, [](const Blk& x) { return IsSampled(x) && x.fam != kMalloc; }, &b)) return;
      Blk x = b;
      if (b.align) x.align = r & 2 ? 0 : b.align > 1 ? b.align / 2 : 2;
      else x.align = (size_t)1 << (r >> 4) % 5;
      if (x.align && b.p % x.align) return leave();
      x.kind = x.align ? AK_NEW_AL : AK_NEW;
      Arm("alignment", b, kDealloc);
      CallFree(x, b.p, r & 1);
      Undetected();
    }
    case 9: {               // wrong class for a small block: noticed before the memory reaches its span again
      if (!PickMine(h, [](const Blk& x) { return !IsLarge(x) && !IsSampled(x) && x.fam != kMalloc && x.hint < 0 && x.token < 0 && !x.align && x.ret == 0 && x.cap <= 4096; }, &b)) return;
      size_t n = b.cap + 1 + r % 4000;
      if (!Alone()) return leave();
      cur->no_switch++;
      Arm("wrong_class", b, kSizeMismatch, kClassMismatch);
      Blk x = b;
      x.req = n;
      CallFree(x, b.p, 1);
      for (int i = 0; i < 8; ++i) {
        FlushAllCaches();
        Api a("plunder");
        InstPlunder();
      }
      Undetected();
    }
  }
}
void ConfC18(Rng& r) {
  // the last two leave page-level blocks unsampled: their sizes are checked in another way
  static const int64_t iv[] = {1, 64, 512, 4096, 32768, 0, 8 << 20};
  cfg.sampling = iv[r.Below(7)];
  cfg.guarded = r.Below(3) ? -1 : 0;
  unique_stacks = true;
  cfg.ops_per_thread = 8 + r.Below(40);
  cfg.max_live = 48 << 20;
  if (r.Below(4) == 0) fault_rate[F_MMAP_HINT] = 0.2;
  if (r.Below(4) == 0) fault_rate[F_MADV_DONTNEED] = 0.3;
}
void GenC18(Rng& r) {
  int from = sh->n_ops;
  GenerateMix(r, {{O_ALLOC, 24}, {O_FREE, 18}, {O_BURST_ALLOC, 2}, {O_BURST_FREE, 2}, {O_REALLOC, 4}, {O_PINGPONG, 2}, {O_MIGRATE, 2},
                  {O_VERIFY, 1}, {O_RELEASE, 1}, {O_RELEASE_CPU, 0.5}, {O_IDLE, 0.3}, {O_CHURN, 0.5}, {O_MISUSE, 2}});
  int keep = r.Below(6), at = -1, seen = 0;
  for (int i = from; i < sh->n_ops; ++i)
    if (sh->ops[i].kind == O_MISUSE && (uint64_t)r.Below(++seen) == 0) at = i;
  for (int i = from; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind != O_MISUSE) continue;
    for (auto& x : o.a) x = (uint64_t)x >> 1;
    static const int unsampled[] = {0, 2, 3, 4, 6, 6, 6, 9};
    if (keep && i == at) o.a[0] = cfg.sampling && cfg.sampling < 1 << 20 ? r.Below(10) : unsampled[r.Below(8)];
    else o.kind = O_TOUCH;
  }
  // if that thread holds no suitable block, others of its operations get the chance
  if (keep && at >= 0)
    for (int i = at + 1; i < sh->n_ops; ++i)
      if (sh->ops[i].kind == O_TOUCH && sh->ops[i].tid == sh->ops[at].tid) { sh->ops[i].kind = O_MISUSE; sh->ops[i].a[0] = sh->ops[at].a[0]; }
}
bool OpC18(const Op& o) {
  if (o.kind == O_MISUSE) { MisuseAny(o); return true; }
  if (o.kind == O_TOUCH) return true;
  return BaseOp(o);
}
const Plugin kC18 = {"C18", ConfC18, GenC18, nullptr, OpC18, BaseQuiet, nullptr, CrashWanted};
Reg r18(&kC18);
}  // namespace
}  // namespace world
