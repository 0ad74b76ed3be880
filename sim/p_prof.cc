// C09 heap profiles, C15 profiling sessions, C16 allocation hooks.
//
// A ledger records every sampled allocation and free as the allocator announces it through permanent
// sampling hooks, next to the moments (event numbers) at which the application began and ended the
// calls.  Profiles, sessions and hook invocations are judged against that history.
#include <math.h>
#include <stdio.h>
#include <string.h>

#include <deque>
#include <set>
#include <unordered_map>

#include "absl/time/time.h"
#include "acct.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/malloc_hook.h"

using tcmalloc::MallocExtension;
using tcmalloc::MallocHook;
using tcmalloc::Profile;
using tcmalloc::ProfileType;

namespace world {
namespace {
uint64_t Tick() { return ++g_event; }
int64_t Wall() { return realtime_base + NowNs(); }
uint64_t Jumps() { return sh->fault_fired[F_CLOCK_JUMP]; }
constexpr uint64_t kNever = ~0ull;

// ------------------------------------------------------------- ledger of samples
struct Rec {
  int64_t handle = 0;
  size_t req = 0, alloc = 0, align = 0;
  bool has_align = false, cold = false;
  double weight = 0;
  std::vector<const void*> stack;
  int64_t t = 0;                 // allocation time, unix ns
  uintptr_t ptr = 0;
  int hint = 0;
  int fiber = 0;
  uint64_t c0 = 0, ev_new = 0, c1 = kNever;   // allocating call begins, announces the sample, ends
  uint64_t reg = kNever;                      // the application has the block
  uint64_t unreg = kNever;                    // the application is about to free it
  uint64_t d0 = kNever, ev_del = kNever, d1 = kNever;
  int dfiber = -1;
  uint32_t dsid = 0;
  uint64_t cpus = 0, dcpus = 0;
  int64_t w_new = 0, w_end = 0, w_del = 0, w_dend = 0;
  uint64_t j_new = 0, j_end = 0, j_del = 0, j_dend = 0;
  bool blk = false;                           // has been handed to the application
  int type = -1, szret = -1, btoken = -2, bhint = -2;
  size_t balign = 0, breq = 0, bret = 0;
  bool via_realloc = false;
  bool odd = false;                           // interval 1, own thread: weight known
};
std::unordered_map<int64_t, Rec> recs;
std::unordered_map<uintptr_t, int64_t> by_ptr;
std::set<int64_t> pre;                        // sampled before the ledger existed
uint32_t Sid(const std::vector<const void*>& st) {
  for (size_t i = 0; i < 2 && i < st.size(); ++i) {
    uintptr_t pc = (uintptr_t)st[i];
    if (pc >= 0x50000000 && pc < 0x50000000 + (64ull << 24)) return (pc - 0x50000000) / 64;
  }
  return 0;
}
template <class P> uint32_t Sid(P* st, int depth) {
  std::vector<const void*> v;
  for (int i = 0; i < depth && i < 2; ++i) v.push_back((const void*)st[i]);
  return Sid(v);
}

struct PerThread {
  uint64_t c0 = 0, resched0 = 0, seen0 = 0;
  int64_t freeing = 0;          // handle of the sampled block being freed, 0 = none
  uintptr_t freeing_ptr = 0;
  bool after_end = false;       // a free ended and the call that did it may go on to announce a new block
  int64_t undeleted = 0;
  std::vector<int64_t> news, dels;  // announced in the current call
};
PerThread pt[kMaxFibers];

// Events of one outermost call.
struct HookCall { int kind, fn; uintptr_t ptr; size_t req, alloc; bool has_dealloc; size_t dealloc; bool mut; uint64_t ev; };
std::vector<HookCall> calls[kMaxFibers];
void (*extra_call_end)(Fiber*);
void (*extra_on_alloc)(Blk&, bool realloc_, bool failed);
void (*extra_free_begin)(const Blk&);

void OnApi(Fiber* f, bool begin) {
  NoSwitch ns;
  PerThread& p = pt[f->id];
  if (begin) {
    if (p.undeleted) Violation("sampling", "free-unannounced", "a sampled block was freed and its sampled-delete event never came (handle %ld)", (long)p.undeleted);
    p.after_end = false;
    p.c0 = f->api_begin;
    Log("  call begins at event %lu, rescheduled at %lu", p.c0, f->resched);
    p.resched0 = f->resched;
    p.news.clear();
    p.dels.clear();
    calls[f->id].clear();
    return;
  }
  if (p.undeleted) Violation("sampling", "free-unannounced", "a sampled block was freed and its sampled-delete event never came (handle %ld)", (long)p.undeleted);
  uint64_t e = Tick();
  int64_t w = Wall();
  for (int64_t h : p.news) { Rec& r = recs[h]; r.c1 = e; r.cpus = f->cpus_seen; r.w_end = w; r.j_end = Jumps(); }
  for (int64_t h : p.dels) { Rec& r = recs[h]; r.d1 = e; r.dcpus = f->cpus_seen; r.w_dend = w; r.j_dend = Jumps(); }
  if (extra_call_end) extra_call_end(f);
}

void LedgerNew(const MallocHook::SampledAlloc& a) {
  NotApi na;
  NoSwitch ns;
  int64_t h = (int64_t)a.handle;
  if (recs.count(h) || pre.count(h)) Violation("sampling", "handle-reused", "two sampled allocations share the handle %ld", (long)h);
  Rec r;
  r.handle = h;
  r.req = a.requested_size;
  r.alloc = a.allocated_size;
  r.has_align = a.requested_alignment.has_value();
  r.align = r.has_align ? (size_t)*a.requested_alignment : 0;
  r.cold = a.access_allocated == MallocHook::Access::Cold;
  r.weight = a.weight;
  for (auto* p : a.stack) r.stack.push_back(p);
  r.t = absl::ToUnixNanos(a.allocation_time);
  r.ptr = (uintptr_t)a.ptr;
  r.hint = a.access_hint;
  r.fiber = cur->id;
  r.c0 = pt[cur->id].c0;
  r.ev_new = Tick();
  r.w_new = Wall();
  r.j_new = Jumps();
  auto it = by_ptr.find(r.ptr);
  if (it != by_ptr.end())
    Violation("sampling", "free-unannounced", "sampled allocation at %#lx while the one before it (handle %ld) was never announced as freed", r.ptr, (long)it->second);
  by_ptr[r.ptr] = h;
  pt[cur->id].news.push_back(h);
  recs[h] = r;
  Log("  sampled handle %ld ptr %#lx request %zu allocated %zu weight %g", (long)h, r.ptr, r.req, r.alloc, r.weight);
  SIM_PROBE("sampled");
}
void LedgerDel(const MallocHook::SampledAlloc& a) {
  NotApi na;
  NoSwitch ns;
  int64_t h = (int64_t)a.handle;
  if (pre.count(h)) return;
  auto it = recs.find(h);
  if (it == recs.end()) Violation("sampling", "unknown-free", "sampled-delete event for handle %ld, which was never announced", (long)h);
  Rec& r = it->second;
  if (r.ev_del != kNever) Violation("sampling", "double-free-event", "second sampled-delete event for handle %ld", (long)h);
  std::vector<const void*> st;
  for (auto* p : a.stack) st.push_back(p);
  const char* bad = nullptr;
  if (a.requested_size != r.req) bad = "requested size";
  else if (a.allocated_size != r.alloc) bad = "allocated size";
  else if (a.requested_alignment.has_value() != r.has_align || (r.has_align && (size_t)*a.requested_alignment != r.align)) bad = "alignment";
  else if (fabs(a.weight - r.weight) > 1e-9 * (1 + r.weight)) bad = "weight";
  else if (st != r.stack) bad = "stack";
  else if (absl::ToUnixNanos(a.allocation_time) != r.t) bad = "allocation time";
  else if ((uintptr_t)a.ptr != r.ptr) bad = "address";
  else if (a.access_hint != r.hint) bad = "hint";
  else if ((a.access_allocated == MallocHook::Access::Cold) != r.cold) bad = "placement";
  if (bad)
    Violation("sampling", "delete-mismatch", "the sampled-delete event for handle %ld has another %s than the allocation announced (stack %u, %zu frames; announced %u, %zu frames)",
              (long)h, bad, Sid(st), st.size(), Sid(r.stack), r.stack.size());
  PerThread& p = pt[cur->id];
  r.d0 = p.c0;
  r.ev_del = Tick();
  r.dfiber = cur->id;
  r.dsid = cur->stack_id;
  r.w_del = Wall();
  r.j_del = Jumps();
  if (r.blk && p.freeing != h) Violation("sampling", "not-freed", "sampled-delete event for handle %ld, whose block the application still holds", (long)h);
  by_ptr.erase(r.ptr);
  p.dels.push_back(h);
}

int TypeOf(int kind) {   // as documented: how the memory was allocated
  switch (kind) {
    case AK_MALLOC: case AK_CALLOC: case AK_REALLOC0: case AK_TOK_MALLOC: case AK_TOK_CALLOC: case AK_AAL:
      return (int)tcmalloc::AllocationType::Malloc;
    case AK_MEMALIGN: case AK_ALIGNED_ALLOC: case AK_POSIX_MEMALIGN: case AK_VALLOC: case AK_PVALLOC: case AK_AALA:
      return (int)tcmalloc::AllocationType::AlignedMalloc;
  }
  return (int)tcmalloc::AllocationType::New;
}
bool SizeReturning(int kind) {
  return (kind >= AK_SRN && kind <= AK_SRN_AL_HC) || kind == AK_AAL || kind == AK_AALA || kind == AK_TOK_SRN;
}

double bias_total, bias_est;
uint64_t bias_n;
bool every_sampled;             // the interval is 1 and always was for these threads

void OnAlloc(Blk& b) {
  PerThread& p = pt[cur->id];
  bool failed = p.freeing_ptr && !p.after_end && p.freeing_ptr == b.p;   // a failing realloc: the old block lives on
  bool re = p.after_end;
  if (re && p.undeleted) {
    // resized in place: the sample lives on
    if (recs[p.undeleted].ptr != b.p)
      Violation("sampling", "free-unannounced", "realloc moved a sampled block and its sampled-delete event never came (handle %ld)", (long)p.undeleted);
    recs[p.undeleted].unreg = kNever;
    p.undeleted = 0;
  } else if (failed && p.freeing) {
    recs[p.freeing].unreg = kNever;
  }
  p.freeing = 0;
  p.freeing_ptr = 0;
  p.after_end = false;
  auto it = by_ptr.find(b.p);
  bool inplace = re && b.inplace;
  if (it != by_ptr.end()) {
    Rec& r = recs[it->second];
    b.sampled_seen = true;
    if (!r.blk) {
      if (r.fiber != cur->id || r.c0 != p.c0)
        Violation("sampling", "free-unannounced", "%s lies where handle %ld, still live, was sampled", Describe(b).c_str(), (long)r.handle);
      r.blk = true;
      r.reg = Tick();
      r.via_realloc = re;
      r.type = re ? (int)tcmalloc::AllocationType::Malloc : TypeOf(b.kind);
      r.szret = re ? 0 : SizeReturning(b.kind);
      r.btoken = re ? -2 : b.kind >= AK_TOK_NEW ? b.token : -1;
      r.bhint = re ? -1 : b.hint;
      r.balign = re ? 0 : b.align;
      r.breq = b.req;
      r.bret = b.ret;
      const char* bad = nullptr;
      if (!re && b.kind != AK_PVALLOC && r.req != b.req) bad = "requested size";
      else if (re && b.req > r.alloc) bad = "requested size";
      else if (r.alloc < b.cap || (b.cap != r.alloc && b.cap != r.req)) bad = "allocated size";
      else if (r.balign && (!r.has_align || r.align != r.balign)) bad = "alignment";
      else if (!r.balign && r.has_align && (r.type == (int)tcmalloc::AllocationType::New || r.align != 16)) bad = "alignment";
      else if (!re && r.hint != (b.hint < 0 ? 255 : b.hint)) bad = "hint";
      else if (Sid(r.stack) != b.stack_id && unique_stacks) bad = "stack";
      if (bad)
        Violation("sampling", "wrong-fields", "%s was announced as sampled with a wrong %s: request %zu allocated %zu alignment %zu hint %d stack %u",
                  Describe(b).c_str(), bad, r.req, r.alloc, r.align, r.hint, Sid(r.stack));
    }
  } else if (b.aux2) {
    Violation("sampling", "unannounced", "%s lies among the sampled blocks but no sampled-new event told about it", Describe(b).c_str());
  } else if (every_sampled && cur->id != 0 && !failed && !inplace) {
    Violation("sampling", "missed", "%s was not sampled although every allocation should be", Describe(b).c_str());
  }
  if (every_sampled && b.sampled_seen && !inplace && !failed) {
    Rec& r = recs[by_ptr[b.p]];
    if (cur->id != 0 && fabs(r.weight * (r.req + 1) - (r.req + 1)) > 1e-6 * (r.req + 1))
      Violation("sampling", "weight", "every allocation is sampled, yet a sample stands for %g allocations", r.weight);
  }
  if (!re && !failed) {
    bias_total += b.req + 1;
    ++bias_n;
    if (b.sampled_seen) { Rec& r = recs[by_ptr[b.p]]; bias_est += r.weight * (r.req + 1); }
  }
  if (extra_on_alloc) extra_on_alloc(b, re, failed);
}
void OnFreeBegin(const Blk& b) {
  PerThread& p = pt[cur->id];
  auto it = by_ptr.find(b.p);
  p.freeing_ptr = b.p;
  p.freeing = 0;
  if (it != by_ptr.end()) {
    p.freeing = it->second;
    recs[it->second].unreg = Tick();
  }
  if (extra_free_begin) extra_free_begin(b);
}
void OnFreeEnd(const Blk& b) {
  PerThread& p = pt[cur->id];
  if (p.freeing && recs[p.freeing].ev_del == kNever) p.undeleted = p.freeing;
  p.freeing = 0;
  p.freeing_ptr = 0;
  p.after_end = true;
}

struct Listed {
  int64_t handle; size_t req, align, alloc; bool has_align; int64_t count, sum; bool szret; int hint; bool cold; int token, type;
  bool censored;
  std::vector<const void*> stack; int64_t t; uintptr_t span;
  int64_t avg, dev, lo, hi;
  int cpu, vcpu, l3, numa, tid;
  int mcpu, mvcpu, ml3, mnuma, mtid;   // -1: absent
};
std::vector<Listed> Read(const Profile& p) {
  std::vector<Listed> v;
  Api a("Profile::Iterate");
  p.Iterate([&](const Profile::Sample& s) {
    NoSwitch ns;
    Listed l;
    l.handle = (int64_t)s.alloc_handle;
    l.req = s.requested_size;
    l.has_align = s.requested_alignment.has_value();
    l.align = l.has_align ? (size_t)*s.requested_alignment : 0;
    l.alloc = s.allocated_size;
    l.count = s.count; l.sum = s.sum;
    l.szret = s.requested_size_returning;
    l.hint = (int)(uint8_t)s.access_hint;
    l.cold = s.access_allocated == Profile::Sample::Access::Cold;
    l.token = (int)s.token_id;
    l.type = (int)s.type;
    l.censored = s.is_censored;
    for (int i = 0; i < s.depth; ++i) l.stack.push_back(s.stack[i]);
    l.t = absl::ToUnixNanos(s.allocation_time);
    l.span = (uintptr_t)s.span_start_address;
    l.avg = absl::ToInt64Nanoseconds(s.avg_lifetime);
    l.dev = absl::ToInt64Nanoseconds(s.stddev_lifetime);
    l.lo = absl::ToInt64Nanoseconds(s.min_lifetime);
    l.hi = absl::ToInt64Nanoseconds(s.max_lifetime);
    auto I = [](const std::optional<int>& o) { return o.value_or(-1); };
    auto B = [](const std::optional<bool>& o) { return o.has_value() ? (int)*o : -1; };
    l.cpu = I(s.cpu_id); l.vcpu = I(s.vcpu_id); l.l3 = I(s.l3_id); l.numa = I(s.numa_id); l.tid = I(s.thread_id);
    l.mcpu = B(s.allocator_deallocator_physical_cpu_matched);
    l.mvcpu = B(s.allocator_deallocator_virtual_cpu_matched);
    l.ml3 = B(s.allocator_deallocator_l3_matched);
    l.mnuma = B(s.allocator_deallocator_numa_matched);
    l.mtid = B(s.allocator_deallocator_thread_matched);
    v.push_back(std::move(l));
  });
  return v;
}
int none_token = -12345;
const char* Differs(const Listed& l, const Rec& r, bool stack = true) {
  if (l.req != r.req) return "requested size";
  if (l.alloc != r.alloc) return "allocated size";
  if (l.has_align != r.has_align || l.align != r.align) return "alignment";
  if (l.hint != r.hint) return "hint";
  if (l.cold != r.cold) return "placement";
  if (stack && l.stack != r.stack) return "stack";
  if (r.type >= 0 && l.type != r.type) return "entry-point type";
  if (r.szret >= 0 && l.szret != (bool)r.szret) return "size-returning flag";
  if (r.btoken >= 0 && l.token != r.btoken) return "token";
  if (r.btoken == -1 && l.token >= 0 && l.token <= 1 && none_token != l.token) return "token";
  return nullptr;
}
// What an estimate of `weight` allocations may be reported as.
bool CountFits(const Listed& l, const Rec& r, double slack = 1.0) {
  if (l.sum != l.count * (int64_t)l.alloc) return false;
  return l.alloc == 0 ? l.count == 1 : fabs((double)l.count - r.weight) <= slack;
}

int64_t start_interval;
std::vector<Listed> Heap(ProfileType t, uint64_t* t0, uint64_t* t1) {
  *t0 = Tick();
  Profile p;
  { Api a("SnapshotCurrent"); p = MallocExtension::SnapshotCurrent(t); }
  *t1 = Tick();
  return Read(p);
}
void SetInterval(int64_t v) { Api a("SetProfileSamplingInterval"); MallocExtension::SetProfileSamplingInterval(v); }

void StartLedger() {
  uint64_t a, b;
  for (auto& l : Heap(ProfileType::kHeap, &a, &b)) { NoSwitch ns; pre.insert(l.handle); }
  for (auto& l : Heap(ProfileType::kPeakHeap, &a, &b)) { NoSwitch ns; pre.insert(l.handle); }
  bool ok;
  { Api api("add hooks"); ok = MallocHook::AddSampledNewHook(LedgerNew) && MallocHook::AddSampledDeleteHook(LedgerDel); }
  if (!ok) Violation("hooks", "add-failed", "adding the first sampling hooks failed");
  on_api = OnApi;
  on_alloc = OnAlloc;
  on_free_begin = OnFreeBegin;
  on_free_end = OnFreeEnd;
  SetInterval(start_interval);
}

// ------------------------------------------------------------- C09
int c09_mode;   // 0: changing intervals, 1: constant, 2: bias, 3: every allocation, 4: off
double max_certain;   // largest certainly live estimate seen (single-threaded runs)

void CheckHeap(const std::vector<Listed>& v, uint64_t t0, uint64_t t1) {
  NoSwitch ns;
  std::set<int64_t> got;
  for (auto& l : v) {
    if (pre.count(l.handle)) continue;
    auto it = recs.find(l.handle);
    if (it == recs.end()) Violation("heap-profile", "unknown", "the heap profile lists handle %ld, which was never sampled", (long)l.handle);
    if (!got.insert(l.handle).second) Violation("heap-profile", "twice", "the heap profile lists handle %ld twice", (long)l.handle);
    Rec& r = it->second;
    if (r.d1 < t0)
      Violation("heap-profile", "stale", "the heap profile lists handle %ld (%zu bytes at %#lx), freed before the snapshot began", (long)l.handle, r.req, r.ptr);
    if (r.ev_new > t1) Violation("heap-profile", "future", "the heap profile lists handle %ld from after the snapshot", (long)l.handle);
    if (const char* d = Differs(l, r))
      Violation("heap-profile", "fields", "the heap profile lists handle %ld with another %s (request %zu/%zu allocated %zu/%zu type %d/%d token %d/%d)",
                (long)l.handle, d, l.req, r.req, l.alloc, r.alloc, l.type, r.type, l.token, r.btoken);
    if (!CountFits(l, r))
      Violation("heap-profile", "count", "the heap profile counts handle %ld as %ld objects, %ld bytes; its weight is %g, its size %zu", (long)l.handle,
                (long)l.count, (long)l.sum, r.weight, r.alloc);
    if (l.t != r.t) Violation("heap-profile", "time", "the heap profile lists handle %ld with another allocation time", (long)l.handle);
  }
  for (auto& kv : recs) {
    Rec& r = kv.second;
    if (r.blk && r.reg < t0 && r.unreg == kNever && !got.count(kv.first))
      Violation("heap-profile", "missing", "the heap profile lacks handle %ld (%zu bytes at %#lx), sampled before the snapshot and still live", (long)r.handle,
                r.req, r.ptr);
  }
  SIM_PROBE("heap_profile_checked");
  if (!got.empty()) SIM_PROBE("heap_profile_nonempty");
  if (c09_mode == 4 && !recs.empty()) Violation("sampling", "off", "sampling is off and %zu allocations were sampled", recs.size());
}
double Est(const Rec& r) { return r.weight * r.alloc; }
void CheckPeak(const std::vector<Listed>& v) {
  NoSwitch ns;
  std::set<int64_t> got;
  double listed = 0;
  bool has_pre = false;
  for (auto& l : v) {
    if (pre.count(l.handle)) { has_pre = true; continue; }
    auto it = recs.find(l.handle);
    if (it == recs.end()) Violation("peak-profile", "unknown", "the peak profile lists handle %ld, which was never sampled", (long)l.handle);
    if (!got.insert(l.handle).second) Violation("peak-profile", "twice", "the peak profile lists handle %ld twice", (long)l.handle);
    if (const char* d = Differs(l, it->second)) Violation("peak-profile", "fields", "the peak profile lists handle %ld with another %s", (long)l.handle, d);
    if (!CountFits(l, it->second)) Violation("peak-profile", "count", "the peak profile counts handle %ld as %ld objects; its weight is %g", (long)l.handle, (long)l.count, it->second.weight);
    listed += Est(it->second);
  }
  if (got.empty()) return;
  SIM_PROBE("peak_profile_checked");
  // The state it describes was reached inside the call that allocated one of the listed samples.
  const char* why = "";
  int64_t who = 0;
  bool found = false;
  for (int64_t c : got) {
    const Rec& C = recs[c];
    uint64_t lo = C.ev_new, hi = C.c1;   // c1 may still lie ahead
    bool good = true;
    for (int64_t h : got) {
      const Rec& r = recs[h];
      if (r.ev_new > hi) { good = false; why = "allocated too late"; who = h; break; }
      if (r.d1 < lo) { good = false; why = "freed too early"; who = h; break; }
    }
    if (good)
      for (auto& kv : recs) {
        const Rec& r = kv.second;
        if (r.blk && r.reg < lo && (r.unreg == kNever || r.unreg > hi) && !got.count(kv.first)) { good = false; why = "left out"; who = kv.first; break; }
      }
    if (good) { found = true; break; }
  }
  if (!found)
    Violation("peak-profile", "no-such-state", "the peak profile lists %zu samples that were never live together and alone (for its last candidate, handle %ld was %s)",
              got.size(), (long)who, why);
  // A state clearly larger than the recorded peak would have replaced it.
  if (!has_pre && cfg.threads == 1 && max_certain > 1.1 * listed + recs.size() + 64)
    Violation("peak-profile", "not-a-peak", "the recorded peak stands for %.0f bytes, but %.0f were live at another time", listed, max_certain);
}
void NoteSize() {
  if (cfg.threads != 1) return;
  double s = 0;
  for (auto& kv : recs) if (kv.second.blk && kv.second.unreg == kNever) s += Est(kv.second);
  max_certain = std::max(max_certain, s);
}

void ConfC09(Rng& r) {
  cfg.sampling = 0;
  unique_stacks = true;
  c09_mode = r.Below(10);
  c09_mode = c09_mode < 4 ? 0 : c09_mode < 6 ? 1 : c09_mode < 8 ? 2 : c09_mode < 9 ? 3 : 4;
  static const int64_t iv[] = {1, 512, 4096, 32768, 262144};
  start_interval = c09_mode == 3 ? 1 : c09_mode == 4 ? 0 : iv[r.Below(5)];
  if (c09_mode == 2) { start_interval = (int64_t)256 << r.Below(9); cfg.guarded = -1; }
  cfg.guarded = r.Below(3) ? -1 : 0;
  cfg.ops_per_thread = 10 + r.Below(40);
  if (r.Below(3) == 0) cfg.threads = 1;
  cfg.max_live = 48 << 20;
  cfg.regions = false;
  if (cfg.size_mode == 4 && c09_mode == 2) cfg.size_mode = 0;
}
void GenC09(Rng& r) {
  bool b = c09_mode == 2;
  GenerateMix(r, {{O_ALLOC, 22}, {O_FREE, 18}, {O_BURST_ALLOC, c09_mode == 3 ? 1.0 : 6.0}, {O_BURST_FREE, 5}, {O_REALLOC, b ? 0.0 : 4.0}, {O_PINGPONG, 2},
                  {O_PROFILE, 5}, {O_MIGRATE, 2}, {O_IDLE, 0.5}, {O_RELEASE_CPU, 0.5}, {O_SAMPLING, c09_mode == 0 ? 3.0 : 0.0},
                  {O_CHURN, b || c09_mode == 3 ? 0.0 : 0.7}, {O_STATS, b ? 0.0 : 0.1}, {O_RELEASE, 0.3}, {O_PARAM, 0.3}});
}
bool OpC09(const Op& o) {
  cur->stack_id = 7;
  switch (o.kind) {
    case O_PROFILE: {
      uint64_t t0, t1;
      if (o.a[0] % 4) {
        auto v = Heap(ProfileType::kHeap, &t0, &t1);
        CheckHeap(v, t0, t1);
      } else {
        auto v = Heap(ProfileType::kPeakHeap, &t0, &t1);
        CheckPeak(v);
      }
      NoteSize();
      return true;
    }
    case O_SAMPLING: {
      static const int64_t iv[] = {0, 1, 512, 4096, 65536, 1 << 20};
      SetInterval(iv[o.a[0] % 6]);
      return true;
    }
  }
  bool done = BaseOp(o);
  { NoSwitch ns; NoteSize(); }
  return done;
}
void StartC09() {
  StartLedger();
  every_sampled = c09_mode == 3;
}
void QuietC09(int) {
  VerifyAll("at a quiet point");
  cur->stack_id = 8;
  uint64_t t0, t1;
  auto v = Heap(ProfileType::kHeap, &t0, &t1);
  CheckHeap(v, t0, t1);
  v = Heap(ProfileType::kPeakHeap, &t0, &t1);
  CheckPeak(v);
}
void EndC09() {
  QuietC09(0);
  if (c09_mode == 2) {
    double T = start_interval;
    if (bias_total / T >= 100) {
      double err = fabs(bias_est - bias_total), tol = 8 * sqrt(T * bias_total) + 6 * T * n_fibers;
      if (err > tol)
        Violation("sampling", "bias", "%lu allocations of %.0f bytes were estimated as %.0f bytes with sampling interval %ld: off by %.0f, %.0f is plausible",
                  (unsigned long)bias_n, bias_total, bias_est, (long)start_interval, err, tol);
      SIM_PROBE("bias_checked");
    }
  }
}
const Plugin kC09 = {"C09", ConfC09, GenC09, StartC09, OpC09, QuietC09, EndC09, nullptr};
Reg r09(&kC09);

// ------------------------------------------------------------- C15
constexpr int kSlots = 4;
struct Session {
  int state = 0;      // 0 free, 1 busy, 2 running
  int kind = 0;       // 0 allocations, 1 lifetimes, 2 event trace
  uint64_t s0 = 0, s1 = 0, e0 = 0, e1 = 0;
  int64_t ws0 = 0, ws1 = 0, we0 = 0, we1 = 0;
  uint64_t js0 = 0, js1 = 0, je0 = 0, je1 = 0;
  MallocExtension::AllocationProfilingToken token;
};
Session* slots;
int64_t trace_limit;

int64_t Bucket(int64_t ns) {
  if (ns <= 1) return 1;
  if (ns < 1000000) { int64_t p = 1; while (p * 10 <= ns) p *= 10; return p; }
  return ns / 1000000 * 1000000;
}
double EstBytes(const Rec& r) { return r.weight * r.alloc; }

void StartSession(Session& s, int kind) {
  s.kind = kind;
  s.s0 = Tick(); s.ws0 = Wall(); s.js0 = Jumps();
  {
    Api a("start profiling");
    s.token = kind == 0 ? MallocExtension::StartAllocationProfiling()
              : kind == 1 ? MallocExtension::StartLifetimeProfiling() : MallocExtension::StartEventTracing();
  }
  s.s1 = Tick(); s.ws1 = Wall(); s.js1 = Jumps();
  s.state = 2;
}
[[noreturn]] void Bad(const Session& s, const char* sig, const Rec* r, const char* what) {
  static const char* const names[] = {"allocation profile", "lifetime profile", "event trace"};
  char b[700] = "";
  if (r)
    snprintf(b, sizeof b,
             ": handle %ld (request %zu, allocated %zu, stack %u), allocated by t%d in events %lu..%ld, freed by t%d in %ld..%ld; session started in %lu..%lu, stopped in %lu..%lu",
             (long)r->handle, r->req, r->alloc, Sid(r->stack), r->fiber, r->c0, (long)r->c1, r->dfiber, (long)r->d0, (long)r->d1, s.s0, s.s1, s.e0, s.e1);
  Violation("session", sig, "%s: %s%s", names[s.kind], what, b);
}
void CheckAllocations(const Session& s, const std::vector<Listed>& v) {
  std::set<int64_t> got;
  for (auto& l : v) {
    if (pre.count(l.handle)) continue;
    auto it = recs.find(l.handle);
    if (it == recs.end()) Bad(s, "unknown", nullptr, "lists a handle that was never sampled");
    Rec& r = it->second;
    if (!got.insert(l.handle).second) Bad(s, "twice", &r, "listed twice");
    if (r.c1 < s.s0) Bad(s, "before", &r, "lists an allocation from before the session");
    if (r.ev_new > s.e1) Bad(s, "after", &r, "lists an allocation from after the session");
    if (const char* d = Differs(l, r)) Bad(s, "fields", &r, d);
    if (!CountFits(l, r)) Bad(s, "count", &r, "wrong object count");
    if (l.t != r.t) Bad(s, "time", &r, "wrong allocation time");
  }
  for (auto& kv : recs) {
    Rec& r = kv.second;
    if (r.c0 > s.s1 && r.c1 < s.e0) {
      SIM_PROBE("session_alloc_required");
      if (!got.count(kv.first)) Bad(s, "missing", &r, "lacks an allocation of the session");
    }
  }
}
// Whether the session must have seen the block come into being; whether it may have.
enum Presence { kAbsent, kMaybe, kPresent };
Presence Seen(const Session& s, const Rec& r) {
  if (r.d1 < s.s0 || r.ev_new > s.e1) return kAbsent;
  if (r.c0 > s.s1) return r.c1 < s.e0 ? kPresent : kMaybe;
  if (r.c1 < s.e0 && r.unreg > s.s1) return kPresent;    // also if made while the session was being started
  return kMaybe;
}
struct Pair { const Listed* a = nullptr; const Listed* d = nullptr; int na = 0, nd = 0; };
void Judge(const Session& s, Rec& r, bool present, bool freed, bool tolerate_missing) {
  Presence p = Seen(s, r);
  if (present && p == kAbsent) Bad(s, r.ev_new > s.e1 ? "after" : "before", &r, "lists a block that never met the session");
  if (!present) {
    if (p == kPresent && !tolerate_missing) Bad(s, "missing", &r, "lacks a block whose life met the session");
    return;
  }
  if (freed && r.unreg > s.e1) Bad(s, "freed", &r, "reports a live block as freed");
  if (!freed && r.d1 < s.e0) Bad(s, "not-freed", &r, "reports a freed block as live");
}
void CheckMatched(const Session& s, const Rec& r, int got, bool want, const char* what) {
  if (got < 0) Bad(s, "flags", &r, "a match flag is absent");
  if ((got != 0) != want) Bad(s, "flags", &r, what);
}
bool Single(uint64_t m) { return m && !(m & (m - 1)); }
void CheckLifetimes(const Session& s, const std::vector<Listed>& v) {
  std::map<uint32_t, Pair> got;
  for (size_t i = 0; i < v.size(); ++i) {
    const Listed& l = v[i];
    if (l.count < 0) Bad(s, "pairing", nullptr, "a deallocation stands alone");
    uint32_t sid = Sid(l.stack);
    const Listed* d = nullptr;
    if (!l.censored) {
      if (i + 1 >= v.size() || v[i + 1].count >= 0) Bad(s, "pairing", nullptr, "an uncensored allocation has no deallocation");
      d = &v[++i];
      if (d->count != -l.count || d->sum != l.sum || d->censored) Bad(s, "pairing", nullptr, "allocation and deallocation of a pair differ");
    }
    if (sid < 1000) continue;
    Pair& p = got[sid];
    if (p.na++) Bad(s, "twice", nullptr, "two entries for an allocation made once");
    p.a = &l;
    p.d = d;
  }
  for (auto& kv : recs) {
    Rec& r = kv.second;
    uint32_t sid = Sid(r.stack);
    if (sid < 1000) continue;
    auto it = got.find(sid);
    if (!r.blk && it == got.end()) continue;    // on its way to the application
    bool present = it != got.end();
    Judge(s, r, present, present && it->second.d, false);
    if (!present) continue;
    Pair p = it->second;
    got.erase(it);
    const Listed& l = *p.a;
    if (const char* d = Differs(l, r)) Bad(s, "fields", &r, d);
    double est = EstBytes(r);
    int64_t want = r.alloc ? (int64_t)ceil(est / r.alloc - 1e-9) : 1;
    if (l.sum != l.count * (int64_t)l.alloc || llabs(l.count - want) > 1) Bad(s, "count", &r, "wrong object count");
    if (l.dev != 1 || l.lo != l.avg || l.hi != l.avg) Bad(s, "lifetime", &r, "one block has several lifetimes");
    int64_t lo, hi;
    bool known;
    if (p.d) {
      lo = r.w_del - r.t; hi = r.w_dend - r.t;
      known = r.d1 != kNever && r.j_del == r.j_dend;
      if (const char* d = Differs(*p.d, r, false)) Bad(s, "fields", &r, d);
      if (Sid(p.d->stack) != r.dsid) Bad(s, "stack", &r, "deallocation stack is another");
      SIM_PROBE("lifetime_pair_checked");
      if (r.c0 > s.s1) {
        if (r.fiber >= 0) CheckMatched(s, r, l.mtid, r.fiber == r.dfiber, "wrong thread match");
        if (r.d1 != kNever && Single(r.cpus) && Single(r.dcpus)) {
          int a = __builtin_ctzll(r.cpus), b = __builtin_ctzll(r.dcpus);
          CheckMatched(s, r, l.mcpu, a == b, "wrong CPU match");
          CheckMatched(s, r, l.ml3, a / 2 == b / 2, "wrong L3 match");
          if (!cfg.numa) CheckMatched(s, r, l.mnuma, true, "wrong NUMA match");
          SIM_PROBE("cpu_match_checked");
        }
      }
    } else {
      lo = s.we0 - r.t; hi = s.we1 - r.t;
      known = s.je0 == s.je1;
      if (l.mcpu >= 0 || l.mtid >= 0) Bad(s, "flags", &r, "a censored block has match flags");
      SIM_PROBE("lifetime_censored_checked");
    }
    if (known && (l.avg < Bucket(lo) || l.avg > Bucket(hi))) {
      char b[200];
      snprintf(b, sizeof b, "lifetime %ld ns where %ld..%ld passed", (long)l.avg, (long)lo, (long)hi);
      Bad(s, "lifetime", &r, b);
    }
  }
  for (auto& kv : got) {
    char b[100];
    snprintf(b, sizeof b, "lists an allocation that was never sampled (stack %u)", kv.first);
    Bad(s, "unknown", nullptr, b);
  }
}
void CheckTrace(const Session& s, const std::vector<Listed>& v) {
  if ((int64_t)v.size() * 512 > trace_limit) Bad(s, "limit", nullptr, "more events than the memory limit allows");
  bool full = (int64_t)(v.size() + 4) * 1200 > trace_limit;
  if (full) SIM_PROBE("event_trace_truncated");
  std::map<int64_t, Pair> got;
  for (auto& l : v) {
    if (pre.count(l.handle)) continue;
    auto it = recs.find(l.handle);
    if (it == recs.end()) Bad(s, "unknown", nullptr, "an event of a handle that was never sampled");
    Rec& r = it->second;
    Pair& p = got[l.handle];
    if (l.count == 1) {
      if (p.na++) Bad(s, "twice", &r, "two allocation events");
      p.a = &l;
      if (const char* d = Differs(l, r)) Bad(s, "fields", &r, d);
      if (l.sum != (int64_t)r.alloc) Bad(s, "count", &r, "allocation event with wrong size");
      if (l.t != r.t) Bad(s, "time", &r, "allocation event with wrong time");
      if (r.c0 > s.s1) {
        if (l.tid != 5000 + r.fiber) Bad(s, "thread", &r, "allocation event by another thread");
        if (r.c1 != kNever && Single(r.cpus) && (l.cpu != __builtin_ctzll(r.cpus) || l.l3 != l.cpu / 2)) Bad(s, "cpu", &r, "allocation event on another CPU");
      }
    } else if (l.count == -1) {
      if (p.nd++) Bad(s, "twice", &r, "two deallocation events");
      p.d = &l;
      if (r.ev_del == kNever && r.unreg == kNever) Bad(s, "freed", &r, "deallocation event of a live block");
      if (l.tid != 5000 + r.dfiber && r.ev_del != kNever) Bad(s, "thread", &r, "deallocation event by another thread");
      if (r.d1 != kNever && r.j_del == r.j_dend && (l.t < r.w_del || l.t > r.w_dend)) Bad(s, "time", &r, "deallocation event with wrong time");
      if (r.blk && r.dsid >= 1000 && Sid(l.stack) != r.dsid) Bad(s, "stack", &r, "deallocation event with another stack");
      if (r.d1 != kNever && Single(r.dcpus) && l.cpu != __builtin_ctzll(r.dcpus)) Bad(s, "cpu", &r, "deallocation event on another CPU");
    } else {
      Bad(s, "count", &r, "an event with an odd count");
    }
  }
  for (auto& kv : recs) {
    Rec& r = kv.second;
    auto it = got.find(kv.first);
    Pair p;
    if (it != got.end()) p = it->second;
    if (!r.blk) {      // the library's own: judged loosely
      if ((p.na || p.nd) && (r.d1 < s.s0 || r.ev_new > s.e1)) Bad(s, "before", &r, "lists a block that never met the session");
      continue;
    }
    if (p.nd && !p.na && Seen(s, r) == kPresent) Bad(s, "pairing", &r, "a deallocation without its allocation");
    if (p.nd && (r.d1 < s.s0 || r.unreg > s.e1)) Bad(s, "freed", &r, "deallocation event outside the session");
    Judge(s, r, p.na, p.nd, full);
    if (p.na) SIM_PROBE("trace_event_checked");
  }
}
void StopSession(Session& s) {
  Profile p;
  s.e0 = Tick(); s.we0 = Wall(); s.je0 = Jumps();
  { Api a("stop profiling"); p = std::move(s.token).Stop(); }
  s.e1 = Tick(); s.we1 = Wall(); s.je1 = Jumps();
  Session w;
  { NoSwitch ns; w.kind = s.kind; w.s0 = s.s0; w.s1 = s.s1; w.e0 = s.e0; w.e1 = s.e1; w.ws0 = s.ws0; w.ws1 = s.ws1; w.we0 = s.we0; w.we1 = s.we1;
    w.js0 = s.js0; w.js1 = s.js1; w.je0 = s.je0; w.je1 = s.je1; s.state = 0; }
  std::vector<Listed> v = Read(p);
  static const ProfileType types[] = {ProfileType::kAllocations, ProfileType::kLifetimes, ProfileType::kEventTrace};
  NoSwitch ns;
  if (p.Type() != types[w.kind]) Bad(w, "type", nullptr, "the profile has another type");
  auto st = p.StartTime();
  if (!st.has_value()) Bad(w, "start-time", nullptr, "no start time");
  int64_t t = absl::ToUnixNanos(*st), d = absl::ToInt64Nanoseconds(p.Duration());
  if (w.js0 == w.js1 && (t < w.ws0 || t > w.ws1)) Bad(w, "start-time", nullptr, "the start time is not that of the start");
  if (w.je0 == w.je1 && w.js0 == w.js1 && (t + d < w.we0 || t + d > w.we1)) Bad(w, "duration", nullptr, "start time plus duration is not the time of the stop");
  if (w.kind == 0) CheckAllocations(w, v);
  else if (w.kind == 1) CheckLifetimes(w, v);
  else CheckTrace(w, v);
  SIM_PROBE("session_checked");
}
void ConfC15(Rng& r) {
  cfg.sampling = 0;
  unique_stacks = true;
  static const int64_t iv[] = {1, 1, 512, 4096, 32768};
  start_interval = iv[r.Below(5)];
  cfg.guarded = r.Below(3) ? -1 : 0;
  trace_limit = r.Below(3) ? (int64_t)4096 << r.Below(9) : 16 << 20;
  cfg.ops_per_thread = 10 + r.Below(30);
  cfg.max_live = 48 << 20;
  cfg.regions = false;
  if (cfg.size_mode == 4 && r.Below(2)) cfg.size_mode = 0;
  if (r.Below(4) == 0) fault_rate[F_CLOCK_JUMP] = 0.02;
  if (r.Below(4) == 0) fault_rate[F_SLEEP_OVERSHOOT] = 0.3;
}
void StartC15() {
  { NoSwitch ns; slots = new Session[kSlots]; }
  if (TCMalloc_Internal_SetEventTraceMemoryLimit) { Api a("limit"); TCMalloc_Internal_SetEventTraceMemoryLimit(trace_limit); }
  StartLedger();
}
void GenC15(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 22}, {O_FREE, 18}, {O_BURST_ALLOC, 2}, {O_BURST_FREE, 3}, {O_REALLOC, 4}, {O_PINGPONG, 2}, {O_SESSION, 8},
                  {O_MIGRATE, 3}, {O_SLEEP, 2}, {O_CHURN, 0.7}, {O_JUMP, 0.5}, {O_SAMPLING, 0.4}, {O_IDLE, 0.3}, {O_STATS, 0.05}, {O_PROPS, 0.2}});
}
bool OpC15(const Op& o) {
  cur->stack_id = 7;
  switch (o.kind) {
    case O_SESSION: {
      Session& s = slots[o.a[0] % kSlots];
      int st;
      { NoSwitch ns; st = s.state; if (st != 1) s.state = 1; }
      if (st == 0) StartSession(s, o.a[1] % 3);
      else if (st == 2) StopSession(s);
      return true;
    }
    case O_SAMPLING: {
      static const int64_t iv[] = {0, 1, 512, 4096, 65536};
      SetInterval(iv[o.a[0] % 5]);
      return true;
    }
    case O_JUMP: {
      NoSwitch ns;
      JumpRealtime((o.a[0] & 1 ? 1 : -1) * (int64_t)(o.a[1] % 20000000000ll));
      sh->fault_fired[F_CLOCK_JUMP]++;
      return true;
    }
  }
  return BaseOp(o);
}
void EndC15() {
  cur->stack_id = 7;
  for (int i = 0; i < kSlots; ++i)
    if (slots[i].state == 2) StopSession(slots[i]);
}
const Plugin kC15 = {"C15", ConfC15, GenC15, StartC15, OpC15, nullptr, EndC15, nullptr};
Reg r15(&kC15);

// ------------------------------------------------------------- C16
enum HookKind { HK_NEW, HK_DEL, HK_SNEW, HK_SDEL };
constexpr int kFns = 9;
constexpr int kCapacity = 7;   // hooks of a kind that may be registered together
#ifdef NDEBUG
constexpr int kDebugHook = 0;
#else
constexpr int kDebugHook = 1;   // debug builds watch some of their own critical sections with a hook, one per thread
#endif
struct Change { uint64_t b, e; int by; int ok; };   // ok: -1 pending, 0 refused, 1 done
std::vector<Change> adds[4][kFns], rems[4][kFns];
int scribbles;

// Copies registered according to the history: at most / at least, for a traversal inside [from, now].
int MaxCopies(int k, int i, uint64_t from) {
  int n = 0;
  for (auto& c : adds[k][i]) n += c.ok != 0;
  for (auto& c : rems[k][i]) n -= c.ok == 1 && c.e < from;
  return n;
}
struct Delivery { int fiber; uint64_t c0, resched0; bool always; };
int MinCopies(int k, int i, const Delivery& d) {
  int n = 0;
  for (auto& c : adds[k][i])
    n += c.ok == 1 && c.e < d.c0 &&
         (c.by == d.fiber || d.always || d.resched0 > c.e || fibers[d.fiber]->born > c.e);
  for (auto& c : rems[k][i]) n -= c.ok != 0;
  return std::max(n, 0);
}

std::map<int64_t, int> sampled_calls[kMaxFibers][2][kFns];   // handle -> calls, in the current call
struct Freeing { bool active = false; Blk b; bool scribbled = false; } freeing[kMaxFibers];
void ChangeHook(int k, int i, bool add);

void OnHook(int k, int i, uintptr_t p, size_t req, size_t alloc, bool hd, size_t dealloc, bool mut, int64_t handle) {
  bool scrib = false;
  {
    NotApi na;
    NoSwitch ns;
    int f = cur->id;
    uint64_t now = Tick();
    if (MaxCopies(k, i, pt[f].c0) <= 0)
      Violation("hooks", "removed-ran", "hook %d of kind %d ran for %#lx although it was not registered during the event", i, k, p);
    if (k < 2) calls[f].push_back({k, i, p, req, alloc, hd, dealloc, mut, now});
    else sampled_calls[f][k - 2][i][handle]++;
    Freeing& fr = freeing[f];
    if (k == HK_DEL && fr.active && fr.b.p == p) {
      if (!fr.scribbled) Verify(fr.b, "inside a delete hook");
      auto it = live.lower_bound(p);
      if (it != live.end() && it->first < p + fr.b.cap)
        Violation("hooks", "reused-early", "%s was handed out while a delete hook for %#lx runs", Describe(it->second).c_str(), p);
      SIM_PROBE("delete_hook_checked");
    }
    if (mut && p && (scribbles++ & 3) == 0) scrib = true;
    if (scrib) {
      size_t n = k == HK_DEL ? (fr.active && fr.b.p == p ? fr.b.req : 0) : k == HK_NEW ? req : 0;
      memset((void*)p, 0xd7, std::min<size_t>(n, 256));
      if (k == HK_DEL && fr.active && fr.b.p == p) fr.scribbled = true;
    }
  }
  NotApi na;
  Yield();
  if (i == kFns - 1) ChangeHook(k, i, false);      // takes itself out again
}
template <int I> void New_(const MallocHook::NewInfo& x) {
  OnHook(HK_NEW, I, (uintptr_t)x.ptr, x.requested_size, x.allocated_size, false, 0, x.is_mutable == tcmalloc::HookMemoryMutable::kMutable, 0);
}
template <int I> void Del_(const MallocHook::DeleteInfo& x) {
  OnHook(HK_DEL, I, (uintptr_t)x.ptr, 0, x.allocated_size, x.deallocated_size.has_value(), x.deallocated_size.value_or(0),
         x.is_mutable == tcmalloc::HookMemoryMutable::kMutable, 0);
}
template <int I> void SNew_(const MallocHook::SampledAlloc& x) {
  OnHook(HK_SNEW, I, (uintptr_t)x.ptr, x.requested_size, x.allocated_size, false, 0, false, (int64_t)x.handle);
}
template <int I> void SDel_(const MallocHook::SampledAlloc& x) {
  OnHook(HK_SDEL, I, (uintptr_t)x.ptr, x.requested_size, x.allocated_size, false, 0, false, (int64_t)x.handle);
}
const MallocHook::NewHook new_fns[kFns] = {New_<0>, New_<1>, New_<2>, New_<3>, New_<4>, New_<5>, New_<6>, New_<7>, New_<8>};
const MallocHook::DeleteHook del_fns[kFns] = {Del_<0>, Del_<1>, Del_<2>, Del_<3>, Del_<4>, Del_<5>, Del_<6>, Del_<7>, Del_<8>};
const MallocHook::SampledNewHook snew_fns[kFns] = {SNew_<0>, SNew_<1>, SNew_<2>, SNew_<3>, SNew_<4>, SNew_<5>, SNew_<6>, SNew_<7>, SNew_<8>};
const MallocHook::SampledDeleteHook sdel_fns[kFns] = {SDel_<0>, SDel_<1>, SDel_<2>, SDel_<3>, SDel_<4>, SDel_<5>, SDel_<6>, SDel_<7>, SDel_<8>};

void ChangeHook(int k, int i, bool add) {
  auto& list = add ? adds[k][i] : rems[k][i];
  size_t at;
  uint64_t b;
  {
    NoSwitch ns;
    b = Tick();
    at = list.size();
    list.push_back({b, kNever, cur->id, -1});
  }
  bool ok;
  {
    Api a(add ? "add hook" : "remove hook");
    if (add)
      ok = k == HK_NEW ? MallocHook::AddNewHook(new_fns[i]) : k == HK_DEL ? MallocHook::AddDeleteHook(del_fns[i])
           : k == HK_SNEW ? MallocHook::AddSampledNewHook(snew_fns[i]) : MallocHook::AddSampledDeleteHook(sdel_fns[i]);
    else
      ok = k == HK_NEW ? MallocHook::RemoveNewHook(new_fns[i]) : k == HK_DEL ? MallocHook::RemoveDeleteHook(del_fns[i])
           : k == HK_SNEW ? MallocHook::RemoveSampledNewHook(snew_fns[i]) : MallocHook::RemoveSampledDeleteHook(sdel_fns[i]);
  }
  NoSwitch ns;
  uint64_t e = Tick();
  list[at].e = e;
  list[at].ok = ok;
  Log("  hook %d of kind %d %s: %d (events %lu..%lu)", i, k, add ? "added" : "removed", ok, b, e);
  int control = k >= 2;
  if (add) {
    int surely = control, maybe = control;
    for (int j = 0; j < kFns; ++j) {
      for (size_t x = 0; x < adds[k][j].size(); ++x) {
        auto& c = adds[k][j][x];
        if (j == i && x == at) continue;
        surely += c.ok == 1 && c.e < b;
        maybe += c.ok != 0 && c.b < e;
      }
      for (auto& c : rems[k][j]) { surely -= c.ok != 0 && c.b < e; maybe -= c.ok == 1 && c.e < b; }
    }
    if (ok && surely >= kCapacity) Violation("hooks", "over-capacity", "adding a hook succeeded with %d already registered", surely);
    if (!ok && !(kDebugHook && k == HK_NEW) && maybe < kCapacity) Violation("hooks", "add-failed", "adding a hook failed with at most %d registered", maybe);
    if (!ok) SIM_PROBE("hook_add_refused");
  } else {
    int surely = 0, maybe = 0;
    for (auto& c : adds[k][i]) { surely += c.ok == 1 && c.e < b; maybe += c.ok != 0 && c.b < e; }
    for (size_t x = 0; x < rems[k][i].size(); ++x) {
      if (x == at) continue;
      auto& c = rems[k][i][x];
      surely -= c.ok != 0 && c.b < e;
      maybe -= c.ok == 1 && c.e < b;
    }
    if (ok && maybe <= 0) Violation("hooks", "remove-odd", "removing a hook that is not registered succeeded");
    if (!ok && surely > 0) Violation("hooks", "remove-failed", "removing a hook registered %d times failed", surely);
    if (ok) SIM_PROBE("hook_removed");
  }
}
void CheckEvent(int k, uintptr_t p, const Delivery& d, const Blk& b, bool inplace, bool known_size, size_t told) {
  for (int i = 0; i < kFns; ++i) {
    int n = 0;
    for (auto& c : calls[d.fiber]) {
      if (c.kind != k || c.fn != i || c.ptr != p) continue;
      ++n;
      if (c.alloc != b.cap && !(b.sampled_seen || b.aux2))
        Violation("hooks", "size", "a hook (kind %d) was told %#lx has %zu bytes, %s", k, p, c.alloc, Describe(b).c_str());
      if (c.alloc < b.req) Violation("hooks", "size", "a hook (kind %d) was told %#lx has %zu bytes, %s", k, p, c.alloc, Describe(b).c_str());
      if (k == HK_NEW && c.req != b.req && !(b.ret && c.req == b.ret))
        Violation("hooks", "size", "a new hook was told a request of %zu bytes, %s", c.req, Describe(b).c_str());
      if (k == HK_DEL && !inplace && (c.has_dealloc != known_size || (known_size && c.dealloc != told)))
        Violation("hooks", "size", "a delete hook was told a size of %ld, the caller gave %ld: %s", c.has_dealloc ? (long)c.dealloc : -1, known_size ? (long)told : -1,
                  Describe(b).c_str());
    }
    int lo = MinCopies(k, i, d), hi = MaxCopies(k, i, d.c0);
    if (n < lo || n > hi)
      Violation("hooks", n < lo ? "missed" : "repeated", "hook %d of kind %d ran %d times for %s by t%d; between %d and %d copies were registered (call began at event %lu)",
                i, k, n, Describe(b).c_str(), d.fiber, lo, hi, d.c0);
    if (lo > 0) SIM_PROBE(k == HK_NEW ? "new_hook_required" : "delete_hook_required");
  }
}
Blk freed_blk[kMaxFibers];
void C16FreeBegin(const Blk& b) {
  Freeing& f = freeing[cur->id];
  f.active = true;
  f.b = b;
  f.scribbled = false;
}
void C16OnAlloc(Blk& b, bool re, bool failed) {
  int f = cur->id;
  Delivery d{f, pt[f].c0, pt[f].resched0, b.cap > 262144 || b.sampled_seen || !cfg.rseq};
  if (failed) { freeing[f].active = false; return; }
  if (re) {
    Blk old = freeing[f].b;
    freeing[f].active = false;
    // resizing in place announces both
    Delivery dd = d;
    dd.always = old.cap > 262144 || old.sampled_seen || !cfg.rseq;
    CheckEvent(HK_DEL, old.p, dd, old, true, false, 0);
    if (old.p == b.p) return;
  }
  CheckEvent(HK_NEW, b.p, d, b, false, false, 0);
}
void C16CallEnd(Fiber* fb) {
  int f = fb->id;
  Freeing& fr = freeing[f];
  PerThread& p = pt[f];
  if (fr.active && p.after_end) {      // an ordinary free: its end was noted inside this call
    Delivery d{f, p.c0, p.resched0, fr.b.cap > 262144 || fr.b.sampled_seen || !cfg.rseq};
    CheckEvent(HK_DEL, fr.b.p, d, fr.b, false, freed_size[f].known, freed_size[f].n);
    fr.active = false;
  }
  for (int k = 0; k < 2; ++k) {
    auto& hs = k ? p.dels : p.news;
    for (int i = 0; i < kFns; ++i) {
      for (int64_t h : hs) {
        auto it = sampled_calls[f][k][i].find(h);
        int n = it == sampled_calls[f][k][i].end() ? 0 : it->second;
        Delivery d{f, p.c0, p.resched0, true};
        int lo = MinCopies(HK_SNEW + k, i, d), hi = MaxCopies(HK_SNEW + k, i, p.c0);
        if (n < lo || n > hi)
          Violation("hooks", n < lo ? "missed" : "repeated", "sampled-%s hook %d ran %d times for handle %ld; between %d and %d copies were registered",
                    k ? "delete" : "new", i, n, (long)h, lo, hi);
        if (lo > 0) SIM_PROBE("sampled_hook_required");
      }
      for (auto& kv : sampled_calls[f][k][i])
        if (std::find(hs.begin(), hs.end(), kv.first) == hs.end() && !pre.count(kv.first))
          Violation("hooks", "wrong-event", "sampled-%s hook %d ran for handle %ld, which this call did not announce", k ? "delete" : "new", i, (long)kv.first);
      sampled_calls[f][k][i].clear();
    }
  }
}
void ConfC16(Rng& r) {
  cfg.sampling = 0;
  unique_stacks = false;
  static const int64_t iv[] = {0, 0, 512, 4096, 32768};
  start_interval = iv[r.Below(5)];
  cfg.guarded = r.Below(4) ? -1 : 0;
  cfg.ops_per_thread = 10 + r.Below(40);
  cfg.max_live = 48 << 20;
  cfg.regions = false;
}
void StartC16() {
  StartLedger();
  extra_call_end = C16CallEnd;
  extra_on_alloc = C16OnAlloc;
  extra_free_begin = C16FreeBegin;
}
int c16_span;
void GenC16(Rng& r) {
  int span = 1 + r.Below(kFns);
  double hooks = r.Below(2) ? 8 : 25;
  int from = sh->n_ops;
  GenerateMix(r, {{O_ALLOC, 22}, {O_FREE, 20}, {O_BURST_ALLOC, 2}, {O_BURST_FREE, 2}, {O_REALLOC, 4}, {O_PINGPONG, 2}, {O_HOOK, hooks},
                  {O_MIGRATE, 2}, {O_IDLE, 0.5}, {O_RELEASE_CPU, 0.5}, {O_CHURN, 0.5}, {O_SLEEP, 0.3}, {O_CALLOC, 0}});
  int kinds = r.Below(3) == 0 ? 1 + r.Below(4) : 4, bias = r.Below(3);
  for (int i = from; i < sh->n_ops; ++i) {
    Op& o = sh->ops[i];
    if (o.kind != O_HOOK) continue;
    o.a[0] = o.a[0] % kinds;
    o.a[1] = o.a[1] % span;
    o.a[2] = bias == 0 ? o.a[2] & 1 : bias == 1 ? o.a[2] % 3 != 0 : o.a[2] % 3 == 0;
  }
}
bool OpC16(const Op& o) {
  if (o.kind == O_HOOK) { ChangeHook(o.a[0] & 3, (uint64_t)o.a[1] % kFns, o.a[2] & 1); return true; }
  return BaseOp(o);
}
void EndC16() {
  // Every copy must come out again, and nothing more.
  for (int k = 0; k < 4; ++k)
    for (int i = 0; i < kFns; ++i) {
      int n;
      { NoSwitch ns; n = MaxCopies(k, i, kNever); }
      for (int j = 0; j <= n; ++j) ChangeHook(k, i, false);
    }
  for (int i = 0; i < 40; ++i) { AllocSpec s; s.size = 100 + i; Blk* b = Alloc(s); if (b) FreeBlk(b->p, i); }
}
const Plugin kC16 = {"C16", ConfC16, GenC16, StartC16, OpC16, nullptr, EndC16, nullptr};
Reg r16(&kC16);
}  // namespace
}  // namespace world
