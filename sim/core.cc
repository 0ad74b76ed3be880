// Simulator core: fibers, scheduler, instrumentation runtime, locks, clocks, rseq.
// Compiled without instrumentation.
#include <asm/prctl.h>
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <linux/membarrier.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/auxv.h>
#include <sys/ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <unordered_map>

#include "sim.h"

namespace sim {

Shared* sh;
bool g_verbose = false;
Fiber* cur;
Fiber* fibers[kMaxFibers];
int n_fibers;
bool g_active = false;
SchedCfg sc;
Rng rng_sched, rng_fault, rng_misc;
double fault_rate[F_NUM];
uint64_t fault_index[F_NUM];
std::function<bool(const char*, const char*, uintptr_t)> on_crash;
int64_t realtime_base = 1700000000ll * 1000000000ll;

const char* const kFaultName[F_NUM] = {
    "mmap_enomem", "mmap_hint_ignored", "mprotect_fail", "madvise_dontneed_fail",
    "madvise_other_fail", "munmap_fail", "mincore_fail", "read_eintr", "read_short",
    "open_fail", "affinity_einval", "rseq_unsupported", "membarrier_unsupported", "mbind_fail",
    "prctl_fail", "clock_jump", "sleep_overshoot", "cpuset_change", "tsc_skew", "thread_stall",
    "provider_fail", "madv_free_drop", "signal_preempt", "thp_advice_fail", "slow_call"};

uint64_t Rng::Exp(double mean) {
  double u = ((Next() >> 11) + 1) * (1.0 / ((1ull << 53) + 1));
  double v = -log(u) * mean;
  if (v > 1e9) v = 1e9;
  return 1 + (uint64_t)v;
}

// ---------------------------------------------------------------- probes
int ProbeId(const char* name) {
  for (int i = 0; i < sh->n_probes; ++i)
    if (!strncmp(sh->probe_name[i], name, 39)) return i;
  if (sh->n_probes >= kMaxProbes) return kMaxProbes - 1;
  snprintf(sh->probe_name[sh->n_probes], 40, "%s", name);
  return sh->n_probes++;
}
void Probe(int id) { if (sh) sh->probes[id]++; }

void HashMix(uint64_t v) {
  uint64_t h = sh->hash;
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  sh->hash = h;
}

static uint64_t LocalSteps();
void Log(const char* fmt, ...) {
  if (!g_verbose) return;
  char b[1024];
  int n = snprintf(b, sizeof b, "[%d @%lu] ", cur ? cur->id : -1, cur ? (unsigned long)LocalSteps() : 0ul);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  (void)!write(2, b, n);
}

static void FoldSteps();
static void StopTime() {
  if (g_active && cur) FoldSteps();
  g_active = false;
}
static void FinalStats() {
  sh->ticks_ns = NowNs();
  for (int i = 0; i < n_fibers; ++i) { sh->steps += fibers[i]->steps; HashMix(fibers[i]->steps); }
  HashMix(NowNs());
}

static char g_alt_stack_guard;
void Violation(const char* cls, const char* sig, const char* fmt, ...) {
  StopTime();
  if (sh->outcome == kOutNone) {
    sh->outcome = kOutViolation;
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    snprintf(sh->sig, sizeof sh->sig, "%s", sig);
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n > (int)sizeof sh->msg - 1) n = sizeof sh->msg - 1;
    snprintf(sh->msg + n, sizeof sh->msg - n, " [thread %d, step %lu, in %s]", cur ? cur->id : -1,
             cur ? (unsigned long)cur->steps : 0ul, cur ? cur->what : "");
    for (const char* p = sh->cls; *p; ++p) HashMix(*p);
    for (const char* p = sh->sig; *p; ++p) HashMix(*p);
    FinalStats();
  }
  _exit(0);
}
void Internal(const char* fmt, ...) {
  StopTime();
  sh->outcome = kOutInternal;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  _exit(0);
}
void FinishRun() {
  StopTime();
  if (sh->outcome == kOutNone) {
    sh->outcome = kOutOk;
    FinalStats();
  }
  _exit(0);
}

// ---------------------------------------------------------------- host heap
// The application's own (non-TCMalloc) memory: deterministic, fixed address.  What the allocator gets from absl's low-level
// allocator lies in a heap apart: hash tables in it depend on their addresses, which must not depend on the harness.
struct Heap {
  uintptr_t base;
  size_t size;
  uintptr_t next;
  void* free[48];
};
static Heap host_heap = {0x200000000ull, 4ull << 30, 0, {}}, lla_heap = {0x400000000ull, 4ull << 30, 0, {}};
static void HeapInit(Heap& h) {
  if (h.next) return;
  void* p = mmap((void*)h.base, h.size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)h.base) { (void)!write(2, "host heap\n", 10); _exit(9); }
  h.next = h.base + 4096;
}
static void* HeapAlloc(Heap& h, size_t n, size_t align) {
  if (!h.next) HeapInit(h);
  if (n < 16) n = 16;
  if (align > 16 || n > (1u << 26)) {
    // 16 byte header, never reused
    uintptr_t p = (h.next + 16 + align - 1) & ~(uintptr_t)(align - 1);
    h.next = (p + n + 15) & ~15ull;
    if (h.next > h.base + h.size) { (void)!write(2, "host oom\n", 9); _exit(9); }
    ((uint64_t*)p)[-2] = 63;
    ((uint64_t*)p)[-1] = n;
    return (void*)p;
  }
  int c = 64 - __builtin_clzll(n - 1);
  if (c < 4) c = 4;
  void* r = h.free[c];
  if (r) { h.free[c] = *(void**)r; return r; }
  uintptr_t p = h.next + 16;
  h.next = p + (1ull << c);
  if (h.next > h.base + h.size) { (void)!write(2, "host oom\n", 9); _exit(9); }
  ((uint64_t*)p)[-2] = c;
  return (void*)p;
}
static void HeapFree(Heap& h, void* p) {
  if (!p) return;
  uint64_t c = ((uint64_t*)p)[-2];
  if (c >= 48) return;
  *(void**)p = h.free[c];
  h.free[c] = p;
}
void* HostAlloc(size_t n, size_t align) { return HeapAlloc(host_heap, n, align); }
void HostFree(void* p) { HeapFree(host_heap, p); }

// ---------------------------------------------------------------- fibers
extern "C" void sim_swap(void** save_rsp, void* new_rsp);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  retq
.size sim_swap,.-sim_swap
.globl sim_fiber_start
.type sim_fiber_start,@function
sim_fiber_start:
  xorl %ebp,%ebp
  pushq $0
  call sim_fiber_main
  ud2
)");
extern "C" void sim_fiber_start();

static constexpr uintptr_t kStackBase = 0x180000000ull;
static constexpr size_t kStackSize = 1 << 20;
static constexpr size_t kTlsSlot = 64 << 10;
static constexpr uintptr_t kTlsBase = 0x1f0000000ull;

static uintptr_t main_fs, tls_start;
static size_t tls_below, tls_above = 2304;
static char* tls_template;
static bool have_fsgsbase;

static inline uintptr_t GetFs() {
  uintptr_t v;
  if (have_fsgsbase) { asm volatile("rdfsbase %0" : "=r"(v)); return v; }
  syscall(SYS_arch_prctl, ARCH_GET_FS, &v);
  return v;
}
static inline void SetFs(uintptr_t v) {
  if (have_fsgsbase) { asm volatile("wrfsbase %0" ::"r"(v) : "memory"); return; }
  // Must not touch errno between: use raw syscall.
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(SYS_arch_prctl), "D"(ARCH_SET_FS), "S"(v)
               : "rcx", "r11", "memory");
}

static void TlsInit() {
  have_fsgsbase = (getauxval(26 /*AT_HWCAP2*/) & 2) != 0;
  have_fsgsbase = have_fsgsbase && !getenv("SIM_NO_FSGSBASE");
  main_fs = GetFs();
  struct Cb {
    static int f(struct dl_phdr_info* i, size_t, void* d) {
      for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS) *(const ElfW(Phdr)**)d = &i->dlpi_phdr[k];
      return 0;
    }
  };
  const ElfW(Phdr)* ph = nullptr;
  dl_iterate_phdr(Cb::f, &ph);
  if (!ph) { (void)!write(2, "no tls\n", 7); _exit(9); }
  size_t al = std::max<size_t>(ph->p_align, 64);
  tls_below = (ph->p_memsz + al - 1) / al * al + 64;
  if (tls_below + tls_above + 8192 > kTlsSlot) { (void)!write(2, "tls too big\n", 12); _exit(9); }
}
static void TlsSnapshot() {
  tls_template = (char*)HostAlloc(tls_below + tls_above);
  memcpy(tls_template, (char*)main_fs - tls_below, tls_below + tls_above);
}
static uintptr_t MakeTls(int id) {
  uintptr_t base = kTlsBase + (uintptr_t)id * kTlsSlot;
  void* p = mmap((void*)base, kTlsSlot, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)base) Internal("tls map");
  uintptr_t fs = base + 32768 + (main_fs & 4095);
  memcpy((char*)fs - tls_below, tls_template, tls_below + tls_above);
  ((uintptr_t*)fs)[0] = fs;   // tcb
  ((uintptr_t*)fs)[2] = fs;   // self
  return fs;
}

extern "C" int64_t sim_countdown;
int64_t sim_countdown = INT64_MAX / 2;
static int64_t cd_start;    // value of sim_countdown when last (re)armed
static int64_t now_ns = 1;  // advanced by steps
static uint64_t global_steps;

static uint64_t LocalSteps() { return cur->steps + (g_active ? cd_start - sim_countdown : 0); }
static void FoldSteps() {
  int64_t used = cd_start - sim_countdown;
  cur->steps += used;
  global_steps += used;
  now_ns += used * sc.ns_per_step_num;
  cd_start = sim_countdown;
}
static void Arm(int64_t n) {
  // steps must be folded
  sim_countdown = cd_start = n;
}

// replay lists per fiber
static std::vector<const Event*> ev_by_tid[kMaxFibers];

static const Event* NextEvent(Fiber* f) {
  auto& v = ev_by_tid[f->id];
  return f->next_event < v.size() ? v[f->next_event] : nullptr;
}

static void RecordEvent(char kind, int target, int cpu, int preempt) {
  if (sh->replay) return;
  if (sh->n_events >= kMaxEvents) { sh->outcome = kOutDiscard; _exit(0); }
  Event& e = sh->events[sh->n_events++];
  e.kind = kind; e.tid = cur->id; e.target = target; e.cpu = cpu; e.preempt = preempt;
  e.steps = cur->steps;
}

// priority scheduling
static int pct_prio[kMaxFibers];
static std::vector<uint64_t> pct_points;
static size_t pct_next;
static int pct_demotions;

static void Rearm() {
  // Chooses when the next decision of `cur` comes.
  if (sh->replay) {
    auto& v = ev_by_tid[cur->id];
    size_t k = cur->next_event;
    while (k < v.size() && v[k]->kind == 'T') ++k;  // consumed by the trap handler
    const Event* e = k < v.size() ? v[k] : nullptr;
    int64_t n = e ? (int64_t)(e->steps - cur->steps) : (int64_t)1 << 40;
    int64_t cap = (int64_t)2000000;  // hang detection granularity
    Arm(std::min(std::max<int64_t>(n, 0), cap));
    return;
  }
  if (sc.pct_changes >= 0) {
    int64_t n = 100000;
    if (pct_next < pct_points.size() && pct_points[pct_next] > global_steps)
      n = std::min<int64_t>(n, pct_points[pct_next] - global_steps);
    Arm(n);
    return;
  }
  double q = sc.quantum * cur->weight;
  if (sc.quantum_var > 0 && rng_sched.P(sc.quantum_var)) q = sc.long_quantum;
  Arm(rng_sched.Exp(q));
}

static void CheckBudget() {
  if (global_steps > sc.max_steps) {
    char b[1024]; int n = 0;
    for (int i = 0; i < n_fibers && n < 900; ++i)
      n += snprintf(b + n, sizeof b - n, " t%d:%s:%d(held %d)", i, fibers[i]->what, fibers[i]->state,
                    fibers[i]->held_locks);
    Violation("hang", "step-budget", "no completion within %lu simulated steps:%s", (unsigned long)global_steps, b);
  }
  if (cur->api_depth > 0 && cur->steps - cur->op_start_steps > sc.max_op_steps)
    Violation("hang", "op-budget", "one operation (%s) ran for %lu steps without completing", cur->what,
              (unsigned long)(cur->steps - cur->op_start_steps));
}

static bool Runnable(Fiber* f) {
  if (f->state == Fiber::kReady) return true;
  return false;
}

static int on_cpu[64];

// --- rseq ------------------------------------------------------------------
struct RseqCs {
  uint32_t version, flags;
  uint64_t start_ip, post_commit_offset, abort_ip;
} __attribute__((aligned(32)));
extern "C" RseqCs __start___rseq_cs[] __attribute__((weak));
extern "C" RseqCs __stop___rseq_cs[] __attribute__((weak));
static int n_cs() { return __start___rseq_cs ? (int)(__stop___rseq_cs - __start___rseq_cs) : 0; }
static unsigned char saved_byte[256];
static bool cs_patched;
static bool cs_ready;

static void CsInit() {
  if (n_cs() > 256) Internal("too many critical sections");
  for (int i = 0; i < n_cs(); ++i) {
    RseqCs& c = __start___rseq_cs[i];
    uintptr_t a = c.start_ip & ~4095ull;
    if (mprotect((void*)a, 8192, PROT_READ | PROT_WRITE | PROT_EXEC) != 0) Internal("mprotect text");
    saved_byte[i] = *(unsigned char*)c.start_ip;
  }
  cs_ready = true;
}
static void CsPatch(bool on) {
  if (!cs_ready || on == cs_patched) return;
  cs_patched = on;
  for (int i = 0; i < n_cs(); ++i)
    *(volatile unsigned char*)__start___rseq_cs[i].start_ip = on ? 0xCC : saved_byte[i];
}
static void CsPatchOne(int i, bool on) {
  *(volatile unsigned char*)__start___rseq_cs[i].start_ip = on ? 0xCC : saved_byte[i];
}
uint64_t g_event;
void (*on_api)(Fiber*, bool);
struct KRseq {  // kernel ABI
  volatile uint32_t cpu_id_start, cpu_id;
  volatile uint64_t rseq_cs;
  volatile uint32_t flags, node_id, mm_cid;
};

extern int (*node_of_cpu)(int);
int (*node_of_cpu)(int) = [](int) { return 0; };

// Applies what the kernel does when `f` returns to user mode after having been preempted,
// migrated or fenced.
static void KernelReturn(Fiber* f) {
  if (!f->rseq) return;
  uint64_t clean = f->api_nest ? f->api_begin : ++g_event;
  if (clean > f->resched) f->resched = clean;
  KRseq* r = (KRseq*)f->rseq;
  bool aborted = false;
  if (r->rseq_cs) {
    RseqCs* c = (RseqCs*)r->rseq_cs;
    if (f->trap) {
      uintptr_t ip = f->trap->uc_mcontext.gregs[REG_RIP];
      if (ip - c->start_ip < c->post_commit_offset) {
        if (*(uint32_t*)(c->abort_ip - 4) != f->rseq_sig)
          Violation("crash", "rseq-signature", "critical section abort handler has wrong signature");
        f->trap->uc_mcontext.gregs[REG_RIP] = c->abort_ip;
        f->trap->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        f->stepping = -1;
        sh->rseq_aborts++;
        aborted = true;
        HashMix(0xab0 + (ip - c->start_ip));
      }
    }
    r->rseq_cs = 0;
  }
  r->cpu_id_start = f->cpu;
  r->cpu_id = f->cpu;
  r->node_id = node_of_cpu(f->cpu);
  r->mm_cid = sc.mm_cid_feature ? f->mm_cid : 0;
  if (aborted) Log("rseq abort on cpu %d", f->cpu);
}

static int PickCpu(Rng& r, Fiber* f) {
  uint64_t m = f->affinity & sc.cpu_allowed;
  if (sc.ncpu < 64) m &= (1ull << sc.ncpu) - 1;
  if (!m) m = sc.cpu_allowed & ((sc.ncpu < 64) ? (1ull << sc.ncpu) - 1 : ~0ull);
  if (!m) return 0;
  int n = __builtin_popcountll(m), k = r.Below(n);
  for (int c = 0; c < 64; ++c)
    if ((m >> c) & 1) { if (k-- == 0) return c; }
  return 0;
}
static bool CpuOk(Fiber* f, int c) {
  return c >= 0 && c < sc.ncpu && ((f->affinity & sc.cpu_allowed) >> c & 1);
}
static void AssignMmCid(Fiber* f) {
  // concurrency ids: small dense ids, unique among fibers that are "on cpu"
  if (!sc.mm_cid_feature) return;
  uint64_t used = 0;
  for (int c = 0; c < 64; ++c)
    if (on_cpu[c] >= 0 && on_cpu[c] != f->id && fibers[on_cpu[c]]->cpu == c) used |= 1ull << fibers[on_cpu[c]]->mm_cid;
  if (!((used >> f->mm_cid) & 1) && f->mm_cid < sc.ncpu) return;
  for (int i = 0; i < sc.ncpu; ++i)
    if (!((used >> i) & 1)) { f->mm_cid = i; return; }
}

static void (*g_switch_hook)(Fiber* from, Fiber* to);
static uintptr_t last_pc;

static void SwitchTo(Fiber* to, int cpu, bool preempt) {
  Fiber* from = cur;
  if (cpu >= 0 && cpu != to->cpu && CpuOk(to, cpu)) {
    if (on_cpu[to->cpu] == to->id) on_cpu[to->cpu] = -1;
    to->cpu = cpu;
    preempt = true;
    sh->migrations++;
  } else if (!CpuOk(to, to->cpu)) {
    int c = PickCpu(rng_misc, to);
    if (c != to->cpu) {
      if (on_cpu[to->cpu] == to->id) on_cpu[to->cpu] = -1;
      to->cpu = c;
      preempt = true;
      sh->migrations++;
    }
  }
  if (on_cpu[to->cpu] != to->id) preempt = true;
  on_cpu[to->cpu] = to->id;
  to->cpus_seen |= 1ull << to->cpu;
  if (to->force_preempt) preempt = true;
  to->force_preempt = false;
  if (preempt) { AssignMmCid(to); KernelReturn(to); sh->preemptions++; }
  if (to != from) {
    sh->switches++;
    from->last_pc = last_pc;
    uint64_t pair = ((from->last_pc * 0x9e3779b97f4a7c15ull) ^ (to->last_pc * 0xc2b2ae3d27d4eb4full)) >> 44;
    if (!sh->site_pairs[pair]) { sh->site_pairs[pair] = 1; sh->n_site_pairs++; }
    uint64_t h = sh->sched_hash;
    h = (h ^ (uint64_t)(from->id * 64 + to->id) ^ (last_pc << 12)) * 0x9e3779b97f4a7c15ull;
    sh->sched_hash = h ^ (h >> 29);
    HashMix(((uint64_t)from->id << 8 | to->id) ^ (from->steps << 16));
    Log("switch to t%d (cpu %d%s)", to->id, to->cpu, preempt ? ", preempted" : "");
  }
}

// Actually transfers control; returns when `from` is resumed.
static void Transfer(Fiber* from, Fiber* to) {
  if (from == to) return;
  cur = to;
  CsPatch(to->arm >= 0);
  if (to->stepping >= 0 && to->cs_index >= 0 && cs_patched) CsPatchOne(to->cs_index, false);
  SetFs(to->fs);
  sim_swap(&from->rsp, to->rsp);
  // resumed
}

static int DefaultTarget() {
  for (int k = 1; k <= n_fibers; ++k) {
    int t = (cur->id + k) % n_fibers;
    if (Runnable(fibers[t])) return t;
  }
  return -1;
}

static int ChooseTarget(bool must_leave) {
  if (sc.pct_changes >= 0) {
    int best = -1;
    for (int i = 0; i < n_fibers; ++i)
      if (Runnable(fibers[i]) && (best < 0 || pct_prio[i] > pct_prio[best])) best = i;
    return best;
  }
  int cand[kMaxFibers], n = 0;
  double tot = 0;
  for (int i = 0; i < n_fibers; ++i)
    if (Runnable(fibers[i]) && !(must_leave && i == cur->id)) { cand[n++] = i; tot += fibers[i]->weight; }
  if (!n) return Runnable(cur) ? cur->id : -1;  // e.g. the only thread, just woken from its own sleep
  double x = (rng_sched.Next() >> 11) * (1.0 / (1ull << 53)) * tot;
  for (int i = 0; i < n; ++i) {
    x -= fibers[cand[i]]->weight;
    if (x < 0) return cand[i];
  }
  return cand[n - 1];
}

// Wakes sleepers whose time has come.  Returns false if nothing can ever run.
static bool WakeSleepers(bool need) {
  int64_t first = INT64_MAX;
  bool any_ready = false;
  for (int i = 0; i < n_fibers; ++i) {
    Fiber* f = fibers[i];
    if (f->state == Fiber::kSleeping) {
      if (f->wake <= now_ns) f->state = Fiber::kReady;
      else first = std::min(first, f->wake);
    }
    if (f->state == Fiber::kReady) any_ready = true;
  }
  if (any_ready || !need) return any_ready;
  if (first == INT64_MAX) {
    // un-stall stalled threads before declaring a deadlock
    bool any = false;
    for (int i = 0; i < n_fibers; ++i)
      if (fibers[i]->state == Fiber::kStalled) { fibers[i]->state = Fiber::kReady; any = true; }
    return any;
  }
  now_ns = first;
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->state == Fiber::kSleeping && fibers[i]->wake <= now_ns) fibers[i]->state = Fiber::kReady;
  return true;
}

static std::string DescribeBlocked();

// Drops replay events that can no longer take place at their recorded position.
static void SkipStale() {
  auto& v = ev_by_tid[cur->id];
  while (cur->next_event < v.size() && v[cur->next_event]->steps < cur->steps) cur->next_event++;
}

// Decisions that depend on nothing but the seed and where the thread is: they need no recording.
static uint64_t StepHash(uint64_t salt) {
  uint64_t h = (sh->seed + 1) * 0x9e3779b97f4a7c15ull ^ (cur->id + salt) * 0xc2b2ae3d27d4eb4full ^ cur->steps * 0x165667b19e3779f9ull;
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h;
}

// Common switch point.  mandatory: cur cannot continue.
static void Decide(bool mandatory, char kind = 'S') {
  bool ok = WakeSleepers(mandatory);
  if (mandatory && !ok) {
    std::string d = DescribeBlocked();
    Violation("deadlock", "all-blocked", "no thread can run: %s", d.c_str());
  }
  int target, cpu = -1, preempt = 0;
  if (sh->replay) {
    SkipStale();
    const Event* e = NextEvent(cur);
    if (e && e->kind == kind && e->steps == cur->steps) {
      cur->next_event++;
      target = e->target; cpu = e->cpu; preempt = e->preempt;
      if (target < 0 || target >= n_fibers || !Runnable(fibers[target])) {
        if (!mandatory) return;
        target = DefaultTarget();
      }
    } else {
      if (!mandatory) return;
      target = DefaultTarget();
    }
  } else {
    target = ChooseTarget(mandatory);
    if (target < 0) Internal("no target");
    if (target == cur->id && !mandatory) {
      preempt = rng_sched.P(sc.p_preempt);
    } else {
      preempt = rng_sched.P(sc.p_preempt) || on_cpu[fibers[target]->cpu] != target;
    }
    if (preempt && rng_sched.P(sc.p_migrate)) cpu = PickCpu(rng_sched, fibers[target]);
    if (target == cur->id && !preempt && !mandatory) return;
    RecordEvent(kind, target, cpu, preempt);
  }
  Fiber* from = cur;
  if (sc.p_freeze > 0 && !mandatory && target != from->id && n_fibers > 2 && !from->no_switch) {
    // The thread is off the CPU for long, wherever it is.  Only at recorded switches, so that a replay does the same.
    uint64_t h = StepHash(0x5a17);
    if ((h & 0xffff) < sc.p_freeze * 65536) {
      sh->fault_fired[F_STALL]++;
      from->wake = now_ns + ((h >> 16 & 1) ? (int64_t)(1000 + (h >> 20) % 60000) * std::max<int64_t>(sc.ns_per_step_num, 1) : (int64_t)((h >> 20) % 6000000000ull));
      from->state = Fiber::kSleeping;
      from->stalled = true;
    }
  }
  SwitchTo(fibers[target], cpu, preempt);
  Transfer(from, fibers[target]);
  from->stalled = false;
}

extern "C" __attribute__((noinline)) void sim_slow_yield() {
  if (!g_active) { sim_countdown = cd_start = INT64_MAX / 2; return; }
  last_pc = (uintptr_t)__builtin_return_address(0);
  FoldSteps();
  CheckBudget();
  if (cur->no_switch) { Arm(200); return; }
  if (sh->replay) {
    for (;;) {
      const Event* e = NextEvent(cur);
      if (!e || e->steps > cur->steps) break;
      if (e->kind == 'T') {
        auto& v = ev_by_tid[cur->id];
        size_t k = cur->next_event;
        while (k < v.size() && v[k]->kind == 'T') ++k;
        if (e->steps < cur->steps || (k < v.size() && v[k]->steps <= cur->steps)) {
          cur->next_event++;
          continue;
        }
        break;
      }
      if (e->steps < cur->steps && e->kind == 'S') { cur->next_event++; continue; }  // stale
      if (e->kind == 'A') { cur->next_event++; cur->arm = e->preempt; CsPatch(true); continue; }
      Decide(false);
    }
  } else {
    if (sc.pct_changes >= 0) {
      bool hit = false;
      while (pct_next < pct_points.size() && pct_points[pct_next] <= global_steps) {
        pct_prio[cur->id] = -(++pct_demotions);
        pct_next++;
        hit = true;
      }
      if (!hit) pct_prio[cur->id] = -(++pct_demotions);  // time slice used up, or explicit yield
      if (sc.p_arm > 0 && cur->rseq && cur->arm < 0 && cs_ready && rng_sched.P(sc.p_arm * 20)) {
        cur->arm = rng_sched.Below(28); RecordEvent('A', -1, -1, cur->arm); CsPatch(true);
      }
    } else if (sc.p_arm > 0 && cur->rseq && cur->arm < 0 && cs_ready && rng_sched.P(sc.p_arm)) {
      cur->arm = rng_sched.Below(28);
      RecordEvent('A', -1, -1, cur->arm);
      CsPatch(true);
    }
    Decide(false);
  }
  Rearm();
}
static inline void Tick(int w) {
  if (__builtin_expect((sim_countdown -= w) <= 0, 0)) sim_slow_yield();
}
void Yield() {
  if (!g_active || !cur) return;
  FoldSteps();
  if (cur->no_switch) return;
  Arm(0);
  // count as one step so that repeated yields have distinct positions
  sim_countdown -= 1;
  sim_slow_yield();
}

// Blocks the current fiber until somebody makes it ready again.
static void BlockHere() {
  FoldSteps();
  if (cur->no_switch) Internal("blocking inside a no-switch section (%s)", cur->what);
  CheckBudget();
  sim_countdown -= 1; FoldSteps();
  Decide(true);
  Rearm();
}

static std::string DescribeBlocked() {
  std::string s;
  for (int i = 0; i < n_fibers; ++i) {
    Fiber* f = fibers[i];
    if (f->state == Fiber::kDone) continue;
    char b[200];
    snprintf(b, sizeof b, "t%d(%s) state %d waits for %p owned by t%d; ", i, f->what, f->state,
             (void*)f->wait_obj, f->state == Fiber::kBlocked ? LockOwner(f->wait_obj) : -1);
    s += b;
  }
  return s;
}

void BlockOn(volatile const void* obj, Fiber::State st) {
  cur->state = st;
  cur->wait_obj = obj;
  BlockHere();
}
void WakeAll(volatile const void* obj) {
  for (int i = 0; i < n_fibers; ++i)
    if ((fibers[i]->state == Fiber::kBlocked || fibers[i]->state == Fiber::kWaiting ||
         fibers[i]->state == Fiber::kStalled) && fibers[i]->wait_obj == obj)
      fibers[i]->state = Fiber::kReady;
}
int64_t ForwardNs();
void SleepNs(int64_t ns) {
  if (!g_active || !cur) { now_ns += ns; return; }
  FoldSteps();
  int extra = FaultPoint(F_SLEEP_OVERSHOOT, 4);
  if (ns < 0) ns = 0;
  cur->sleep_mark[1] = cur->sleep_mark[0];
  cur->sleep_mark[0] = ForwardNs();
  cur->sleeps++;
  cur->op_start_steps = cur->steps;  // a loop that sleeps makes progress
  cur->wake = now_ns + ns + (extra ? ns * extra / 2 + extra * 1000000ll : 0);
  cur->state = Fiber::kSleeping;
  BlockHere();
}
int64_t NowNs() {
  if (g_active && cur) FoldSteps();
  return now_ns;
}
void AdvanceNs(int64_t ns) { NowNs(); now_ns += ns; }
static int64_t rt_forward;  // how far the wall clock was ever set forward
void JumpRealtime(int64_t ns) { realtime_base += ns; if (ns > 0) rt_forward += ns; }
int64_t ForwardNs() { return NowNs() + rt_forward; }

bool OthersDone() {
  for (int i = 0; i < n_fibers; ++i)
    if (i != cur->id && fibers[i]->state != Fiber::kDone) return false;
  return true;
}

Api::Api(const char* what) : f(cur) {
  if (!f) return;
  if (f->api_nest++ == 0) {
    f->api_begin = ++g_event;
    if (on_api && !f->no_switch) on_api(f, true);
  }
  f->api_depth++;
  if (f->api_depth == 1) {
    NowNs();
    f->op_start_steps = f->steps;
    f->cpus_seen = f->rseq ? 1ull << f->cpu : ~0ull;  // without rseq the CPU is not known
    if (what) f->what = what;
    sh->api_calls++;
  }
}
Api::~Api() {
  if (!f) return;
  f->api_depth--;
  if (--f->api_nest == 0) {
    ++g_event;
    if (on_api && !f->no_switch) on_api(f, false);
  }
}

// ---------------------------------------------------------------- faults
static std::vector<Fault> replay_faults[F_NUM];
static size_t replay_fault_pos[F_NUM];
int FaultPoint(FaultKind k, int ncodes) {
  if (!sh) return 0;
  uint64_t idx = fault_index[k]++;
  sh->fault_calls[k]++;
  int code = 0;
  if (os::no_faults) return 0;
  if (sh->replay) {
    auto& v = replay_faults[k];
    while (replay_fault_pos[k] < v.size() && v[replay_fault_pos[k]].index < idx) replay_fault_pos[k]++;
    if (replay_fault_pos[k] < v.size() && v[replay_fault_pos[k]].index == idx) {
      code = v[replay_fault_pos[k]].code;
      if (code > ncodes) code = ncodes;
    }
  } else if (fault_rate[k] > 0 && rng_fault.P(fault_rate[k])) {
    code = 1 + rng_fault.Below(ncodes);
    if (sh->n_faults < kMaxFaults) sh->faults[sh->n_faults++] = Fault{(uint16_t)k, (int16_t)code, (uint32_t)idx};
    else code = 0;
  }
  if (code) {
    sh->fault_fired[k]++;
    HashMix(0xfa0000 + k * 256 + code);
    Log("fault %s code %d (call %lu)", kFaultName[k], code, (unsigned long)idx);
  }
  return code;
}

// ---------------------------------------------------------------- locks
struct LockInfo { int owner = -1; int owner_depth = 0; };
static std::unordered_map<uintptr_t, int>* lock_owner;  // held locks only

int LockOwner(volatile const void* l) {
  auto it = lock_owner->find((uintptr_t)l);
  return it == lock_owner->end() ? -1 : it->second;
}
bool AnyLockHeldByCurrent() { return cur && cur->held_locks > 0; }

}  // namespace sim
using namespace sim;
const char* ProbeNameShared(int id) { return sh->probe_name[id]; }

// Schedules that concentrate on what happens around locks.  Counts as a step, so that a replay finds the position.
static void LockPoint(double f) {
  if (sc.p_lock <= 0) return;
  sim_countdown -= 1;
  if (!sh->replay && !cur->no_switch && rng_sched.P(sc.p_lock * f)) { FoldSteps(); Arm(0); }
  if (sim_countdown <= 0) sim_slow_yield();
}

// System calls take their time: others run meanwhile, or for long before the caller goes on.
extern "C" void sim_sys_point() {
  if (!g_active || !cur || cur->no_switch || (sc.p_sys <= 0 && sc.p_stall <= 0)) return;
  sim_countdown -= 1;
  if (sc.p_stall > 0) {
    FoldSteps();
    uint64_t h = StepHash(1);
    if ((h & 0xffff) < sc.p_stall * 65536 && n_fibers > 2) {
      sh->fault_fired[F_SLOW_CALL]++;
      cur->wake = now_ns + (int64_t)(100 + (h >> 20) % 30000) * std::max<int64_t>(sc.ns_per_step_num, 1);
      cur->state = Fiber::kSleeping;
      cur->stalled = true;
      BlockHere();
      cur->stalled = false;
      return;
    }
  }
  if (sc.p_sys > 0 && !sh->replay && rng_sched.P(sc.p_sys)) { FoldSteps(); Arm(0); }
  if (sim_countdown <= 0) sim_slow_yield();
}

static inline std::atomic<unsigned>* W(volatile void* l) { return (std::atomic<unsigned>*)const_cast<void*>(l); }

extern "C" ssize_t sim_write(int fd, const void* p, size_t n);
extern "C" void sim_abort();
extern "C" {
// Lock word: bit 0 cooperative flag, upper bits owner id + 1.
void sim_lock(volatile void* l) {
  unsigned* w = (unsigned*)const_cast<void*>(l);
  if (!cur) { *w |= 2; return; }
  Tick(6);
  LockPoint(cur->held_locks ? 1 : 0.25);
  while (*w >> 1) {
    int owner = (int)(*w >> 1) - 1;
    if (owner == cur->id)
      Violation("deadlock", "self-deadlock", "thread takes a lock (%p) it already holds", (void*)l);
    if (owner >= n_fibers) Violation("corruption", "lock-word", "lock word %p holds garbage %x", (void*)l, *w);
    sh->lock_waits++;
    cur->wait_obj = l;
    cur->state = Fiber::kBlocked;
    { NoSwitch ns; (*lock_owner)[(uintptr_t)l] = owner; }
    BlockHere();
  }
  *w = (*w & 1) | ((unsigned)(cur->id + 1) << 1);
  cur->held_locks++;
  LockPoint(0.5);
}
bool sim_trylock(volatile void* l) {
  unsigned* w = (unsigned*)const_cast<void*>(l);
  if (!cur) { if (*w >> 1) return false; *w |= 2; return true; }
  Tick(6);
  if (*w >> 1) return false;
  *w = (*w & 1) | ((unsigned)(cur->id + 1) << 1);
  cur->held_locks++;
  return true;
}
void sim_unlock(volatile void* l) {
  unsigned* w = (unsigned*)const_cast<void*>(l);
  if (!cur) { *w &= 1; return; }
  int owner = (int)(*w >> 1) - 1;
  if (owner != cur->id)
    Violation("lock-misuse", "unlock-not-owner", "unlock of lock %p owned by t%d", (void*)l, owner);
  *w &= 1;
  cur->held_locks--;
  { NoSwitch ns; lock_owner->erase((uintptr_t)l); }
  for (int i = 0; i < n_fibers; ++i)
    if (fibers[i]->state == Fiber::kBlocked && fibers[i]->wait_obj == l) fibers[i]->state = Fiber::kReady;
  Tick(6);
}
bool sim_lock_held(const volatile void* l) { return (*(const volatile unsigned*)l >> 1) != 0; }

bool sim_once_enter(volatile unsigned* f) {
  if (!cur) { if (*f == 2) return false; *f = 1; return true; }
  Tick(6);
  for (;;) {
    if (*f == 2) return false;
    if (*f == 0) { *f = 1 | ((cur->id + 1) << 8); return true; }
    int owner = (int)(*f >> 8) - 1;
    if (owner == cur->id) Violation("deadlock", "once-recursion", "recursive one-time initialisation");
    cur->wait_obj = (const void*)f;
    cur->state = Fiber::kWaiting;
    BlockHere();
  }
}
void sim_once_done(volatile unsigned* f) {
  *f = 2;
  if (cur) { WakeAll(f); Tick(6); }
}

static int64_t g_cycle_base = 1ll << 40;
void sim_set_cycle_base(int64_t b) { g_cycle_base = b; }
double g_freq = 1e9;
int64_t sim_cycles() {
  Tick(2);
  int64_t n = NowNs();
  int sk = FaultPoint(F_TSC_SKEW, 3);
  int64_t s = 0;
  if (cur) s = cur->skew;
  if (sk) s -= sk * 40;
  now_ns += 3;
  return (int64_t)(g_cycle_base + (__int128)(n + s) * (int64_t)g_freq / 1000000000);
}
double sim_cycle_freq() { return g_freq; }
int64_t sim_realtime_ns() {
  Tick(2);
  int j = FaultPoint(F_CLOCK_JUMP, 6);
  if (j) {
    static const int64_t jumps[] = {-1000000ll, -2000000000ll, 500000000ll, 3600000000000ll, -86400000000000ll, 5000000000ll};
    realtime_base += jumps[j - 1];
  }
  now_ns += 3;
  return realtime_base + NowNs();
}
void sim_sleep_ns(int64_t ns) { SleepNs(ns); }

// ---------------------------------------------------------------- instrumentation runtime
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void*) { Tick(1); } \
  void __tsan_write##n(void*) { Tick(1); } \
  void __tsan_unaligned_read##n(void*) { Tick(1); } \
  void __tsan_unaligned_write##n(void*) { Tick(1); } \
  void __tsan_read##n##_pc(void*, void*) { Tick(1); } \
  void __tsan_write##n##_pc(void*, void*) { Tick(1); } \
  void __tsan_read_write##n(void*) { Tick(1); } \
  void __tsan_volatile_read##n(void*) { Tick(2); } \
  void __tsan_volatile_write##n(void*) { Tick(2); } \
  void __tsan_unaligned_volatile_read##n(void*) { Tick(2); } \
  void __tsan_unaligned_volatile_write##n(void*) { Tick(2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { Tick(1); }
void __tsan_write_range(void*, unsigned long) { Tick(1); }
void __tsan_vptr_update(void** p, void*) { Tick(1); }
void __tsan_vptr_read(void**) { Tick(1); }
void __tsan_atomic_thread_fence(int) { Tick(3); }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T)                                                                                   \
  T __tsan_atomic##n##_load(const volatile T* a, int) { Tick(4); return __atomic_load_n(a, 5); }   \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { Tick(4); __atomic_store_n(a, v, 5); }   \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { Tick(4); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { Tick(4); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { Tick(4); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { Tick(4); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { Tick(4); return __atomic_fetch_or(a, v, 5); }   \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { Tick(4); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { Tick(4); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {             \
    Tick(4); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                               \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {               \
    Tick(4); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                               \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                   \
    Tick(4); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---------------------------------------------------------------- pthread emulation
static void (*key_dtor[16])(void*);
static int n_keys;
int sim_pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  if (n_keys >= 16) return EAGAIN;
  key_dtor[n_keys] = d;
  *k = n_keys++;
  Tick(3);
  return 0;
}
int sim_pthread_setspecific(pthread_key_t k, const void* v) {
  Tick(3);
  cur->keyval[k] = const_cast<void*>(v);
  return 0;
}
void* sim_pthread_getspecific(pthread_key_t k) { Tick(2); return cur->keyval[k]; }
pthread_t sim_pthread_self() { return cur ? (pthread_t)cur->fs : (pthread_t)main_fs; }
int sim_gettid() { return 5000 + (cur ? cur->id : 0); }
int sim_absl_gettid() { return sim_gettid(); }
int sim_getpid() { return 4242; }
int sim_pthread_sigmask(int, const sigset_t*, sigset_t* old) {
  if (old) sigemptyset(old);
  Tick(2);
  return 0;
}
int sim_sched_yield() { Yield(); return 0; }

// ---------------------------------------------------------------- CPUs and rseq syscalls
int sim_sched_getcpu() { Tick(3); return cur ? cur->cpu : 0; }
int sim_sched_getaffinity(pid_t, size_t n, cpu_set_t* s) {
  Tick(3);
  memset(s, 0, n);
  uint64_t m = cur->affinity & sc.cpu_allowed;
  if (sc.ncpu < 64) m &= (1ull << sc.ncpu) - 1;
  for (int c = 0; c < 64; ++c)
    if ((m >> c) & 1) ((uint64_t*)s)[c / 64] |= 1ull << (c % 64);
  return 0;
}
static void MigrateSelf(int c) {
  if (cur->cpu != c) {
    if (on_cpu[cur->cpu] == cur->id) on_cpu[cur->cpu] = -1;
    cur->cpu = c;
    sh->migrations++;
  }
  on_cpu[c] = cur->id;
  cur->cpus_seen |= 1ull << c;
  KernelReturn(cur);
}
int sim_sched_setaffinity(pid_t, size_t n, const cpu_set_t* s) {
  Tick(6);
  uint64_t m = *(const uint64_t*)s;
  if (sc.ncpu < 64) m &= (1ull << sc.ncpu) - 1;
  m &= sc.cpu_allowed;
  if (!m || FaultPoint(F_AFFINITY)) {
    // a refused single-CPU pin is what a cpuset change looks like
    errno = EINVAL;
    return -1;
  }
  cur->affinity = m;
  if (!((m >> cur->cpu) & 1)) MigrateSelf(__builtin_ctzll(m));
  else KernelReturn(cur);
  return 0;
}
unsigned long sim_getauxval(unsigned long t) {
  if (t == 27 /*AT_RSEQ_FEATURE_SIZE*/) return sc.mm_cid_feature ? 28 : 20;
  return getauxval(t);
}
long sim_os_mbind(unsigned long, unsigned long, unsigned long, const unsigned long*, unsigned long, unsigned);
long sim_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  Tick(6);
  if (nr == SYS_rseq) {
    if (!sc.use_rseq) { errno = ENOSYS; return -1; }
    if (cur->rseq) { errno = ((char*)a == cur->rseq) ? EBUSY : EINVAL; return -1; }
    if ((a & 31) || b != 32) { errno = EINVAL; return -1; }
    cur->rseq = (char*)a;
    cur->rseq_sig = (unsigned)d;
    ((KRseq*)a)->rseq_cs = 0;
    on_cpu[cur->cpu] = cur->id;
    AssignMmCid(cur);
    KernelReturn(cur);
    return 0;
  }
  if (nr == SYS_membarrier) {
    if (!sc.use_membarrier) { errno = ENOSYS; return -1; }
    if (a == (1 << 8)) return 0;
    if (a == (1 << 7)) {
      sh->fences++;
      // order: the calling thread enters the kernel, every running sibling on the CPU is interrupted
      int target = (b & 1) ? (int)c : -1;
      for (int i = 0; i < n_fibers; ++i) {
        Fiber* g = fibers[i];
        if (g == cur || g->state == Fiber::kDone) continue;
        if (target < 0 || g->cpu == target) g->force_preempt = true;
      }
      HashMix(0xfe + target);
      if (target < 0 || target == cur->cpu) KernelReturn(cur);
      Tick(6);
      return 0;
    }
    errno = EINVAL;
    return -1;
  }
  if (nr == SYS_mbind) return sim_os_mbind(a, b, c, (const unsigned long*)d, e, f);
  if (nr == SYS_gettid) return sim_gettid();
  Internal("unexpected syscall %ld", nr);
}

// ---------------------------------------------------------------- stacks for profiles
int sim_GetStackTrace(void** r, int max, int skip) {
  Tick(4);
  int n = 0;
  int depth = cur ? cur->stack_depth : 3;
  uint32_t id = cur ? cur->stack_id : 0;
  for (int i = 0; i < depth && n < max; ++i)
    r[n++] = (void*)(0x50000000ull + (i < 2 ? (uint64_t)id * 64 : (uint64_t)(id % 7) * 4096) + i * 8 + 1);
  return n;
}
int sim_GetStackTraceWithContext(void** r, int max, int skip, const void*, int* dropped) {
  if (dropped) *dropped = 0;
  return sim_GetStackTrace(r, max, skip);
}
int sim_DefaultStackUnwinder(void** r, int* sizes, int max, int skip, const void*, int* dropped) {
  int n = sim_GetStackTrace(r, max, skip);
  if (sizes) for (int i = 0; i < n; ++i) sizes[i] = 0;
  if (dropped) *dropped = 0;
  return n;
}
void* sim_lla_alloc1(size_t n) { Tick(3); return HeapAlloc(lla_heap, n, 16); }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF ? sc.ncpu : sysconf(n); }
void sim___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  char b[600];
  int n = snprintf(b, sizeof b, "%s:%u: assertion %s failed in %s\n", f, l, e, fn);
  sim_write(2, b, n);
  sim_abort();
}
void* sim_lla_alloc(size_t n, void*) { Tick(3); return HeapAlloc(lla_heap, n, 16); }
void sim_lla_free(void* p) { Tick(3); HeapFree(lla_heap, p); }
void* sim_lla_newarena(int) { return HeapAlloc(lla_heap, 64, 16); }
bool sim_lla_deletearena(void* a) { HeapFree(lla_heap, a); return true; }

// ---------------------------------------------------------------- crashes
static void LastLog(char* out, size_t n) {
  // the last line(s) the allocator printed
  int len = sh->log_len;
  int from = len > (int)n - 1 ? len - (int)n + 1 : 0;
  memcpy(out, sh->log + from, len - from);
  out[len - from] = 0;
}
void sim_crash(const char* kind, uintptr_t addr) {
  StopTime();
  char text[4096];
  LastLog(text, sizeof text);
  if (on_crash) {
    if (on_crash(kind, sh->log, addr)) FinishRun();
  }
  // Signature: first line of the allocator's own message, or the kind.
  char sig[200];
  const char* p = sh->log_len ? sh->log : kind;
  // use the last CHECK line
  const char* best = p;
  for (const char* q = p; q && *q;) {
    const char* nl = strchr(q, '\n');
    if (strstr(q, "CHECK") == q || strstr(q, ".cc:") || strstr(q, ".h:")) {}
    if (!nl) break;
    if (nl[1] && (strncmp(nl + 1, "  @", 3) != 0)) best = nl + 1;
    q = nl + 1;
  }
  size_t k = 0;
  // normalised: no thread id, no line number, no addresses or values
  for (; *best >= '0' && *best <= '9'; ++best) {}
  for (; *best && *best != '\n' && k < sizeof sig - 1; ++best) {
    if (*best >= '0' && *best <= '9') {
      while ((*best >= '0' && *best <= '9') || (*best >= 'a' && *best <= 'f') || *best == 'x') ++best;
      --best;
      sig[k++] = '#';
    } else sig[k++] = *best;
  }
  sig[k] = 0;
  Violation("crash", sig, "process terminated (%s, address %#lx): %s%s", kind, (unsigned long)addr, text,
            os::probe_refused && strstr(text, "result == MAP_FAILED") ? os::kProbeRefused : "");
}
void sim_abort() { sim_crash("abort", 0); __builtin_trap(); }
int sim_raise(int sig) {
  char b[32];
  snprintf(b, sizeof b, "raise(%d)", sig);
  sim_crash(b, 0);
  return 0;
}
ssize_t sim_write(int fd, const void* p, size_t n) {
  if (g_verbose) (void)!write(2, p, n);
  if (n > 20000) n = 20000;
  if (sh->log_len + n >= sizeof sh->log - 1) {  // keep the end
    int cut = sizeof sh->log / 2 + 1;
    cut = std::min(cut, sh->log_len);
    // the reason for ending the process may be printed before a long report
    char why[256];
    size_t keep = 0;
    sh->log[sh->log_len] = 0;
    for (const char* t : {"Unable to allocate", "Out of memory trying to allocate internal tcmalloc data"})
      if (const char* q = strstr(sh->log, t); q && q < sh->log + cut) {
        keep = std::min<size_t>(strcspn(q, "\n"), sizeof why - 2);
        memcpy(why, q, keep);
        why[keep++] = '\n';
      }
    memmove(sh->log + keep, sh->log + cut, sh->log_len - cut);
    memcpy(sh->log, why, keep);
    sh->log_len -= cut - keep;
  }
  { memcpy(sh->log + sh->log_len, p, n); sh->log_len += n; sh->log[sh->log_len] = 0; }
  return n;
}
size_t sim_fwrite(const void* p, size_t s, size_t n, FILE*) { sim_write(2, p, s * n); return n; }
int sim_fprintf(FILE*, const char* fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  sim_write(2, b, std::min<int>(n, sizeof b - 1));
  return n;
}
int sim_fputs(const char* s, FILE*) { sim_write(2, s, strlen(s)); return 1; }

int sim_sigaction(int sig, const struct sigaction* act, struct sigaction* old) {
  if (sig == SIGSEGV) {
    if (old) *old = os::segv_action;
    if (act) { os::segv_action = *act; os::segv_installed = true; }
    return 0;
  }
  if (old) memset(old, 0, sizeof *old);
  return 0;
}
}  // extern "C"

namespace sim {
void JumpCycles(int64_t cycles) {
  int64_t now = sim_cycles();
  if (now + cycles < 1000) cycles = 1000 - now;
  if (now + cycles > (int64_t)1 << 61) return;
  g_cycle_base += cycles;
}
namespace os {
struct sigaction segv_action;
bool segv_installed;
}

static void OnSegv(int sig, siginfo_t* si, void* ctx) {
  uintptr_t a = (uintptr_t)si->si_addr;
  if (g_verbose) Log("signal %d at %p rip %#llx", sig, si->si_addr, ((ucontext_t*)ctx)->uc_mcontext.gregs[REG_RIP]);
  static int outside;
  int& depth = cur ? cur->segv_depth : outside;
  if (++depth > 1) {
    StopTime();
    if (depth > 3) _exit(7);
    sim_crash("fault inside the fault handler", a);
  }
  if (sig == SIGSEGV && os::segv_installed && cur) {
    if (os::segv_action.sa_flags & SA_SIGINFO) os::segv_action.sa_sigaction(sig, si, ctx);
    else if (os::segv_action.sa_handler != SIG_DFL && os::segv_action.sa_handler != SIG_IGN) os::segv_action.sa_handler(sig);
  }
  sim_crash(sig == SIGSEGV ? "SIGSEGV" : sig == SIGILL ? "SIGILL" : sig == SIGFPE ? "SIGFPE" : "SIGBUS", a);
}

// Entered through INT3 at the start of a critical section (armed), or through single-stepping.
static void OnTrap(int, siginfo_t*, void* vctx) {
  ucontext_t* ctx = (ucontext_t*)vctx;
  Fiber* f = cur;
  uintptr_t rip = ctx->uc_mcontext.gregs[REG_RIP];
  if (!f) { (void)!write(2, "trap outside fiber\n", 19); _exit(9); }
  if (f->stepping < 0) {
    // breakpoint
    int idx = -1;
    for (int i = 0; i < n_cs(); ++i)
      if (__start___rseq_cs[i].start_ip == rip - 1) idx = i;
    if (idx < 0) { sim_crash("SIGTRAP", rip); return; }
    ctx->uc_mcontext.gregs[REG_RIP] = rip - 1;
    f->cs_index = idx;
    f->stepping = f->arm;
    f->arm = -1;
    CsPatch(false);
    sh->rseq_traps++;
    HashMix(0xc500 + idx);
    if (f->stepping > 0 || true) {
      if (f->stepping == 0) goto act;
      ctx->uc_mcontext.gregs[REG_EFL] |= 0x100;  // TF
      return;
    }
  }
  f->stepping--;
  if (f->stepping > 0) {
    RseqCs& c = __start___rseq_cs[f->cs_index];
    if (rip - c.start_ip < c.post_commit_offset) {
      ctx->uc_mcontext.gregs[REG_EFL] |= 0x100;
      return;
    }
    // left the section: act right after the commit
  }
act:
  ctx->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  f->stepping = -1;
  f->cs_index = -1;
  if (!g_active || f->no_switch) return;
  f->trap = ctx;
  int saved_errno = errno;
  last_pc = rip;
  FoldSteps();
  // A decision is mandatory here in the sense that something happens: another thread runs, or
  // this one is interrupted.
  if (sh->replay) {
    Decide(false, 'T');
  } else {
    bool ok = WakeSleepers(false);
    (void)ok;
    int target = ChooseTarget(false);
    if (rng_sched.P(0.75)) { int t2 = ChooseTarget(true); if (t2 >= 0 && sc.pct_changes < 0) target = t2; }
    if (target < 0) target = f->id;
    int preempt = target == f->id ? 1 : (rng_sched.P(sc.p_preempt) || on_cpu[fibers[target]->cpu] != target);
    int cpu = -1;
    if (preempt && rng_sched.P(std::max(sc.p_migrate, 0.2))) cpu = PickCpu(rng_sched, fibers[target]);
    RecordEvent('T', target, cpu, preempt);
    SwitchTo(fibers[target], cpu, preempt);
    Transfer(f, fibers[target]);
  }
  Rearm();
  f->trap = nullptr;
  errno = saved_errno;
}

static void ThreadExitDestructors() {
  Api api("thread exit");
  for (int round = 0; round < 4; ++round) {
    bool any = false;
    for (int k = 0; k < n_keys; ++k) {
      void* v = cur->keyval[k];
      if (v && key_dtor[k]) {
        cur->keyval[k] = nullptr;
        any = true;
        key_dtor[k](v);
      }
    }
    if (!any) break;
  }
}

extern "C" void sim_fiber_main() {
  Rearm();
  Fiber* f = cur;
  f->body();
  ThreadExitDestructors();
  f->what = "exited";
  FoldSteps();
  f->state = Fiber::kDone;
  if (on_cpu[f->cpu] == f->id) on_cpu[f->cpu] = -1;
  WakeAll(f);
  f->rseq = nullptr;
  // pick another
  bool all_done = true;
  for (int i = 0; i < n_fibers; ++i) if (fibers[i]->state != Fiber::kDone) all_done = false;
  if (all_done) FinishRun();
  BlockHere();
  Internal("done fiber resumed");
}

int Spawn(std::function<void()> body, int cpu) {
  if (n_fibers >= kMaxFibers) Internal("too many fibers");
  Fiber* f = new Fiber;
  f->id = n_fibers;
  f->born = ++g_event;
  f->body = std::move(body);
  f->fs = MakeTls(f->id);
  uintptr_t base = kStackBase + (uintptr_t)f->id * (kStackSize + 65536);
  void* p = mmap((void*)base, kStackSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)base) Internal("stack map");
  f->stack = (char*)p;
  uintptr_t top = base + kStackSize - 64;
  uint64_t* s = (uint64_t*)top;
  *--s = 0;
  *--s = (uint64_t)sim_fiber_start;
  for (int i = 0; i < 6; ++i) *--s = 0;
  *--s = 0x0000037f00001f80ull;
  f->rsp = s;
  if (cpu >= 0 && cpu < sc.ncpu) f->cpu = cpu;
  else f->cpu = rng_misc.Below(sc.ncpu);
  if (!CpuOk(f, f->cpu)) f->cpu = PickCpu(rng_misc, f);
  f->affinity = ~0ull;
  pct_prio[f->id] = 1 + rng_misc.Below(1000000);
  fibers[n_fibers++] = f;
  return f->id;
}

void CoreEarlyInit() { HeapInit(host_heap), HeapInit(lla_heap); TlsInit(); }

void RunMain(std::function<void()> main_body) {
  memset(on_cpu, -1, sizeof on_cpu);
  TlsSnapshot();
  lock_owner = new std::unordered_map<uintptr_t, int>;
  if (sh->replay) {
    for (int i = 0; i < sh->n_events; ++i)
      if (sh->events[i].tid < kMaxFibers) ev_by_tid[sh->events[i].tid].push_back(&sh->events[i]);
    for (int i = 0; i < sh->n_faults; ++i)
      if (sh->faults[i].kind < F_NUM) replay_faults[sh->faults[i].kind].push_back(sh->faults[i]);
    for (auto& v : replay_faults)
      std::sort(v.begin(), v.end(), [](const Fault& a, const Fault& b) { return a.index < b.index; });
  }
  if (sc.pct_changes >= 0) {
    for (int i = 0; i < sc.pct_changes; ++i) pct_points.push_back(rng_sched.Below((uint64_t)sc.long_quantum * 40 + 1));
    std::sort(pct_points.begin(), pct_points.end());
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = OnTrap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, nullptr);
  sa.sa_sigaction = OnSegv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
  CsInit();
  Spawn(std::move(main_body), -1);
  cur = fibers[0];
  g_active = true;
  on_cpu[cur->cpu] = 0;
  SetFs(cur->fs);
  static void* dummy;
  sim_swap(&dummy, cur->rsp);
  __builtin_trap();
}
}  // namespace sim
