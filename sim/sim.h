// Deterministic simulator for TCMalloc: core interfaces.
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_
#include <signal.h>
#include <stddef.h>
#include <stdint.h>

#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { Seed(seed); }
  static uint64_t Mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void Seed(uint64_t x) { s[0] = Mix(x); s[1] = Mix(x); }
  uint64_t Next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  bool P(double p) { return (Next() >> 11) * (1.0 / (1ull << 53)) < p; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + (int64_t)Below(hi - lo + 1); }
  uint64_t Exp(double mean);  // >= 1
};

// ---------------------------------------------------------------- trace
struct Event {           // one scheduling decision
  uint8_t kind;          // 'S' switch, 'A' arm rseq interception
  uint8_t tid;           // fiber at which it happens
  int16_t target;        // S: fiber resumed
  int16_t cpu;           // S: cpu the target resumes on (-1: keep)
  int16_t preempt;       // S: target was preempted meanwhile; A: instructions
  uint64_t steps;        // tid's local step count
};
enum FaultKind {
  F_MMAP, F_MMAP_HINT, F_MPROTECT, F_MADV_DONTNEED, F_MADV_OTHER, F_MUNMAP, F_MINCORE,
  F_READ_EINTR, F_READ_SHORT, F_OPEN, F_AFFINITY, F_RSEQ, F_MEMBARRIER, F_MBIND, F_PRCTL,
  F_CLOCK_JUMP, F_SLEEP_OVERSHOOT, F_CPUSET_CHANGE, F_TSC_SKEW, F_STALL, F_PROVIDER, F_MADV_FREE_DROP,
  F_SIGNAL, F_THP,
  F_SLOW_CALL,
  F_NUM
};
extern const char* const kFaultName[F_NUM];
struct Fault { uint16_t kind; int16_t code; uint32_t index; };

struct Op { uint8_t tid; uint8_t kind; uint8_t dropped; uint8_t pad; int64_t a[4]; };

constexpr int kMaxEvents = 1 << 19;
constexpr int kMaxFaults = 1 << 14;
constexpr int kMaxOps = 1 << 13;
constexpr int kMaxSites = 1 << 16;
constexpr int kMaxProbes = 160;

enum Outcome { kOutNone = 0, kOutOk, kOutViolation, kOutInternal, kOutDiscard };

struct Shared {  // MAP_SHARED between driver and the run
  // input
  uint64_t seed;
  int replay;                 // use the explicit lists below
  int verbose;
  // in/out
  int n_ops; Op ops[kMaxOps];
  int n_events; Event events[kMaxEvents];
  int n_faults; Fault faults[kMaxFaults];
  // output
  int outcome;
  char cls[64];               // violation class
  char sig[256];              // signature inside the class (used for known findings)
  char msg[8192];             // human readable
  char cfg[2048];             // configuration as text
  char log[65536]; int log_len;  // what the allocator wrote to stderr
  uint64_t hash;              // event-log hash
  uint64_t sched_hash;        // hash of the switch sequence
  uint64_t steps, switches, preemptions, migrations, rseq_traps, rseq_aborts, fences;
  uint64_t api_calls, allocs, frees, lock_waits, ticks_ns;
  uint64_t fault_fired[F_NUM], fault_calls[F_NUM];
  uint64_t probes[kMaxProbes];
  int nontrivial;
  // cumulative over runs of this worker
  uint8_t site_pairs[1 << 20];
  uint64_t n_site_pairs;
  char probe_name[kMaxProbes][40];
  int n_probes;
};
extern Shared* sh;

void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // verbose trace
extern bool g_verbose;
[[noreturn]] void Violation(const char* cls, const char* sig, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
[[noreturn]] void Internal(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void FinishRun();      // run ended normally
void HashMix(uint64_t v);

// ---------------------------------------------------------------- fibers
struct RseqArea;
struct Fiber {
  enum State { kReady, kBlocked, kSleeping, kWaiting, kStalled, kDone };
  int id = 0;
  State state = kReady;
  void* rsp = nullptr;
  uintptr_t fs = 0;
  char* stack = nullptr;
  volatile const void* wait_obj = nullptr;
  int64_t wake = 0;
  int cpu = 0;
  uint64_t affinity = ~0ull;
  uint64_t steps = 0;
  bool force_preempt = false;
  // rseq
  char* rseq = nullptr;
  unsigned rseq_sig = 0;
  int mm_cid = 0;
  int arm = -1;                 // >=0: intercept the next critical section after n instructions
  int stepping = -1;            // remaining instructions
  int cs_index = -1;            // descriptor being stepped
  ucontext_t* trap = nullptr;   // set while parked inside the trap handler
  int api_depth = 0;
  int no_switch = 0;
  uint64_t op_start_steps = 0;
  std::function<void()> body;
  void* keyval[16] = {};
  uint32_t stack_id = 0;        // synthetic call-site
  int stack_depth = 6;
  size_t next_event = 0;        // replay cursor into per-fiber list
  const char* what = "";        // current op, for diagnostics
  int held_locks = 0;
  uintptr_t last_pc = 0;
  int segv_depth = 0;
  int64_t skew = 0;
  double weight = 1;
  int64_t sleep_mark[2] = {};    // when the last two sleeps began (ForwardNs)
  bool stalled = false;         // in a system call that takes long
  uint64_t sleeps = 0;
  int api_nest = 0;              // depth of calls, not hidden by NotApi
  uint64_t api_begin = 0;        // event number when the outermost call began
  uint64_t resched = 0;          // latest event after which no state cached from before a reschedule is in use
  uint64_t born = 0;             // event number when the thread was created
  uint64_t cpus_seen = 0;        // CPUs it was on since the last call into the allocator began
};
constexpr int kMaxFibers = 48;
extern Fiber* cur;
extern Fiber* fibers[kMaxFibers];
extern int n_fibers;
extern bool g_active;

struct SchedCfg {
  int ncpu = 4;
  double quantum = 50;          // mean steps between switches
  double quantum_var = 0;       // probability to draw a very long quantum
  double long_quantum = 3000;
  double p_preempt = 0.1;       // chance that a resumed thread had been preempted
  double p_migrate = 0.1;       // chance that a preempted thread migrates
  double p_arm = 0.02;          // chance per decision to intercept the next critical section
  int pct_changes = -1;         // >=0: priority scheduling with that many change points
  uint64_t max_steps = 60000000;
  uint64_t max_op_steps = 30000000;
  bool use_rseq = true;
  bool use_membarrier = true;
  bool mm_cid_feature = false;
  int64_t ns_per_step_num = 1;  // simulated ns per step
  uint64_t cpu_allowed = ~0ull; // cpuset
  bool wake_bias = false;
  double p_sys = 0;             // chance of a switch in a system call
  double p_stall = 0;           // chance that a system call takes long
  double p_freeze = 0;          // chance that a thread that is switched away from stays away for long
  double p_lock = 0;            // chance of a switch when a lock is taken while another is held
};
extern SchedCfg sc;

int Spawn(std::function<void()> body, int cpu = -1);
void Yield();                        // explicit possible switch
void BlockOn(volatile const void* obj, Fiber::State st = Fiber::kWaiting);
void WakeAll(volatile const void* obj);
void SleepNs(int64_t ns);
int64_t NowNs();                     // monotonic simulated time
void AdvanceNs(int64_t ns);
void JumpRealtime(int64_t ns);
void JumpCycles(int64_t cycles);       // sets the cycle counter forwards or back
int64_t ForwardNs();               // the wall clock, with steps backwards left out
extern int64_t realtime_base;
bool OthersDone();
void RunMain(std::function<void()> main_body);  // never returns

struct NoSwitch {                    // harness critical section
  Fiber* f;
  NoSwitch() : f(cur) { if (f) f->no_switch++; }
  ~NoSwitch() { if (f) f->no_switch--; }
};
struct Api {                         // marks a call into the allocator
  Fiber* f; 
  explicit Api(const char* what = nullptr);
  ~Api();
};
extern uint64_t g_event;                          // numbers the moments histories refer to
extern void (*on_api)(Fiber* f, bool begin);      // outermost calls into the allocator
struct NotApi {                      // callback from the allocator into the application
  Fiber* f; int saved;
  NotApi() : f(cur), saved(f ? f->api_depth : 0) { if (f) f->api_depth = 0; }
  ~NotApi() { if (f) f->api_depth = saved; }
};
// Releases fault decision.  Returns 0 (no fault) or a non-zero code.
int FaultPoint(FaultKind k, int ncodes = 1);
extern double fault_rate[F_NUM];
extern uint64_t fault_index[F_NUM];
extern Rng rng_sched, rng_fault, rng_misc;

// locks (implemented in core.cc)
int LockOwner(volatile const void* l);   // -1 free
bool AnyLockHeldByCurrent();

void Probe(int id);
int ProbeId(const char* name);

#define SIM_PROBE(name) do { static int _id = ::sim::ProbeId(name); ::sim::Probe(_id); } while (0)

// ---------------------------------------------------------------- simulated OS
namespace os {
struct Mapping {
  uintptr_t start, end;
  int prot;
  int node;        // mbind
  bool foreign;    // mapped by "somebody else" (obstacle)
};
void Reset();
void AddFile(const std::string& path, const std::string& content);
void AddForeign(uintptr_t start, size_t len);
bool Managed(const volatile void* p);           // inside the region space tcmalloc may map
const Mapping* Find(uintptr_t p);
// Calls f for each byte range of [p, p+n) currently unmapped or not readable/writable.
bool RangeUsable(uintptr_t p, size_t n);
struct Stats { uint64_t mmaps, munmaps, mprotects, madvises, mapped_bytes, released_bytes; };
extern Stats st;
// live-block oracle hook: harness tells whether [p, p+n) overlaps live data
extern bool (*LiveOverlap)(uintptr_t p, size_t n, char* why, size_t whylen);
extern void (*OnMap)(uintptr_t p, size_t n, bool mapped);
extern void (*OnRelease)(uintptr_t p, size_t n, bool ok);
extern void (*OnProtect)(uintptr_t p, size_t n, int prot);
extern int64_t mmap_budget, reserve_budget;          // bytes that may still be made accessible; <0: unlimited
extern bool deny_mmap, deny_mprotect, deny_madvise, deny_munmap;
extern int kernel;   // 0: current; 1: without MAP_FIXED_NOREPLACE; 2: MAP_FIXED_NOREPLACE only looks at the first page
// such a kernel refused the allocator's test for MAP_FIXED_NOREPLACE for want of memory
extern bool probe_refused;
inline constexpr char kProbeRefused[] = " [the probe for MAP_FIXED_NOREPLACE was refused for want of memory]";
extern bool (*Exempt)(uintptr_t);                 // true: memory for which growth is never refused
extern bool no_faults;
extern uint64_t refusals, refusals_by[];          // growth requests refused (per calling thread)
uint64_t BackedBytes(uintptr_t lo, uintptr_t hi);  // resident according to the model
extern struct sigaction segv_action;
extern bool segv_installed;
int mincore_real(void*, size_t, unsigned char*);
size_t ReleasedIn(uintptr_t p, size_t n);  // bytes in range currently released (DONTNEED'd, untouched)
extern bool thp_region_ops;
const std::vector<Mapping> AllMappings();
}  // namespace os

void* HostAlloc(size_t n, size_t align = 16);
void HostFree(void* p);

// crash expectations
extern std::function<bool(const char* kind, const char* text, uintptr_t fault_addr)> on_crash;
// returns true if the crash is expected (run then finishes OK)

}  // namespace sim
#endif
