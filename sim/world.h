// The application model: what the simulated program holds, and what it may expect.
#ifndef VERIF_WORLD_H_
#define VERIF_WORLD_H_
#include <algorithm>
#include <map>
#include <new>
#include <optional>
#include <string>
#include <vector>

#include "sim.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/tcmalloc.h"

namespace world {
using namespace sim;

// ------------------------------------------------------------- configuration
struct Cfg {
  int threads = 3;
  int phases = 2;
  int ops_per_thread = 60;
  int ncpu = 4;
  bool percpu = true;
  bool rseq = true;
  bool first_use_race = false;
  bool background = false;
  int64_t bg_interval_ns = 1000000000;
  int64_t bg_rate = 0;
  int64_t sampling = 0;             // bytes; 0 = off
  int64_t guarded = -1;             // guarded sampling interval; <0 off
  bool numa = false;
  int partitions = 0;               // TCMALLOC_HEAP_PARTITIONING
  std::vector<std::string> env;     // NAME=VALUE
  std::vector<std::pair<const char*, double>> unused;
  double scale = 1;                 // size scale
  int size_mode = 0;
  size_t hot_sizes[4] = {};
  size_t max_live = 256 << 20;
  bool deep_fill = false;
  bool regions = false;             // hold enough slack for huge regions to be used
  bool quiesce_account = true;
  bool spare_metadata = true;       // the system never refuses the allocator's own metadata
  int legacy_classes = 0, disable_dynamic_slabs = 0;
  std::string text;
};
extern Cfg cfg;
extern std::string prop;

// ------------------------------------------------------------- operations
enum OpKind {
  O_NONE, O_ALLOC, O_FREE, O_REALLOC, O_CALLOC, O_BURST_ALLOC, O_BURST_FREE, O_VERIFY, O_RELEASE,
  O_RELEASE_CPU, O_STATS, O_PROPS, O_PROFILE, O_LIMIT, O_SLEEP, O_MIGRATE, O_IDLE, O_SAMPLING,
  O_QUERY, O_HOOK, O_SESSION, O_PARAM, O_RANGES, O_MISUSE, O_CPUSET, O_CYCLE, O_PINGPONG, O_OSMODE,
  O_STALL, O_HUGE, O_JUMP, O_UNIT, O_RATE, O_FREEALL, O_CHURN, O_TRIM, O_TOUCH, O_REGIONS, O_NUM
};

enum Fam : uint8_t { kMalloc, kNew, kNewArr };
enum AllocKind {
  AK_MALLOC, AK_CALLOC, AK_MEMALIGN, AK_ALIGNED_ALLOC, AK_POSIX_MEMALIGN, AK_VALLOC, AK_PVALLOC, AK_REALLOC0,
  AK_NEW, AK_NEW_NT, AK_NEW_AL, AK_NEW_AL_NT, AK_NEW_HC, AK_NEW_HC_NT, AK_NEW_AL_HC, AK_NEW_AL_HC_NT,
  AK_NEWA, AK_NEWA_NT, AK_NEWA_AL, AK_NEWA_AL_NT,
  AK_SRN, AK_SRN_AL, AK_SRN_HC, AK_SRN_AL_HC,
  AK_AAL, AK_AALA,                       // alloc_at_least
  AK_TOK_NEW, AK_TOK_MALLOC, AK_TOK_NEW_HC, AK_TOK_CALLOC, AK_TOK_SRN,
  AK_NUM
};

struct Blk {
  uintptr_t p = 0;
  size_t req = 0, cap = 0, align = 0;   // align: requested (0 = default)
  size_t ret = 0;                       // capacity returned by a size-returning function (0 = none)
  Fam fam = kMalloc;
  uint8_t kind = 0;
  int hint = -1;                        // hot/cold hint or -1
  int token = -1;
  uint64_t pat = 0;
  int owner = 0;
  size_t pos = 0;                       // index in by_owner
  uint64_t seq = 0;
  bool filled = true;
  uint32_t stack_id = 0;
  int cpu = 0;
  uint64_t cpus = 0;        // CPUs the thread was on while it was allocated
  bool inplace = false;     // resized without moving
  int tid = 0;
  uint32_t first_stack = 0; // of the allocation proper, when it was resized in place later
  int first_tid = 0;
  size_t first_req = 0;
  int64_t t_alloc = 0;
  int pins = 0;                         // queries in progress: must not be freed
  bool sampled_seen = false;            // through hooks
  uint64_t aux = 0, aux2 = 0;           // aux2: lies in memory set aside for sampled blocks
};

extern std::map<uintptr_t, Blk> live;
extern std::vector<uintptr_t> by_owner[kMaxFibers];
extern size_t live_bytes, live_cap_bytes, peak_live;
extern uint64_t alloc_seq;
extern Rng rng_ops;

struct AllocSpec {
  int kind = AK_MALLOC;
  size_t size = 16, align = 0, n = 1;   // n: count for calloc
  int hint = 255, token = 0;
  bool fill = true;
};
struct AllocOut { void* p = nullptr; size_t ret = 0; int err = 0; bool threw = false; uint64_t refused = 0; };
struct Pending { int kind; size_t size; uint64_t refused; bool active; };  // allocation in progress, per thread
const Pending& PendingAlloc();
bool Throws(int kind);
bool Aligned(int kind);
Fam FamOf(int kind);
extern const char* const kAkName[];
bool Room(size_t n);
int64_t PackSpec(const AllocSpec& s);
AllocSpec UnpackSpec(int64_t v, size_t size, size_t align);
bool BaseCrash(const char* kind, const char* text);

AllocOut RawAlloc(const AllocSpec& s);                 // calls the entry point, no checks
Blk* Alloc(const AllocSpec& s);                        // nullptr on (allowed) failure
void FreeBlk(uintptr_t p, int variant);                // verifies, unregisters, frees
bool PickBlk(int64_t pick, int mode, uintptr_t* out);  // mode 0 own, 1 any
struct Pin {                                           // keeps a block live while it is queried
  uintptr_t p;
  explicit Pin(uintptr_t q);
  ~Pin();
};
std::string Describe(const Blk& b);
void Verify(const Blk& b, const char* when);
void VerifyAll(const char* when);
bool Realloc(uintptr_t p, size_t n, int variant);
void Fill(const Blk& b);
Blk* Register(Blk b, bool check_usable = true);
void Unregister(uintptr_t p);
AllocSpec RandomSpec(Rng& r, size_t size);
size_t RandomSize(Rng& r);
size_t Prop(const char* name, bool* ok = nullptr);     // numeric property
bool FamMatches(int kind, Fam* f);
size_t Usable(void* p);
inline int Tag(uintptr_t p) { return (p >> 42) & 7; }
void ChangeParam(uint64_t a, uint64_t b);
void RunShortThread(uint64_t seed, int n);
void FreeEverything();
void FlushAllCaches();

// ------------------------------------------------------------- property plug-ins
struct Plugin {
  const char* id;
  void (*configure)(Rng& r);                    // adjusts cfg / sc / fault rates
  void (*generate)(Rng& r);                     // emits ops
  void (*start)();                              // main thread, after static initialisation
  bool (*op)(const Op& o);                      // property-specific operations
  void (*quiet)(int phase);                     // all threads parked
  void (*end)();                                // everything joined
  bool (*crash)(const char* kind, const char* text, uintptr_t addr);  // true: the expected end of the run
};
std::vector<const Plugin*>& Plugins();
struct Reg { explicit Reg(const Plugin* p) { Plugins().push_back(p); } };
extern const Plugin* plugin;
void Emit(int tid, int phase, int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0);

struct Mix { int kind; double w; };
void GenerateMix(Rng& r, const std::vector<Mix>& mix);
void BaseConfigure(Rng& r);
void BaseQuiet(int phase);
bool BaseOp(const Op& o);

// Waits until the background thread sleeps (or is gone); then nothing runs but the caller.
void Quiesce();
extern int bg_fiber;
void StartBackground();
void StopBackground();

extern bool unique_stacks;         // every call that allocates or frees gets a call stack of its own
struct FreedSize { bool known; size_t n; };
extern FreedSize freed_size[kMaxFibers];  // size told to the last free of this thread
// hook callbacks installed by plug-ins
extern void (*on_alloc)(Blk& b);
extern void (*on_free_begin)(const Blk& b);
extern void (*on_free_end)(const Blk& b);
}  // namespace world
#endif
