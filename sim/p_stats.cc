// C21 reports: statistics text, machine-readable statistics, property queries.
#include <ctype.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <map>

#include "acct.h"
#include "tcmalloc/internal/parameter_accessors.h"

using tcmalloc::MallocExtension;
extern "C" int MallocExtension_Internal_GetStatsInPbtxt(char* buffer, int buffer_length);

namespace world {
namespace {
constexpr size_t kBig = 2 << 20, kFence = 512;
constexpr unsigned char kFill = 0xa5;
char* Arena() {  // one per fibre: reports may be taken by several threads at once
  static char* a[kMaxFibers];
  char*& p = a[cur->id];
  if (!p) p = (char*)HostAlloc(kBig + 2 * kFence, 64);
  return p;
}
bool own_factory;

// ---- taking a report
struct Report { bool pbtxt; size_t len, need; std::string s; bool whole; };
Report TakeReport(bool pbtxt, size_t len) {
  Report r;
  r.pbtxt = pbtxt;
  r.len = len;
  char* a = Arena();
  char* b = a + kFence;
  memset(a, kFill, std::min(len, (size_t)64 << 10) + 2 * kFence);
  size_t at = std::min(len, (size_t)64 << 10) + kFence;
  if (at < len + kFence) memset(a + at, kFill, len + 2 * kFence - at);
  {
    Api api(pbtxt ? "GetStatsInPbtxt" : "GetStats");
    r.need = pbtxt ? (size_t)(int64_t)MallocExtension_Internal_GetStatsInPbtxt(b, (int)len) : TCMalloc_Internal_GetStats(b, len);
  }
  const char* what = pbtxt ? "machine-readable statistics" : "statistics text";
  for (size_t i = 0; i < kFence; ++i)
    if ((unsigned char)a[i] != kFill || (unsigned char)b[len + i] != kFill)
      Violation("report", "out-of-bounds", "the %s wrote %s the buffer of %zu bytes it was given", what, (unsigned char)a[i] != kFill ? "before" : "past the end of", len);
  if (r.need == 0 || r.need > kBig) Violation("report", "needed", "the %s claim to need %zu bytes", what, r.need);
  r.whole = r.need < len;
  if (r.whole) {
    if (memchr(b, 0, r.need) || b[r.need] != 0)
      Violation("report", "terminated", "the %s of %zu bytes in a buffer of %zu %s", what, r.need, len, memchr(b, 0, r.need) ? "end early" : "do not end in a zero byte");
    r.s.assign(b, r.need);
    SIM_PROBE(pbtxt ? "pbtxt_whole" : "text_whole");
  } else {
    if (!pbtxt && !memchr(b, 0, len)) Violation("report", "terminated", "the statistics text cut off at %zu bytes is not terminated", len);
    r.s.assign(b, strnlen(b, len));
    // what was not written is left alone
    size_t n = r.s.size();
    while (pbtxt && n && (unsigned char)r.s[n - 1] == kFill) --n;
    r.s.resize(n);
    SIM_PROBE(pbtxt ? "pbtxt_cut" : "text_cut");
  }
  for (size_t i = 0; i < r.s.size(); ++i) {
    unsigned char c = r.s[i];
    if ((c < 32 && c != '\n') || c > 126) Violation("report", "garbage", "byte %#x at %zu of the %s (%zu of %zu bytes)", c, i, what, r.need, len);
  }
  sh->allocs++;
  return r;
}

// ---- machine-readable form
struct Node { std::string key, val; std::vector<Node> kids; bool sub = false; };
struct Parser {
  const std::string& s;
  size_t i = 0;
  void Ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; }
  bool Parse(std::vector<Node>* out, bool nested) {
    for (;;) {
      Ws();
      if (i == s.size()) return !nested;
      if (s[i] == '}') { ++i; return nested; }
      Node n;
      while (i < s.size() && (isalnum(s[i]) || s[i] == '_')) n.key += s[i++];
      if (n.key.empty() || isdigit(n.key[0])) return false;
      bool colon = i < s.size() && s[i] == ':';
      if (colon) ++i;
      Ws();
      if (i < s.size() && s[i] == '{') {
        ++i;
        n.sub = true;
        if (!Parse(&n.kids, true)) return false;
      } else {
        if (!colon) return false;
        if (i < s.size() && s[i] == '"') {
          do n.val += s[i++]; while (i < s.size() && s[i] != '"');
          if (i == s.size()) return false;
          n.val += s[i++];
        } else {
          while (i < s.size() && (isalnum(s[i]) || strchr("_-+.", s[i]))) n.val += s[i++];
          if (n.val.empty()) return false;
          if (!isalpha(n.val[0])) {
            char* e;
            strtod(n.val.c_str(), &e);
            if (*e) return false;
          }
        }
      }
      out->push_back(std::move(n));
    }
  }
};
using Tree = std::vector<Node>;
Tree ParsePbtxt(const Report& r) {
  Tree t;
  Parser p{r.s};
  if (!p.Parse(&t, false))
    Violation("report", "malformed", "the machine-readable statistics (%zu bytes) do not parse near offset %zu: \"%.40s\"", r.s.size(), p.i,
              r.s.c_str() + (p.i > 20 ? p.i - 20 : 0));
  return t;
}
bool Get(const Tree& t, const char* key, int64_t* v) {
  for (auto& n : t)
    if (!n.sub && n.key == key) {
      *v = n.val == "true" ? 1 : n.val == "false" ? 0 : strtoll(n.val.c_str(), nullptr, 10);
      return true;
    }
  return false;
}
int64_t Must(const Tree& t, const char* key) {
  int64_t v;
  if (!Get(t, key, &v)) Violation("report", "missing", "the machine-readable statistics have no %s", key);
  return v;
}

// ---- text form
struct TextReport {
  std::map<std::string, uint64_t> top;        // "Bytes in use by application" -> value
  std::map<std::string, double> topd;
  std::map<std::string, std::string> param;
  struct Class { uint64_t size, objs, pages, ret, req, per_span; double mib, cum; };
  std::vector<Class> classes;
  long long released[5] = {-1, -1, -1, -1, -1}, hits[4] = {-1, -1, -1, -1};
  long long release_failures = -1, partitions = -1;
  long long hooks[4] = {-1, -1, -1, -1};
  long long prof[4] = {-1, -1, -1, -1};
};
uint64_t Num(const char* p) { return strtoull(p, nullptr, 10); }
TextReport ParseText(const Report& r, bool calm) {
  TextReport t;
  const std::string& s = r.s;
  if (s.compare(0, 4, "See ")) Violation("report", "malformed", "the statistics text starts with \"%.30s\"", s.c_str());
  if (s.back() != '\n') Violation("report", "malformed", "the statistics text of %zu bytes ends in the middle of a line", s.size());
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('\n', i);
    std::string l = s.substr(i, e - i);
    i = e + 1;
    const char* c = l.c_str();
    unsigned long long a, b;
    double m;
    int n = 0;
    if (!strncmp(c, "MALLOC: ", 8)) {
      const char* q = c + 8;
      while (*q == ' ' || *q == '+' || *q == '=') ++q;
      if (!isdigit(*q) && *q != '-') continue;
      char* end;
      double d = strtod(q, &end);
      uint64_t v = strtoull(q, nullptr, 10);
      q = end;
      while (*q == ' ') ++q;
      if (*q == '(') {
        m = strtod(q + 1, &end);
        if (strncmp(end, " MiB)", 5)) Violation("report", "malformed", "the statistics text has the line \"%s\"", c);
        q = end + 5;
        while (*q == ' ') ++q;
        if (strstr(q, "created") == nullptr && fabs(m - v / 1048576.0) > 0.051)
          Violation("report", "unit", "the statistics text says \"%s\"", c);
      }
      t.top[q] = v;
      t.topd[q] = d;
      if (v >> 47) Violation("report", "impossible", "the statistics text says \"%s\"", c);
    } else if (!strncmp(c, "PARAMETER ", 10)) {
      const char* q = strchr(c + 10, ' ');
      if (!q) Violation("report", "malformed", "the statistics text has the line \"%s\"", c);
      t.param.emplace(std::string(c + 10, q - c - 10), q + 1);
    } else if (!strncmp(c, "class ", 6) && strstr(c, "live pages")) {
      TextReport::Class k;
      int id;
      unsigned long long sz, objs, pages, ret, req, ops;
      double mib, cum, prob;
      if (sscanf(c, "class %d [ %llu bytes ] : %llu objs; %lf MiB; %lf cum MiB; %llu live pages; spans: %llu ret / %llu req = %lf; %llu objs/span;", &id,
                 &sz, &objs, &mib, &cum, &pages, &ret, &req, &prob, &ops) != 10)
        Violation("report", "malformed", "the statistics text has the line \"%s\"", c);
      if (id != (int)t.classes.size() + 1) Violation("report", "classes", "size class %d is reported in place of %zu", id, t.classes.size() + 1);
      if (objs >> 40 || pages >> 40 || prob < 0 || !std::isfinite(prob) || ret >> 40 || req >> 40)
        Violation("report", "impossible", "the statistics text says \"%s\"", c);
      if (fabs(mib - (double)objs * sz / 1048576.0) > 0.051) Violation("report", "unit", "the statistics text says \"%s\"", c);
      k = {sz, objs, pages, ret, req, ops, mib, cum};
      if (calm && ret > req) Violation("report", "spans", "more spans were returned than requested: \"%s\"", c);
      t.classes.push_back(k);
    } else if (sscanf(c, "Total number of pages released: %llu (%lf", &a, &m) == 2) t.released[0] = a, n = 1;
    else if (sscanf(c, "Number of pages released by ReleaseMemoryToSystem: %llu (%lf", &a, &m) == 2) t.released[1] = a, n = 1;
    else if (sscanf(c, "Number of pages released by ProcessBackgroundActions: %llu (%lf", &a, &m) == 2) t.released[2] = a, n = 1;
    else if (sscanf(c, "Number of pages released after soft limit hits: %llu (%lf", &a, &m) == 2) t.released[3] = a, n = 1;
    else if (sscanf(c, "Number of pages released after hard limit hits: %llu (%lf", &a, &m) == 2) t.released[4] = a, n = 1;
    else if (sscanf(c, "Number of times soft limit was hit: %llu", &a) == 1) t.hits[0] = a;
    else if (sscanf(c, "Number of times hard limit was hit: %llu", &a) == 1) t.hits[1] = a;
    else if (sscanf(c, "Number of times memory shrank below soft limit: %llu", &a) == 1) t.hits[2] = a;
    else if (sscanf(c, "Number of times memory shrank below hard limit: %llu", &a) == 1) t.hits[3] = a;
    else if (sscanf(c, "Memory Release Failures: %llu", &a) == 1) t.release_failures = a;
    else if (sscanf(c, "MALLOC HOOKS: NEW=%lld DELETE=%lld SAMPLED_NEW=%lld SAMPLED_DELETE=%lld", t.hooks, t.hooks + 1, t.hooks + 2, t.hooks + 3) == 4) {}
    else if (sscanf(c, "MALLOC SAMPLED PROFILES: %lld bytes (current), %lld bytes (internal fragmentation), %lld bytes (peak), %lld count (total)", t.prof,
                    t.prof + 1, t.prof + 2, t.prof + 3) == 4) {}
    else if (!strncmp(c, "Number of active ", 17) && strstr(c, "partitions: ")) t.partitions = atoll(strstr(c, "partitions: ") + 12);
    (void)b;
    if (n && fabs(m - (double)a * kPage / 1048576.0) > 0.051) Violation("report", "unit", "the statistics text says \"%s\"", c);
  }
  if (t.top.size() < 30) Violation("report", "malformed", "the statistics text has a summary of %zu lines", t.top.size());
  return t;
}

const char kUse[] = "Bytes in use by application", kFree[] = "Bytes in page heap freelist", kCentral[] = "Bytes in central cache freelist",
           kCpu[] = "Bytes in per-CPU cache freelist", kShard[] = "Bytes in Sharded cache freelist", kTransfer[] = "Bytes in transfer cache freelist",
           kThread[] = "Bytes in thread cache freelists", kMeta[] = "Bytes in malloc metadata", kUnalloc[] = "Bytes in malloc metadata Arena unallocated",
           kUnavail[] = "Bytes in malloc metadata Arena unavailable", kPhys[] = "Actual memory used (physical + swap)",
           kUnmapped[] = "Bytes released to OS (aka unmapped)", kVirt[] = "Virtual address space used",
           kNonres[] = "malloc metadata Arena non-resident bytes";

uint64_t Line(const TextReport& t, const char* name) {
  auto it = t.top.find(name);
  if (it == t.top.end()) Violation("report", "missing", "the statistics text has no line \"%s\"", name);
  return it->second;
}
void Same(const char* what, uint64_t a, const char* where_a, uint64_t b, const char* where_b) {
  if (a != b) Violation("report", "disagree", "%s: %s says %llu, %s says %llu, with nothing running in between", what, where_a, (unsigned long long)a, where_b,
                        (unsigned long long)b);
}
const char kT[] = "the statistics text", kP[] = "the machine-readable statistics", kQ[] = "the property query";
struct Both { const char *text, *key, *prop; };
const Both kBoth[] = {
    {kUse, "in_use_by_app", "generic.current_allocated_bytes"}, {kUse, "in_use_by_app", "generic.bytes_in_use_by_app"},
    {kFree, "page_heap_freelist", "tcmalloc.pageheap_free_bytes"}, {kFree, "page_heap_freelist", "tcmalloc.page_heap_free"},
    {kCentral, "central_cache_freelist", "tcmalloc.central_cache_free"}, {kCpu, "per_cpu_cache_freelist", "tcmalloc.cpu_free"},
    {kShard, "sharded_transfer_cache_freelist", "tcmalloc.sharded_transfer_cache_free"},
    {kTransfer, "transfer_cache_freelist", "tcmalloc.transfer_cache_free"},
    {kThread, "thread_cache_freelists", "tcmalloc.current_total_thread_cache_bytes"},
    {kThread, "thread_cache_freelists", "tcmalloc.thread_cache_free"},
    {kMeta, "malloc_metadata", "tcmalloc.metadata_bytes"}, {kUnavail, "malloc_metadata_arena_unavailable", nullptr},
    {kUnalloc, "malloc_metadata_arena_unallocated", nullptr}, {kPhys, "actual_mem_used", nullptr},
    {kUnmapped, "unmapped", "tcmalloc.page_heap_unmapped"}, {kVirt, "virtual_address_space_used", nullptr},
    {"Spans in use", "num_spans", nullptr}, {"Spans created", "num_spans_created", nullptr},
    {"Thread heaps in use", "num_thread_heaps", "tcmalloc.thread_cache_count"}, {"Thread heaps created", "num_thread_heaps_created", nullptr},
    {"Stack traces in use", "num_stack_traces", nullptr}, {"Stack traces created", "num_stack_traces_created", nullptr},
    {"Table buckets in use", "num_table_buckets", nullptr}, {"Table buckets created", "num_table_buckets_created", nullptr},
    {"Pagemap bytes used", "pagemap_size", nullptr}, {"Pagemap root resident bytes", "pagemap_root_residence", nullptr},
    {"Pagemap root size", "pagemap_root_size", nullptr}, {"per-CPU slab bytes used", "percpu_slab_size", nullptr},
    {"per-CPU slab resident bytes", "percpu_slab_residence", nullptr},
    {"Actual memory used at peak", "peak_backed", "generic.peak_memory_usage"},
    {"Estimated in-use at peak", "peak_application_demand", nullptr}, {"Tcmalloc page size", "tcmalloc_page_size", nullptr},
    {"Tcmalloc hugepage size", "tcmalloc_huge_page_size", nullptr}, {"CPUs Allowed in Mask", "cpus_allowed", nullptr},
    {"Arena blocks", "arena_blocks", nullptr}, {"Arena freelist blocks", "arena_freelist_blocks", nullptr},
};
const char* const kProps[] = {
    "generic.current_allocated_bytes", "generic.bytes_in_use_by_app", "generic.heap_size", "generic.peak_memory_usage", "generic.realized_fragmentation",
    "tcmalloc.page_heap_free", "tcmalloc.pageheap_free_bytes", "tcmalloc.metadata_bytes", "tcmalloc.thread_cache_count", "tcmalloc.central_cache_free",
    "tcmalloc.transfer_cache_free", "tcmalloc.cpu_free", "tcmalloc.sharded_transfer_cache_free", "tcmalloc.per_cpu_caches_active",
    "tcmalloc.current_total_thread_cache_bytes", "tcmalloc.thread_cache_free", "tcmalloc.local_bytes", "tcmalloc.max_total_thread_cache_bytes",
    "tcmalloc.pageheap_unmapped_bytes", "tcmalloc.page_heap_unmapped", "tcmalloc.sampled_internal_fragmentation", "tcmalloc.slack_bytes",
    "tcmalloc.hard_usage_limit_bytes", "tcmalloc.desired_usage_limit_bytes", "tcmalloc.soft_limit_hits", "tcmalloc.hard_limit_hits",
    "tcmalloc.successful_shrinks_after_soft_limit_hit", "tcmalloc.successful_shrinks_after_hard_limit_hit", "tcmalloc.num_released_total_bytes",
    "tcmalloc.num_released_release_memory_to_system_bytes", "tcmalloc.num_released_process_background_actions_bytes",
    "tcmalloc.num_released_soft_limit_exceeded_bytes", "tcmalloc.num_released_hard_limit_exceeded_bytes", "tcmalloc.security_partitioning_active"};
struct ParamPair { const char *text, *key; };
const ParamPair kParams[] = {
    {"tcmalloc_per_cpu_caches", "tcmalloc_per_cpu_caches"}, {"tcmalloc_max_per_cpu_cache_size", "tcmalloc_max_per_cpu_cache_size"},
    {"tcmalloc_max_total_thread_cache_bytes", "tcmalloc_max_total_thread_cache_bytes"},
    {"malloc_release_bytes_per_sec", "malloc_release_bytes_per_sec"}, {"tcmalloc_release_partial_alloc_pages", "tcmalloc_release_partial_alloc_pages"},
    {"tcmalloc_release_pages_from_huge_region", "tcmalloc_release_pages_from_huge_region"},
    {"tcmalloc_huge_region_adaptive_release", "tcmalloc_huge_region_adaptive_release"},
    {"madvise_cold_regions_nohugepage", "madvise_cold_regions_nohugepage"}, {"tcmalloc_use_wider_slabs", "tcmalloc_use_wider_slabs"},
    {"tcmalloc_resize_size_class_max_capacity", "tcmalloc_resize_size_class_max_capacity"}, {"min_hot_access_hint", "min_hot_access_hint"},
    {"tcmalloc_usermode_hugepage_collapse", "usermode_hugepage_collapse"},
    {"tcmalloc_subrelease_unbacked_hugepages", "subrelease_unbacked_hugepages"}, {"tcmalloc_back_small_allocations", "back_small_allocations"},
    {"tcmalloc_back_size_threshold_bytes", "back_size_threshold_bytes"},
    {"background_process_sleep_interval_ns", "background_process_sleep_interval_ns"},
    {"tcmalloc_enable_unfiltered_collapse", "tcmalloc_enable_unfiltered_collapse"}, {"tcmalloc_release_stale_pages", "tcmalloc_release_stale_pages"},
    {"tcmalloc_release_drained_slab_metadata", "tcmalloc_release_drained_slab_metadata"},
    {"desired_usage_limit_bytes", "desired_usage_limit_bytes"}, {"hard_usage_limit_bytes", "hard_usage_limit_bytes"},
};

bool SameFigures(const Tree& a, const Tree& b, std::string* at) {
  // The same state must give the same report; only rates depend on the clock.
  if (a.size() != b.size()) { *at = "the number of entries"; return false; }
  for (size_t i = 0; i < a.size(); ++i) {
    *at = a[i].key;
    if (a[i].key != b[i].key || a[i].sub != b[i].sub) return false;
    if (a[i].sub) { if (!SameFigures(a[i].kids, b[i].kids, at)) return false; }
  }
  return true;
}

void CheckAgreement(bool last) {
  Quiesce();
  NoSwitch ns;
  os::no_faults = true;
  VerifyAll("at a quiet point");
  Report rt = TakeReport(false, kBig), rp = TakeReport(true, kBig);
  if (!rt.whole || !rp.whole) Violation("report", "needed", "a report needs %zu or %zu bytes", rt.need, rp.need);
  TextReport t = ParseText(rt, true);
  Tree p = ParsePbtxt(rp);
  for (const Both& b : kBoth) {
    uint64_t x = Line(t, b.text), y = Must(p, b.key);
    Same(b.text, x, kT, y, kP);
    if (b.prop) Same(b.prop, x, kT, Prop(b.prop), kQ);
  }
  // sums
  uint64_t caches = Line(t, kCentral) + Line(t, kCpu) + Line(t, kShard) + Line(t, kTransfer) + Line(t, kThread);
  uint64_t sum = Line(t, kUse) + Line(t, kFree) + caches + Line(t, kMeta) + Line(t, kUnalloc) + Line(t, kUnavail);
  if (sum != Line(t, kPhys)) Violation("report", "sum", "the parts add up to %llu, \"%s\" is %llu", (unsigned long long)sum, kPhys, (unsigned long long)Line(t, kPhys));
  if (Line(t, kPhys) + Line(t, kUnmapped) != Line(t, kVirt)) Violation("report", "sum", "used + released is not \"%s\"", kVirt);
  size_t lo, hi;
  Held(&lo, &hi);
  if (Line(t, kUse) < lo || Line(t, kUse) > hi)
    Violation("report", "in-use", "the application holds %zu..%zu bytes, the report says %llu", lo, hi, (unsigned long long)Line(t, kUse));
  uint64_t free = Line(t, kFree), unmapped = Line(t, kUnmapped) - Line(t, kNonres), heap = Line(t, kUse) + caches + free;
  Same("generic.heap_size", heap, kT, Prop("generic.heap_size"), kQ);
  Same("tcmalloc.slack_bytes", free + unmapped, kT, Prop("tcmalloc.slack_bytes"), kQ);
  Same("virtual minus physical memory", Line(t, kVirt) - Line(t, kPhys), kT, Prop("generic.virtual_memory_used") - Prop("generic.physical_memory_used"), kQ);
  // peak
  uint64_t pb = Line(t, "Actual memory used at peak"), pa = Line(t, "Estimated in-use at peak");
  double frag = pa && pb > pa ? 100. * (pb - pa) / pa : 0, got = t.topd["Realized fragmentation (%)"];
  if (fabs(frag - got) > 0.0001 + frag * 1e-9)
    Violation("report", "fragmentation", "the realized fragmentation is given as %g%%, with %llu bytes used and %llu asked for at the peak", got, (unsigned long long)pb,
              (unsigned long long)pa);
  Same("generic.realized_fragmentation", (uint64_t)frag, kT, Prop("generic.realized_fragmentation"), kQ);
  if (pa > pb) SIM_PROBE("estimate_above_peak");
  // the system's view
  int cpus = 0;
  for (int c = 0; c < cfg.ncpu; ++c) cpus += (sc.cpu_allowed >> c) & 1;
  Same("CPUs allowed", Line(t, "CPUs Allowed in Mask"), kT, cpus, "the system");
  Same("page size", Line(t, "Tcmalloc page size"), kT, kPage, "the build");
  size_t acc = Accessible();
  if (cfg.guarded < 0) Same("heap from the system", heap + unmapped, kT, acc, "the system");
  // size classes
  size_t k = 0;
  uint64_t objs = 0, live_pages = 0, overhead = 0;
  double cum = 0;
  for (const Node& n : p) {
    if (!n.sub || n.key != "freelist") continue;
    if (k >= t.classes.size()) Violation("report", "classes", "%s list more size classes than %s", kP, kT);
    auto& c = t.classes[k++];
    Same("size of a size class", c.size, kT, Must(n.kids, "sizeclass"), kP);
    Same("bytes of a size class", c.size * c.objs, kT, Must(n.kids, "bytes"), kP);
    Same("objects per span", c.per_span, kT, Must(n.kids, "objects_per_span"), kP);
    Same("spans requested", c.req, kT, Must(n.kids, "num_spans_requested"), kP);
    Same("spans returned", c.ret, kT, Must(n.kids, "num_spans_returned"), kP);
    Same("object capacity", (c.req - c.ret) * c.per_span, kT, Must(n.kids, "obj_capacity"), kP);
    objs += c.size * c.objs;
    cum += (double)c.size * c.objs / 1048576.0;
    if (fabs(cum - c.cum) > 0.06) Violation("report", "classes", "size class %zu: %f MiB so far, %s says %f", k, cum, kT, c.cum);
    live_pages += c.pages;
    if (c.per_span <= 1) continue;  // these bypass the central free list
    if (c.req > c.ret) overhead += c.size ? (c.pages / (c.req - c.ret) * kPage % c.size) * (c.req - c.ret) : 0;
    if (c.objs > (c.req - c.ret) * c.per_span)
      Violation("report", "classes", "size class %zu: %llu objects of %llu bytes are cached, its %llu spans hold %llu at most", k, (unsigned long long)c.objs,
                (unsigned long long)c.size, (unsigned long long)(c.req - c.ret), (unsigned long long)((c.req - c.ret) * c.per_span));
    // histograms over the live spans
    for (const char* h : {"span_util_histogram", "span_lifetime_histogram"}) {
      int64_t total = 0;
      bool any = false;
      for (const Node& m : n.kids)
        if (m.sub && m.key == h) { any = true; total += Must(m.kids, "value"); }
      if (any && h[5] == 'u' && total != (int64_t)(c.req - c.ret))
        Violation("report", "histogram", "size class %zu has %lld live spans, its %s covers %lld", k, (long long)(c.req - c.ret), h, (long long)total);
      if (any && c.req > c.ret) SIM_PROBE("histogram_checked");
    }
  }
  if (k != t.classes.size()) Violation("report", "classes", "%s list %zu size classes, %s %zu", kP, k, kT, t.classes.size());
  Same("bytes cached in all size classes", objs + overhead, kT, caches, "the summary");
  // page heaps
  int64_t used = 0, fr = 0, un = 0, live_spans = 0, present = 0, returned = 0, rel = 0;
  for (const Node& pa : p) {
    if (!pa.sub || pa.key != "page_allocator") continue;
    for (const Node& n : pa.kids) {
    if (n.sub && n.key == "page_heap") present += Must(n.kids, "present"), returned += Must(n.kids, "released");
    if (!n.sub || n.key != "huge_page_allocator") continue;
    for (const Node& m : n.kids) {
      if (!m.sub) continue;
      for (const char* u : {"filler_usage", "region_usage", "cache_usage", "alloc_usage"})
        if (m.key == u) {
          for (const char* f : {"used", "free", "unmapped"})
            if (Must(m.kids, f) < 0) Violation("report", "impossible", "%s of %s is %lld", f, u, (long long)Must(m.kids, f));
          used += Must(m.kids, "used"), fr += Must(m.kids, "free"), un += Must(m.kids, "unmapped");
        }
      if (m.key == "hpaa_stat") {
        int64_t a = Must(m.kids, "num_spans_allocated"), f = Must(m.kids, "num_spans_freed"), lb = Must(m.kids, "live_bytes");
        if (f > a || lb < 0) Violation("report", "impossible", "a page heap gave out %lld spans of one size, got back %lld and has %lld bytes live", (long long)a, (long long)f, (long long)lb);
        live_spans += lb;
      }
    }
    rel += Must(n.kids, "num_released_total_pages");
    }
  }
  Same("free bytes of the page heaps", fr, kP, free, "the summary");
  Same("unmapped bytes of the page heaps", un, kP, unmapped, "the summary");
  Same("used bytes of the page heaps", used, kP, heap - free, "the summary");
  Same("bytes of live spans", live_spans, kP, heap - free, "the summary");
  Same("free bytes by span size", present, kP, free, "the summary");
  Same("unmapped bytes by span size", returned, kP, unmapped, "the summary");
  if (live_pages * kPage > heap - free) Violation("report", "classes", "size classes hold %llu pages, %llu bytes are handed out", (unsigned long long)live_pages, (unsigned long long)(heap - free));
  // releases, limits
  const char* rk[] = {"num_released_total_pages", "num_released_release_memory_to_system_pages", "num_released_process_background_actions_pages",
                      "num_released_soft_limit_exceeded_pages", "num_released_hard_limit_exceeded_pages"};
  const char* rq[] = {"tcmalloc.num_released_total_bytes", "tcmalloc.num_released_release_memory_to_system_bytes",
                      "tcmalloc.num_released_process_background_actions_bytes", "tcmalloc.num_released_soft_limit_exceeded_bytes",
                      "tcmalloc.num_released_hard_limit_exceeded_bytes"};
  for (int i = 0; i < 5; ++i) {
    Same(rk[i], t.released[i], kT, Must(p, rk[i]), kP);
    Same(rq[i], t.released[i] * kPage, kT, Prop(rq[i]), kQ);
  }
  Same("pages released", rel, "the page heaps", t.released[0], kT);
  Same("pages released", t.released[0], kT, t.released[1] + t.released[2] + t.released[3] + t.released[4], "the sum over the reasons");
  const char* hk[] = {"soft_limit_hits", "hard_limit_hits", "successful_shrinks_after_soft_limit_hit", "successful_shrinks_after_hard_limit_hit"};
  for (int i = 0; i < 4; ++i) {
    Same(hk[i], t.hits[i], kT, Must(p, hk[i]), kP);
    Same(hk[i], t.hits[i], kT, Prop((std::string("tcmalloc.") + hk[i]).c_str()), kQ);
  }
  Same("memory release failures", t.release_failures, kT, Must(p, "memory_release_failures"), kP);
  Same("active partitions", t.partitions, kT, Must(p, "active_partitions"), kP);
  const char* ok[] = {"new_hooks_present", "delete_hooks_present", "sampled_new_hooks_present", "sampled_delete_hooks_present"};
  for (int i = 0; i < 4; ++i) Same(ok[i], t.hooks[i], kT, Must(p, ok[i]), kP);
  for (const Node& n : p)
    if (n.sub && n.key == "sampled_profiles") {
      Same("sampled bytes", t.prof[0], kT, Must(n.kids, "current_bytes"), kP);
      Same("sampled fragmentation", t.prof[1], kT, Must(n.kids, "current_fragmentation_bytes"), kP);
      Same("sampled peak", t.prof[2], kT, Must(n.kids, "peak_bytes"), kP);
      Same("sampled fragmentation", t.prof[1], kT, Prop("tcmalloc.sampled_internal_fragmentation"), kQ);
      if (t.prof[2] < t.prof[0] && t.prof[0] < 0) Violation("report", "impossible", "negative sampled bytes");
    }
  Same("samples", t.prof[3], kT, Must(p, "total_sampled_count"), kP);
  for (const ParamPair& q : kParams) {
    auto it = t.param.find(q.text);
    if (it == t.param.end()) Violation("report", "missing", "%s has no parameter %s", kT, q.text);
    Same(q.text, strtoull(it->second.c_str(), nullptr, 10), kT, Must(p, q.key), kP);
  }
  {
    Api a("parameters");
    Same("per-CPU cache size", strtoull(t.param["tcmalloc_max_per_cpu_cache_size"].c_str(), nullptr, 10), kT, (uint64_t)MallocExtension::GetMaxPerCpuCacheSize(), "the getter");
    Same("thread cache limit", strtoull(t.param["tcmalloc_max_total_thread_cache_bytes"].c_str(), nullptr, 10), kT, (uint64_t)MallocExtension::GetMaxTotalThreadCacheBytes(), "the getter");
    Same("release rate", strtoull(t.param["malloc_release_bytes_per_sec"].c_str(), nullptr, 10), kT, (uint64_t)MallocExtension::GetBackgroundReleaseRate(), "the getter");
    Same("sampling interval", Must(p, "profile_sampling_interval"), kP, (uint64_t)MallocExtension::GetProfileSamplingInterval(), "the getter");
    Same("soft limit", Must(p, "desired_usage_limit_bytes"), kP, (uint64_t)MallocExtension::GetMemoryLimit(MallocExtension::LimitKind::kSoft), "the getter");
    Same("hard limit", Must(p, "hard_usage_limit_bytes"), kP, (uint64_t)MallocExtension::GetMemoryLimit(MallocExtension::LimitKind::kHard), "the getter");
    Same("per-CPU caches", Must(p, "tcmalloc_per_cpu_caches"), kP, MallocExtension::PerCpuCachesActive() || !cfg.percpu ? Must(p, "tcmalloc_per_cpu_caches") : 1, "the getter");
  }
  // All properties at once and one at a time.
  {
    std::map<std::string, size_t> one;
    for (const char* q : kProps) {
      bool ok;
      one[q] = Prop(q, &ok);
      if (!ok) Violation("report", "missing", "there is no property %s", q);
    }
    // these count the allocator's own tables only as far as they are resident
    one["generic.virtual_memory_used"] = Line(t, kVirt);
    one["generic.physical_memory_used"] = Line(t, kPhys);
    one["tcmalloc.required_bytes"] = Line(t, kPhys) - free;
    one["tcmalloc.external_fragmentation_bytes"] = free + caches + Line(t, kMeta) + Line(t, kUnavail) + Line(t, kUnalloc);
    std::map<std::string, size_t> all;
    {
      Api a("GetProperties");
      auto m = MallocExtension::GetProperties();
      for (auto& kv : m) all[kv.first] = kv.second.value;
    }
    for (auto& kv : one) {
      auto it = all.find(kv.first);
      if (it == all.end()) Violation("report", "missing", "there is no property %s among all properties", kv.first.c_str());
      Same(kv.first.c_str(), kv.second, kQ, it->second, "the query for all properties");
    }
  }
  SIM_PROBE("reports_agree");
  if (t.released[0]) SIM_PROBE("agree_after_release");
  if (t.hits[0] || t.hits[1]) SIM_PROBE("agree_after_limit");
  if (t.release_failures) SIM_PROBE("agree_after_failed_release");
  if (Line(t, kNonres)) SIM_PROBE("agree_with_nonresident_metadata");
  // Smaller buffers: the same report, cut off.
  Rng r(sh->steps * 77 + 5);
  {
    bool pb2 = r.Below(2);
    const char* what = pb2 ? kP : kT;
    Report a = TakeReport(pb2, 1 + r.Below(9999)), b = TakeReport(pb2, 9999 - r.Below(100));
    const std::string &s = a.len < b.len ? a.s : b.s, &l = a.len < b.len ? b.s : a.s;
    size_t upto = std::min(s.size(), l.size());
    for (const char* c : {"_per_second", "lifetime", "total_resident", "Total process", "interval"}) {
      size_t q = l.find(c);
      if (q != l.npos) upto = std::min(upto, q);
    }
    if (s.compare(0, upto, l, 0, upto)) Violation("report", "prefix", "%s differ with the buffer size (%zu and %zu bytes)", what, a.len, b.len);
    if (!pb2 && s.size() > l.size()) Violation("report", "prefix", "more of %s fits into %zu bytes than into %zu", what, std::min(a.len, b.len), std::max(a.len, b.len));
    if (!pb2 && a.need != b.need && !a.whole && !b.whole) Violation("report", "needed", "%s need %zu or %zu bytes, depending on the buffer", what, a.need, b.need);
  }
  // The length that was asked for is enough, but for what changes in between.
  if (last) {
    bool pb2 = r.Below(3) == 0;
    size_t len = r.Below(4) == 0 ? 1 + r.Below(9999) : r.Below(2) ? (pb2 ? rp : rt).need - r.Below(3) : 10000 + r.Below((pb2 ? rp : rt).need - 10000);
    Report x = TakeReport(pb2, len);
    if (!x.whole) {
      size_t again = x.need + 1 + 256;
      if (len < 10000 && again >= 10000) again = len;
      if (again > len) {
        Report y = TakeReport(pb2, again);
        if (!y.whole) Violation("report", "needed", "%s asked for %zu bytes with a buffer of %zu, and for %zu with one of %zu", pb2 ? kP : kT, x.need, len, y.need, again);
        if (pb2) ParsePbtxt(y);
        SIM_PROBE("asked_length_is_enough");
      }
    }
  }
  os::no_faults = false;
}

// ---- plug-in
struct Quieter : tcmalloc::AddressRegionFactory {   // a provider that has nothing to report
  tcmalloc::AddressRegionFactory* inner;
  explicit Quieter(tcmalloc::AddressRegionFactory* f) : inner(f) {}
  tcmalloc::AddressRegion* Create(void* start, size_t size, UsageHint hint) override { return inner->Create(start, size, hint); }
};
void Conf(Rng& r) {
  cfg.sampling = 0;
  if (r.Below(2)) cfg.sampling = 1 << (9 + r.Below(12));
  if (cfg.sampling && r.Below(3) == 0) cfg.guarded = 0;
  cfg.phases = 1 + r.Below(3);
  cfg.ops_per_thread = 6 + r.Below(20);
  cfg.size_mode = r.Below(2) ? 2 : r.Below(4);
  own_factory = r.Below(4) == 0;
  sc.max_steps = 400000000;
#ifndef NDEBUG
  cfg.phases = 1;
#endif
  if (r.Below(3) == 0) { cfg.background = true; sc.ns_per_step_num = 20000; }
#ifdef NDEBUG
  if (r.Below(3) == 0) {
    double l = r.Below(2) ? 0.02 : 0.3;
    if (r.Below(2)) fault_rate[F_MADV_DONTNEED] = l;
    if (r.Below(2)) fault_rate[F_MADV_OTHER] = l;
    if (r.Below(3) == 0) fault_rate[F_MMAP] = l;
  }
#endif
}
void Gen(Rng& r) {
  GenerateMix(r, {{O_ALLOC, 16}, {O_FREE, 14}, {O_BURST_ALLOC, 6}, {O_BURST_FREE, 6}, {O_REALLOC, 2}, {O_PINGPONG, 3}, {O_RELEASE, 2},
                  {O_RELEASE_CPU, 1.5}, {O_MIGRATE, 1}, {O_IDLE, 0.7}, {O_PARAM, 1}, {O_LIMIT, 0.7}, {O_CHURN, 1}, {O_UNIT, 1.5}, {O_PROPS, 0.2},
                  {O_SLEEP, cfg.background ? 1.0 : 0.05}});
}
void Start() {
  if (!own_factory) return;
  static Quieter* q;
  Api a("SetRegionFactory");
  q = new (HostAlloc(sizeof(Quieter), 16)) Quieter(MallocExtension::GetRegionFactory());
  MallocExtension::SetRegionFactory(q);
}
bool DoOp(const Op& o) {
  if (o.kind == O_LIMIT) {
    Rng r(o.a[1]);
    size_t f = InstBackingLocked().system + InstBackingLocked().metadata;
    size_t v = r.Below(3) == 0 ? SIZE_MAX : f - f / 8 + r.Below(f / 4 + (32 << 20));
    // a hard limit may end the run: keep it out of reach
    if (o.a[0] & 1) v = cfg.max_live + ((size_t)4 << 30) + v % 1000;
    Api a("SetMemoryLimit");
    MallocExtension::SetMemoryLimit(v, (o.a[0] & 1) ? MallocExtension::LimitKind::kHard : MallocExtension::LimitKind::kSoft);
    return true;
  }
  if (o.kind != O_UNIT) return false;
  Rng r(o.a[1]);
  bool pb = r.Below(2);
  size_t len;
  switch (r.Below(5)) {
    case 0: len = 1 + r.Below(64); break;
    case 1: len = 1 + r.Below(9999); break;
    case 2: len = 9990 + r.Below(20); break;
    case 3: len = 10000 + r.Below(60000); break;
#ifdef NDEBUG
    default: len = kBig; break;
#else
    default: len = r.Below(3) ? 1 + r.Below(9999) : kBig; break;
#endif
  }
  Report rep = TakeReport(pb, len);
  if (rep.whole) {
    SIM_PROBE("report_during_activity");
    if (pb) ParsePbtxt(rep);
    else ParseText(rep, false);
  }
  return true;
}
void Quiet(int ph) { CheckAgreement(ph == cfg.phases - 1); }
const Plugin kC21 = {"C21", Conf, Gen, Start, DoOp, Quiet, nullptr, nullptr};
Reg r21(&kC21);
}  // namespace
}  // namespace world
