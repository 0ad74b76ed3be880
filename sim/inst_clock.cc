// Compact timestamps and windowed histories in small shapes, on a clock the harness sets.
#include <stddef.h>
#include <stdint.h>

#include <new>

#include "absl/time/time.h"
#include "tcmalloc/huge_cache.h"
#include "tcmalloc/huge_page_subrelease.h"
#include "tcmalloc/internal/clock.h"
#include "tcmalloc/internal/timeseries_tracker.h"

namespace tt = tcmalloc::tcmalloc_internal;
int64_t inst_clock_now;
double inst_clock_freq = 1e9;
namespace {
const tt::Clock kClock = {[]() { return inst_clock_now; }, []() { return inst_clock_freq; }};
absl::Duration Ns(int64_t n) { return n < 0 ? absl::InfiniteDuration() : absl::Nanoseconds(n); }

// ------------------------------------------------------------- compact timestamps
constexpr int kStamps = 8;
tt::Cycles32 stamps[kStamps];

// ------------------------------------------------------------- series
struct Payload {
  uint64_t n = 0, sum = 0;
  static Payload Nil() { return Payload(); }
  void Report(uint64_t v) { n++; sum += v; }
  bool empty() const { return n == 0; }
};
struct Series {
  void (*init)(int64_t epoch_ns);
  bool (*report)(uint64_t v);
  void (*base)();
  int (*back)(int64_t ns, uint64_t out[][3]);
  int (*iter)(uint64_t out[][3]);
  void (*recent)(uint64_t out[3]);
  int slots;
};
template <size_t kSlots>
struct SeriesOf {
  using T = tt::TimeSeriesTracker<Payload, uint64_t, kSlots>;
  alignas(T) static inline char buf[sizeof(T)];
  static T& t() { return *reinterpret_cast<T*>(buf); }
  static void Init(int64_t ns) { new (buf) T(kClock, absl::Nanoseconds(ns)); }
  static bool Report(uint64_t v) { return t().Report(v); }
  static void Base() { t().UpdateTimeBase(); }
  static int Back(int64_t ns, uint64_t out[][3]) {
    int n = 0;
    t().IterBackwards([&](size_t seq, size_t delta, const Payload& p) {
      out[n][0] = delta; out[n][1] = p.n; out[n][2] = p.sum;
      ++n;
    }, Ns(ns));
    return n;
  }
  static int Iter(uint64_t out[][3]) {
    int n = 0;
    t().Iter([&](size_t seq, size_t delta, const Payload& p) {
      out[n][0] = delta; out[n][1] = p.n; out[n][2] = p.sum;
      ++n;
    });
    return n;
  }
  static void Recent(uint64_t out[3]) {
    auto r = t().GetMostRecentRecord();
    out[0] = r.epoch_taken; out[1] = r.data.n; out[2] = r.data.sum;
  }
  static constexpr Series Get() { return {Init, Report, Base, Back, Iter, Recent, kSlots}; }
};
const Series kSeries[] = {SeriesOf<2>::Get(), SeriesOf<3>::Get(), SeriesOf<8>::Get(), SeriesOf<16>::Get(), SeriesOf<60>::Get()};

// ------------------------------------------------------------- extremes
alignas(tt::MinMaxTracker<16>) char mm16[sizeof(tt::MinMaxTracker<16>)];
alignas(tt::MinMaxTracker<600>) char mm600[sizeof(tt::MinMaxTracker<600>)];
tt::MinMaxTracker<16>& M16() { return *reinterpret_cast<tt::MinMaxTracker<16>*>(mm16); }
tt::MinMaxTracker<600>& M600() { return *reinterpret_cast<tt::MinMaxTracker<600>*>(mm600); }

// ------------------------------------------------------------- demand
struct Demand {
  void (*init)(int64_t w, int64_t summary, int64_t cap);
  void (*report)(const uint64_t v[4]);
  uint64_t (*peak)(int64_t ns);
  uint64_t (*recent)(int64_t s, int64_t l);
  uint64_t (*recent3)(int64_t s, int64_t l, int64_t p);
  void (*min_free)(int64_t ns, uint64_t out[2]);
  uint64_t (*frag)();
  void (*skip)(uint64_t pages, uint64_t peak);
  void (*skipped)(uint64_t out[6]);
  int slots;
};
template <size_t kSlots>
struct DemandOf {
  using T = tt::SubreleaseStatsTracker<kSlots>;
  alignas(T) static inline char buf[sizeof(T)];
  static T& t() { return *reinterpret_cast<T*>(buf); }
  static void Init(int64_t w, int64_t s, int64_t c) { new (buf) T(kClock, absl::Nanoseconds(w), absl::Nanoseconds(s), absl::Nanoseconds(c)); }
  static void Report(const uint64_t v[4]) {
    typename T::SubreleaseStats s;
    s.num_pages = tt::Length(v[0]);
    s.free_pages = tt::Length(v[1]);
    s.unmapped_pages = tt::Length(v[2]);
    s.num_pages_subreleased = tt::Length(v[3]);
    t().Report(s);
  }
  static uint64_t Peak(int64_t ns) { return t().GetRecentPeak(Ns(ns)).raw_num(); }
  static uint64_t Recent(int64_t s, int64_t l) { return t().GetRecentDemand(Ns(s), Ns(l)).raw_num(); }
  static uint64_t Recent3(int64_t s, int64_t l, int64_t p) { return t().GetRecentDemand(Ns(s), Ns(l), Ns(p)).raw_num(); }
  static void MinFree(int64_t ns, uint64_t out[2]) { auto m = t().min_free_pages(Ns(ns)); out[0] = m.free.raw_num(); out[1] = m.free_backed.raw_num(); }
  static uint64_t Frag() { return t().RealizedFragmentation().raw_num(); }
  static void Skip(uint64_t pages, uint64_t peak) { t().ReportSkippedSubreleasePages(tt::Length(pages), tt::Length(peak)); }
  static void Skipped(uint64_t out[6]) {
    auto a = t().total_skipped(), b = t().correctly_skipped(), c = t().pending_skipped();
    out[0] = a.pages.raw_num(); out[1] = a.count; out[2] = b.pages.raw_num(); out[3] = b.count; out[4] = c.pages.raw_num(); out[5] = c.count;
  }
  static constexpr Demand Get() { return {Init, Report, Peak, Recent, Recent3, MinFree, Frag, Skip, Skipped, kSlots}; }
};
const Demand kDemand[] = {DemandOf<4>::Get(), DemandOf<16>::Get(), DemandOf<600>::Get()};
}  // namespace

int InstSeriesSlots(int k) { return k < 5 ? kSeries[k].slots : 0; }
void InstSeriesInit(int k, int64_t epoch_ns) { kSeries[k].init(epoch_ns); }
bool InstSeriesReport(int k, uint64_t v) { return kSeries[k].report(v); }
void InstSeriesBase(int k) { kSeries[k].base(); }
int InstSeriesBack(int k, int64_t ns, uint64_t out[][3]) { return kSeries[k].back(ns, out); }
int InstSeriesIter(int k, uint64_t out[][3]) { return kSeries[k].iter(out); }
void InstSeriesRecent(int k, uint64_t out[3]) { kSeries[k].recent(out); }

void InstStampUpdate(int i) { stamps[i].Update(kClock); }
void InstStampReset(int i) { stamps[i].Reset(); }
bool InstStampSet(int i) { return (bool)stamps[i]; }
double InstStampSeconds(int i, int how) {
  return absl::ToDoubleSeconds(how ? stamps[i].AsDuration(kClock) : stamps[i].AsDuration(kClock.GetSnapshot()));
}
bool InstStampAfter(int i, int j) { return stamps[i].TimeAfterOrEqual(stamps[j]); }
int InstStampShift() { return tt::Cycles32::kShift; }

void InstMinMaxInit(int64_t w) { new (mm16) tt::MinMaxTracker<16>(kClock, absl::Nanoseconds(w)); new (mm600) tt::MinMaxTracker<600>(kClock, absl::Nanoseconds(w)); }
void InstMinMaxReport(uint64_t v) { M16().Report(tt::NHugePages(v)); M600().Report(tt::NHugePages(v)); }
uint64_t InstMinMax(bool big, bool max, int64_t ns) {
  if (big) return (max ? M600().MaxOverTime(Ns(ns)) : M600().MinOverTime(Ns(ns))).raw_num();
  return (max ? M16().MaxOverTime(Ns(ns)) : M16().MinOverTime(Ns(ns))).raw_num();
}

int InstDemandSlots(int k) { return k < 3 ? kDemand[k].slots : 0; }
void InstDemandInit(int k, int64_t w, int64_t s, int64_t c) { kDemand[k].init(w, s, c); }
void InstDemandReport(int k, const uint64_t v[4]) { kDemand[k].report(v); }
uint64_t InstDemandPeak(int k, int64_t ns) { return kDemand[k].peak(ns); }
uint64_t InstDemandRecent(int k, int64_t s, int64_t l) { return kDemand[k].recent(s, l); }
uint64_t InstDemandRecent3(int k, int64_t s, int64_t l, int64_t p) { return kDemand[k].recent3(s, l, p); }
void InstDemandMinFree(int k, int64_t ns, uint64_t out[2]) { kDemand[k].min_free(ns, out); }
uint64_t InstDemandFrag(int k) { return kDemand[k].frag(); }
void InstDemandSkip(int k, uint64_t pages, uint64_t peak) { kDemand[k].skip(pages, peak); }
void InstDemandSkipped(int k, uint64_t out[6]) { kDemand[k].skipped(out); }
