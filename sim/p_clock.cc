// C20: decisions taken from clocks: compact timestamps, windowed histories, and the whole allocator on a misbehaving cycle counter.
#include <math.h>
#include <string.h>

#include <deque>

#include "absl/time/time.h"
#include "acct.h"
#include "tcmalloc/internal/parameter_accessors.h"

extern int64_t inst_clock_now;
extern double inst_clock_freq;
int InstSeriesSlots(int k);
void InstSeriesInit(int k, int64_t epoch_ns);
bool InstSeriesReport(int k, uint64_t v);
void InstSeriesBase(int k);
int InstSeriesBack(int k, int64_t ns, uint64_t out[][3]);
int InstSeriesIter(int k, uint64_t out[][3]);
void InstSeriesRecent(int k, uint64_t out[3]);
void InstStampUpdate(int i);
void InstStampReset(int i);
bool InstStampSet(int i);
double InstStampSeconds(int i, int how);
bool InstStampAfter(int i, int j);
int InstStampShift();
void InstMinMaxInit(int64_t w);
void InstMinMaxReport(uint64_t v);
uint64_t InstMinMax(bool big, bool max, int64_t ns);
int InstDemandSlots(int k);
void InstDemandInit(int k, int64_t w, int64_t s, int64_t c);
void InstDemandReport(int k, const uint64_t v[4]);
uint64_t InstDemandPeak(int k, int64_t ns);
uint64_t InstDemandRecent(int k, int64_t s, int64_t l);
uint64_t InstDemandRecent3(int k, int64_t s, int64_t l, int64_t p);
void InstDemandMinFree(int k, int64_t ns, uint64_t out[2]);
uint64_t InstDemandFrag(int k);
void InstDemandSkip(int k, uint64_t pages, uint64_t peak);
void InstDemandSkipped(int k, uint64_t out[6]);

using tcmalloc::MallocExtension;

namespace world {
namespace {
bool unit;

// ------------------------------------------------------------- reference: what happened in which epoch
struct Ev { uint64_t v[4]; };
struct Epoch { uint64_t number, delta; std::vector<Ev> evs; };
struct Ref {
  int64_t epoch_ns = 1;
  uint64_t ticks = 1;
  size_t slots = 16;
  uint64_t last = 0;
  std::deque<Epoch> es;
  uint64_t Number() const { return (uint64_t)inst_clock_now / ticks; }
  void Init(int64_t ns, size_t n) {
    epoch_ns = ns;
    ticks = (uint64_t)(absl::ToDoubleSeconds(absl::Nanoseconds(ns)) * inst_clock_freq);
    slots = n;
    Restart();
  }
  void Restart() { last = Number(); es.assign(1, Epoch{last, 1, {}}); }
  bool Touch() {
    uint64_t e = Number();
    if (e < last) { Restart(); return false; }   // the clock went back: nothing is known any more
    if (e == last) return false;
    es.push_back(Epoch{e, e - last, {}});
    last = e;
    if (es.size() > slots) es.pop_front();
    return true;
  }
  bool Add(const Ev& ev) { bool moved = Touch(); es.back().evs.push_back(ev); return moved; }
  uint64_t Covered() const { uint64_t n = 0; for (auto& e : es) n += e.delta; return n; }
  // Epochs that began less than ceil(interval / epoch) epochs before the latest one; newest first.
  std::vector<const Epoch*> Back(int64_t ns) const {
    std::vector<const Epoch*> v;
    if (ns == 0) return v;
    unsigned __int128 reach = ns < 0 ? (unsigned __int128)Covered() : ((unsigned __int128)ns + epoch_ns - 1) / epoch_ns;
    for (auto it = es.rbegin(); it != es.rend(); ++it) {
      if (last - it->number >= reach) break;
      v.push_back(&*it);
    }
    return v;
  }
};
constexpr int kSeriesKinds = 5, kDemandKinds = 3, kStampKinds = 8;
Ref series[kSeriesKinds], mm16, mm600, demand[kDemandKinds];
int64_t window_ns, summary_ns, cap_ns, mm_window_ns;
uint64_t skip_pages[kDemandKinds], skip_count[kDemandKinds], last_correct[kDemandKinds];
struct Stamp { bool set; uint64_t tick; };
Stamp stamps[kStampKinds];

void StartUnit(Rng& r) {
  static const double fr[] = {1e9, 2.4e9, 1e6, 2.1e9, 1073741824.0, 3.7e9, 24e6, 62.5e6, 4294967296.0, 1 << 20};
  inst_clock_freq = r.Below(4) ? fr[r.Below(10)] : 1e6 + (double)r.Below(5000000000ull);
  static const int64_t st[] = {0, 1, 1000, 1ll << 20, (1ll << 52) - (1ll << 30), (1ll << 52) - 1, (1ll << 52) * 3 - 12345, 1ll << 60, (1ll << 31) << 20};
  inst_clock_now = r.Below(4) ? st[r.Below(9)] : (int64_t)(r.Next() >> (2 + r.Below(40)));
  static const int64_t ep[] = {1000000, 10000000, 125000000, 1000000000, 37500000000, 1048576000, 250000, 60000000000};
  for (int k = 0; k < kSeriesKinds; ++k) {
    int64_t e = r.Below(3) ? ep[r.Below(8)] : 100000 + (int64_t)r.Below(100000000);
    // now and then the epoch is a round number of ticks
    if (r.Below(4) == 0 && inst_clock_freq == 1e9) e = (int64_t)1 << (10 + r.Below(28));
    InstSeriesInit(k, e);
    series[k].Init(e, InstSeriesSlots(k));
  }
  mm_window_ns = 600ll * (r.Below(2) ? 1000000000 : 1000 * (1 + (int64_t)r.Below(1000000))) / (r.Below(2) ? 1 : 5) / 4800 * 4800;
  InstMinMaxInit(mm_window_ns);
  mm16.Init(mm_window_ns / 16, 16);
  mm600.Init(mm_window_ns / 600, 600);
  window_ns = mm_window_ns;
  summary_ns = window_ns / (1 + r.Below(10));
  cap_ns = window_ns / (1 + r.Below(10));
  for (int k = 0; k < kDemandKinds; ++k) {
    int n = InstDemandSlots(k);
    InstDemandInit(k, window_ns, summary_ns, cap_ns);
    demand[k].Init(window_ns / n, n);
    skip_pages[k] = skip_count[k] = last_correct[k] = 0;
  }
  for (auto& s : stamps) s = {};
  for (int i = 0; i < kStampKinds; ++i) InstStampReset(i);
}
int64_t AnyEpochTicks(Rng& r) {
  const Ref* all[] = {&series[0], &series[1], &series[2], &series[3], &series[4], &mm16, &mm600, &demand[0], &demand[1], &demand[2]};
  return all[r.Below(10)]->ticks;
}
void Advance(Rng& r) {
  int64_t before = inst_clock_now, d = 0, e = AnyEpochTicks(r);
  switch (r.Below(14)) {
    case 0: case 1: SIM_PROBE("clock_stands_still"); break;
    case 2: case 3: case 4: d = r.Below(e / 4 + 2); break;
    case 5: case 6: d = e; break;
    case 7: d = e - before % e - r.Below(2); SIM_PROBE("clock_at_epoch_edge"); break;
    case 8: d = e * (1 + r.Below(40)) + (int64_t)r.Below(3) - 1; break;
    case 9: d = e * (100 + r.Below(2000)); SIM_PROBE("clock_stalled_many_epochs"); sh->fault_fired[F_STALL]++; break;
    case 10: d = (int64_t)1 << (20 + r.Below(33)); SIM_PROBE("clock_jumped_forward"); sh->fault_fired[F_CLOCK_JUMP]++; break;
    case 11: d = -(int64_t)r.Below(2 * e + 1); SIM_PROBE("clock_stepped_back"); sh->fault_fired[F_CLOCK_JUMP]++; break;
    case 12: if (r.Below(8) == 0) { d = -(int64_t)(r.Next() % (uint64_t)(before + 1)); SIM_PROBE("clock_jumped_back"); sh->fault_fired[F_CLOCK_JUMP]++; } break;
    default: {  // to just around a wrap of the compact timestamps
      int64_t wrap = 1ll << (32 + InstStampShift());
      d = wrap - before % wrap + (int64_t)r.Below(5 << InstStampShift()) - (3 << InstStampShift());
      if (r.Below(6)) d = r.Below(e + 1);
      else { SIM_PROBE("clock_near_wrap"); sh->fault_fired[F_CLOCK_JUMP]++; }
    }
  }
  if (before + (__int128)d < 0) d = -before;
  if (before + (__int128)d > (1ll << 61)) d = 0;
  inst_clock_now += d;
}
int64_t Interval(Rng& r, const Ref& m, bool infinite_ok) {
  switch (r.Below(7)) {
    case 0: return 0;
    case 1: return infinite_ok ? -1 : m.epoch_ns * 3;
    case 2: return m.epoch_ns * (1 + r.Below(m.slots + 3));
    case 3: return m.epoch_ns * (1 + r.Below(m.slots + 3)) - (int64_t)r.Below(m.epoch_ns);
    case 4: return 1 + r.Below(m.epoch_ns);
    case 5: return m.epoch_ns * (int64_t)(m.slots * (1 + r.Below(100)));
    default: return r.Below(m.epoch_ns * 20);
  }
}

// ------------------------------------------------------------- comparisons
const char* When() {
  static char b[100];
  snprintf(b, sizeof b, "at tick %ld of a %.0f Hz clock", (long)inst_clock_now, inst_clock_freq);
  return b;
}
void CompareSeries(int k, Rng& r) {
  static uint64_t out[700][3];
  Ref& m = series[k];
  int64_t ns = Interval(r, m, true);
  auto want = m.Back(ns);
  int n = InstSeriesBack(k, ns, out);
  auto sum = [](const Epoch& e) { uint64_t s = 0; for (auto& x : e.evs) s += x.v[0]; return s; };
  bool same = n == (int)want.size();
  for (int i = 0; same && i < n; ++i) same = out[i][0] == want[i]->delta && out[i][1] == want[i]->evs.size() && out[i][2] == sum(*want[i]);
  if (!same) {
    int i = 0;
    while (i < n && i < (int)want.size() && out[i][0] == want[i]->delta && out[i][1] == want[i]->evs.size() && out[i][2] == sum(*want[i])) ++i;
    Violation("window", "series", "%s a history of %zu epochs of %ld ns, asked about the last %ld ns, goes wrong at entry %d: %d entries instead of %zu%s", When(), m.slots, (long)m.epoch_ns, (long)ns, i, n,
              want.size(), i < n && i < (int)want.size() ? " (wrong contents)" : "");
  }
  if (want.size() > 1) SIM_PROBE("window_of_several_epochs");
  n = InstSeriesIter(k, out);
  int j = 0;
  for (auto& e : m.es) {
    if (e.evs.empty()) continue;
    if (j >= n || out[j][0] != e.delta || out[j][1] != e.evs.size() || out[j][2] != sum(e)) Violation("window", "iterate", "%s entry %d of a history of %zu epochs is not what was recorded", When(), j, m.slots);
    ++j;
  }
  if (j != n) Violation("window", "iterate", "%s a history of %zu epochs lists %d entries, %d were recorded", When(), m.slots, n, j);
  uint64_t rec[3];
  InstSeriesRecent(k, rec);
  const Epoch* prev = m.es.size() > 1 ? &m.es[m.es.size() - 2] : nullptr;
  if (rec[0] != m.es.back().delta || rec[1] != (prev ? prev->evs.size() : 0) || rec[2] != (prev ? sum(*prev) : 0))
    Violation("window", "recent", "%s the record before the latest is not what was recorded (%lu epochs ago instead of %lu)", When(), (unsigned long)rec[0], (unsigned long)m.es.back().delta);
}
void CompareMinMax(Rng& r) {
  for (bool big : {false, true}) {
    Ref& m = big ? mm600 : mm16;
    int64_t ns = Interval(r, m, false);
    uint64_t lo = ~0ull, hi = 0;
    for (auto* e : m.Back(ns)) for (auto& x : e->evs) { lo = std::min(lo, x.v[0]); hi = std::max(hi, x.v[0]); }
    if (lo == ~0ull) lo = 0;
    uint64_t a = InstMinMax(big, false, ns), b = InstMinMax(big, true, ns);
    if (a != lo || b != hi)
      Violation("window", "extremes", "%s the extremes of the last %ld ns (epochs of %ld ns) are given as %lu..%lu, they were %lu..%lu", When(), (long)ns, (long)m.epoch_ns, (unsigned long)a, (unsigned long)b, (unsigned long)lo, (unsigned long)hi);
  }
  SIM_PROBE("extremes_compared");
}
struct Demands { uint64_t peak = 0, fluct = 0, trend = 0, free = 0, backed = 0; };
Demands Over(const Ref& m, int64_t ns) {
  Demands d;
  uint64_t f = ~0ull, b = ~0ull;
  for (auto* e : m.Back(ns)) {
    if (e->evs.empty()) continue;
    uint64_t lo = ~0ull, hi = 0;
    for (auto& x : e->evs) {
      lo = std::min(lo, x.v[0]); hi = std::max(hi, x.v[0]);
      f = std::min(f, x.v[1] + x.v[2]); b = std::min(b, x.v[1]);
    }
    d.peak = std::max(d.peak, hi); d.fluct = std::max(d.fluct, hi - lo); d.trend = std::max(d.trend, lo);
  }
  d.free = f == ~0ull ? 0 : f; d.backed = b == ~0ull ? 0 : b;
  return d;
}
void CompareDemand(int k, Rng& r) {
  Ref& m = demand[k];
  auto bad = [&](const char* what, int64_t ns, uint64_t got, uint64_t want) {
    Violation("window", what, "%s the %s over the last %ld ns (epochs of %ld ns) is given as %lu pages, it was %lu", When(), what, (long)ns, (long)m.epoch_ns, (unsigned long)got, (unsigned long)want);
  };
  int64_t a = Interval(r, m, false), b = Interval(r, m, false), c = Interval(r, m, false);
  uint64_t got = InstDemandPeak(k, a), want = Over(m, std::min(a, window_ns)).peak;
  if (got != want) bad("demand peak", a, got, want);
  int64_t s = a, l = b;
  if (s && l) s = std::min(s, l);
  s = std::min(s, window_ns); l = std::min(l, window_ns);
  uint64_t trend = Over(m, s).fluct + Over(m, l).trend;
  got = InstDemandRecent(k, a, b); want = std::min(trend, Over(m, cap_ns).peak);
  if (got != want) bad("recent demand", a, got, want);
  got = InstDemandRecent3(k, a, b, c); want = std::min(trend, Over(m, c).peak);
  if (got != want) bad("capped demand", c, got, want);
  uint64_t mf[2];
  InstDemandMinFree(k, a, mf);
  Demands d = Over(m, a);
  if (mf[0] != d.free) bad("least free", a, mf[0], d.free);
  if (mf[1] != d.backed) bad("least backed free", a, mf[1], d.backed);
  got = InstDemandFrag(k); want = Over(m, summary_ns).backed;
  if (got != want) bad("realized fragmentation", summary_ns, got, want);
  uint64_t sk[6];
  InstDemandSkipped(k, sk);
  if (sk[0] != skip_pages[k] || sk[1] != skip_count[k]) Violation("window", "skipped", "%s %lu skipped releases (%lu pages) were reported, %lu (%lu) are counted", When(), (unsigned long)skip_count[k], (unsigned long)skip_pages[k], (unsigned long)sk[1], (unsigned long)sk[0]);
  if (sk[3] + sk[5] > sk[1] || sk[2] + sk[4] > sk[0] || sk[3] < last_correct[k])
    Violation("window", "skipped", "%s of %lu skipped releases %lu count as right and %lu as pending (%lu were right before)", When(), (unsigned long)sk[1], (unsigned long)sk[3], (unsigned long)sk[5], (unsigned long)last_correct[k]);
  last_correct[k] = sk[3];
  SIM_PROBE("demand_compared");
}
void CompareStamp(Rng& r) {
  int i = r.Below(kStampKinds), j = r.Below(kStampKinds), shift = InstStampShift();
  Stamp& s = stamps[i];
  if (InstStampSet(i) != s.set) Violation("timestamp", "set", "%s a timestamp %s", When(), s.set ? "that was recorded counts as unset" : "that was never recorded counts as set");
  double got = InstStampSeconds(i, r.Below(2));
  if (!s.set) {
    if (got != HUGE_VAL) Violation("timestamp", "unset", "%s the time since an unset timestamp is given as %g s", When(), got);
    return;
  }
  uint64_t now = (uint64_t)inst_clock_now >> shift;
  constexpr uint64_t kRange = 1ull << 32;
  if (now >= s.tick && now - s.tick < kRange - 2) {
    // a tick count that means "unset" may be off by one
    bool odd = (uint32_t)now == 0 || (uint32_t)s.tick == 0;
    double tick = (double)(1ll << shift) / inst_clock_freq, want = (double)(now - s.tick) * tick;
    if (fabs(got - want) > want * 1e-9 + 1e-8 + (odd ? tick * 1.001 : 0))
      Violation("timestamp", "elapsed", "%s the time since tick %lu (compact %u, now %u) is given as %.9g s, it is %.9g s", When(), (unsigned long)s.tick << shift, (unsigned)s.tick, (unsigned)now, got, want);
    SIM_PROBE((now >> 32) != (s.tick >> 32) ? "elapsed_across_a_wrap" : "elapsed_compared");
  }
  if (stamps[j].set) {
    int64_t d = (int64_t)(s.tick - stamps[j].tick);
    bool odd = (uint32_t)s.tick == 0 || (uint32_t)stamps[j].tick == 0;
    if (llabs(d) < (1ll << 31) - 2 && !(odd && llabs(d) <= 1) && InstStampAfter(i, j) != (d >= 0))
      Violation("timestamp", "order", "%s timestamp %lu is %s %lu", When(), (unsigned long)s.tick, d >= 0 ? "not at or after" : "at or after", (unsigned long)stamps[j].tick);
  }
}
void UnitOp(const Op& o) {
  Rng r(o.a[0]);
  NoSwitch ns;   // these live under a lock
  int n = 5 + r.Below(120);
  for (int i = 0; i < n; ++i) {
    sh->allocs++;
    if (r.Below(2)) Advance(r);
    switch (r.Below(8)) {
      case 0: case 1: {
        int k = r.Below(kSeriesKinds);
        Ev e = {{r.Below(1000000)}};
        bool moved = InstSeriesReport(k, e.v[0]);
        if (moved != series[k].Add(e)) Violation("window", "moved", "%s a report %s a new epoch", When(), moved ? "claims to have begun" : "does not tell that it began");
        break;
      }
      case 2: { int k = r.Below(kSeriesKinds); InstSeriesBase(k); series[k].Touch(); break; }
      case 3: { Ev e = {{r.Below(1000)}}; InstMinMaxReport(e.v[0]); mm16.Add(e); mm600.Add(e); break; }
      case 4: case 5: {
        int k = r.Below(kDemandKinds);
        Ev e = {{r.Below(5000), r.Below(500), r.Below(500), r.Below(3) ? 0 : r.Below(50)}};
        InstDemandReport(k, e.v);
        demand[k].Add(e);
        break;
      }
      case 6: {
        int k = r.Below(kDemandKinds), p = r.Below(100);
        if (r.Below(2)) { InstDemandSkip(k, p, r.Below(5000)); if (p) { skip_pages[k] += p; skip_count[k]++; } }
        break;
      }
      default: {
        int s = r.Below(kStampKinds);
        if (r.Below(8) == 0) { InstStampReset(s); stamps[s].set = false; }
        else { InstStampUpdate(s); stamps[s] = {true, (uint64_t)inst_clock_now >> InstStampShift()}; }
      }
    }
    if (r.Below(2)) {
      switch (r.Below(4)) {
        case 0: CompareSeries(r.Below(kSeriesKinds), r); break;
        case 1: CompareMinMax(r); break;
        case 2: CompareDemand(r.Below(kDemandKinds), r); break;
        default: CompareStamp(r);
      }
    }
  }
}

// ------------------------------------------------------------- the whole allocator
int64_t short_ns, long_ns;
void JumpOp(const Op& o) {
  Rng r(o.a[0]);
  int64_t d;
  switch (r.Below(5)) {
    case 0: d = (int64_t)1 << (10 + r.Below(30)); break;
    case 1: d = (int64_t)1 << (40 + r.Below(14)); break;
    case 2: d = -((int64_t)1 << (10 + r.Below(30))); break;
    case 3: d = -((int64_t)1 << (40 + r.Below(14))); break;
    default: d = (int64_t)(r.Below(40) * 1000000000ull); break;
  }
  NoSwitch ns;
  JumpCycles(d);
  sh->fault_fired[F_CLOCK_JUMP]++;
  Log("the cycle counter jumps by %ld", (long)d);
  SIM_PROBE(d > 0 ? "cycles_jumped_forward" : "cycles_jumped_back");
}
void ConfSystem(Rng& r) {
  cfg.phases = 2 + r.Below(2);
  cfg.ops_per_thread = 10 + r.Below(40);
  cfg.max_live = (64 + r.Below(300)) << 20;
  cfg.sampling = r.Below(4) == 0 ? 1 << (12 + r.Below(8)) : 0;
  if (r.Below(2)) { cfg.background = true; sc.ns_per_step_num = 20000; }
  cfg.regions = false;
  short_ns = r.Below(3) ? (int64_t)(1 + r.Below(120)) * 1000000000 : 0;
  long_ns = r.Below(3) ? (int64_t)(1 + r.Below(600)) * 1000000000 : 0;
}
// Memory a past peak kept from being released is released once the peak is forgotten.
void EndSystem() {
  VerifyAll("at the end");
  sc.cpu_allowed = ~0ull;
  sc.ns_per_step_num = 1;
  {
    Api a("settings");
    TCMalloc_Internal_SetHPAASubrelease(true);
    if (TCMalloc_Internal_SetMadvise) TCMalloc_Internal_SetMadvise(tcmalloc::tcmalloc_internal::MadvisePreference::kDontNeed);
    MallocExtension::SetBackgroundProcessActionsEnabled(true);
    MallocExtension::SetSkipSubreleaseShortInterval(absl::Nanoseconds(short_ns));
    MallocExtension::SetSkipSubreleaseLongInterval(absl::Nanoseconds(long_ns));
  }
  FreeEverything();
  NoSwitch ns;
  Figures f = Take();
  CheckFigures(f, "at the end");
  os::no_faults = true;
  // a peak, then a little
  std::vector<uintptr_t> keep, drop;
  for (int i = 0; i < 600; ++i) {
    AllocSpec s;
    s.size = 40 << 10;
    s.fill = false;
    Blk* b = Alloc(s);
    if (!b) break;
    (i % 40 ? drop : keep).push_back(b->p);
  }
  for (uintptr_t p : drop) FreeBlk(p, 0);
  AdvanceNs(2000000000);
  { Api a("ReleaseCpuMemory"); for (int c = 0; c < cfg.ncpu; ++c) MallocExtension::ReleaseCpuMemory(c); MallocExtension::MarkThreadIdle(); for (int i = 0; i < 6; ++i) InstPlunder(); }
  size_t before = InstFree();
  // longer than any history
  AdvanceNs(1300ll * 1000000000);
  { Api a("rate"); MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)((size_t)1 << 36)); }
  cur->no_switch--;
  StartBackground();
  int64_t iv = absl::ToInt64Nanoseconds(MallocExtension::GetBackgroundProcessSleepInterval());
  for (int i = 0; i < 8; ++i) SleepNs(iv);
  StopBackground();
  cur->no_switch++;
  size_t after = InstFree();
  if (before > (size_t)8 << 20) SIM_PROBE("peak_to_forget");
  if (after > (size_t)4 << 20)
    Violation("window", "not-forgotten", "%zu bytes were free after a peak; 1300 s and 8 maintenance periods later %zu are still held back (short interval %ld s, long interval %ld s)", before, after,
              (long)(short_ns / 1000000000), (long)(long_ns / 1000000000));
  FreeEverything();
}

void Conf(Rng& r) {
  unit = r.Below(3) != 0;
  if (unit) { cfg.ops_per_thread = 4 + r.Below(12); return; }
  ConfSystem(r);
}
void Gen(Rng& r) {
  if (unit) {
    GenerateMix(r, {{O_UNIT, 1}});
    for (int i = 0; i < sh->n_ops; ++i) for (auto& x : sh->ops[i].a) x = (uint64_t)x >> 1;
    return;
  }
  GenerateMix(r, {{O_ALLOC, 20}, {O_FREE, 14}, {O_BURST_ALLOC, 8}, {O_BURST_FREE, 6}, {O_REALLOC, 2}, {O_PINGPONG, 3}, {O_RELEASE, 2}, {O_RELEASE_CPU, 1},
                  {O_MIGRATE, 1}, {O_PARAM, 1}, {O_JUMP, 6}, {O_STATS, 0.3}, {O_SLEEP, cfg.background ? 3.0 : 0.2}});
}
void Start() {
  if (unit) { Rng r(sh->seed * 31 + 5); StartUnit(r); }
}
bool DoOp(const Op& o) {
  if (o.kind == O_UNIT) { UnitOp(o); return true; }
  if (o.kind == O_JUMP) { JumpOp(o); return true; }
  return false;
}
void Quiet(int phase) {
  if (!unit) BaseQuiet(phase);
}
void End() {
  if (!unit) EndSystem();
}
const Plugin kC20 = {"C20", Conf, Gen, Start, DoOp, Quiet, End, nullptr};
Reg r20(&kC20);
}  // namespace
}  // namespace world
