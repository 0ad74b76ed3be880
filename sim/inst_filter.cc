// The stack-trace filters of the guarded sampler, in small shapes, driven by simulated threads.
#include <stddef.h>
#include <stdint.h>

#include "absl/types/span.h"
#include "tcmalloc/internal/stacktrace_filter.h"

namespace tt = tcmalloc::tcmalloc_internal;
namespace {
void* frames[64][3];
absl::Span<void* const> Stack(int s) {
  size_t n = 1 + s % 3;
  for (size_t i = 0; i < n; ++i) frames[s][i] = (void*)(0x400000 + s * 64 + i * 8);
  return {frames[s], n};
}
struct Ops {
  void (*add)(int s, int v);
  bool (*has)(int s);
  void (*decay)();
  void (*decay_all)();
  bool (*plain)(const int* count, int n, int s);   // what a filter holding just these counts says
  int ring;
};
template <class F, size_t kSize, size_t kHash, int kRing>
struct Of {
  static inline F f{};
  static void Add(int s, int v) { f.Add(Stack(s), v); }
  static bool Has(int s) { return f.Contains(Stack(s)); }
  static void Decay() { if constexpr (kRing > 0) f.Decay(); }
  static void DecayAll() { if constexpr (kRing > 0) f.DecayAll(); }
  static bool PlainHas(const int* count, int n, int s) {
    tt::StackTraceFilter<kSize, kHash> g;
    for (int i = 0; i < n; ++i)
      if (count[i]) g.Add(Stack(i), count[i]);
    return g.Contains(Stack(s));
  }
  static constexpr Ops Get() { return {Add, Has, Decay, DecayAll, PlainHas, kRing}; }
};
template <size_t kSize, size_t kHash, size_t kRing>
using Shape = Of<tt::DecayingStackTraceFilter<kSize, kHash, kRing>, kSize, kHash, kRing>;
template <size_t kSize, size_t kHash>
using Plain = Of<tt::StackTraceFilter<kSize, kHash>, kSize, kHash, 0>;
const Ops kOps[] = {Shape<8, 2, 2>::Get(), Shape<16, 3, 1>::Get(), Shape<4, 1, 3>::Get(), Shape<64, 2, 4>::Get(), Shape<1536, 2, 32>::Get(),
                    Plain<8, 2>::Get(), Plain<4, 1>::Get(), Plain<256, 2>::Get()};
}  // namespace
int InstFilterShapes() { return sizeof(kOps) / sizeof(kOps[0]); }
void InstFilterAdd(int k, int s, int v) { kOps[k].add(s, v); }
bool InstFilterHas(int k, int s) { return kOps[k].has(s); }
void InstFilterDecay(int k) { kOps[k].decay(); }
void InstFilterDecayAll(int k) { kOps[k].decay_all(); }
bool InstFilterPlain(int k, const int* count, int n, int s) { return kOps[k].plain(count, n, s); }
int InstFilterRing(int k) { return kOps[k].ring; }
