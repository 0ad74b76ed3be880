// With VERIF_SIM the cycle counter is simulated time at 1 GHz.
#ifndef VERIF_SHIM_CYCLECLOCK_H_
#define VERIF_SHIM_CYCLECLOCK_H_
#ifndef VERIF_SIM
#include_next "absl/base/internal/cycleclock.h"
#else
#include <cstdint>
#include "absl/base/attributes.h"
#include "absl/base/config.h"
#include "absl/base/internal/unscaledcycleclock.h"
extern "C" int64_t sim_cycles();
extern "C" double sim_cycle_freq();
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
using CycleClockSourceFunc = int64_t (*)();
class CycleClock {
 public:
  static int64_t Now() { return sim_cycles(); }
  static double Frequency() { return sim_cycle_freq(); }
};
}  // namespace base_internal
ABSL_NAMESPACE_END
}  // namespace absl
#endif
#endif
