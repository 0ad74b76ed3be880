// With VERIF_SIM the wall clock and sleeping belong to the simulator.
#ifndef VERIF_SHIM_CLOCK_H_
#define VERIF_SHIM_CLOCK_H_
#ifndef VERIF_SIM
#include_next "absl/time/clock.h"
#else
#include "absl/base/macros.h"
#include "absl/time/time.h"
extern "C" int64_t sim_realtime_ns();
extern "C" void sim_sleep_ns(int64_t);
namespace absl {
ABSL_NAMESPACE_BEGIN
static inline int64_t GetCurrentTimeNanos() { return sim_realtime_ns(); }
static inline absl::Time Now() { return absl::FromUnixNanos(sim_realtime_ns()); }
static inline void SleepFor(absl::Duration d) {
  sim_sleep_ns(absl::ToInt64Nanoseconds(d));
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
#endif
