// Stand-in for absl/base/call_once.h.  With VERIF_SIM the waiters are parked in
// the simulator instead of on a futex.
#ifndef VERIF_SHIM_CALL_ONCE_H_
#define VERIF_SHIM_CALL_ONCE_H_
#ifndef VERIF_SIM
#include_next "absl/base/call_once.h"
#else
#include <atomic>
#include <functional>
#include <utility>
#include "absl/base/config.h"
#include "absl/base/internal/raw_logging.h"
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/macros.h"
#include "absl/base/optimization.h"
extern "C" {
bool sim_once_enter(volatile unsigned* flag);  // true: caller runs the body
void sim_once_done(volatile unsigned* flag);
}
namespace absl {
ABSL_NAMESPACE_BEGIN
class once_flag {
 public:
  constexpr once_flag() : control_(0) {}
  once_flag(const once_flag&) = delete;
  once_flag& operator=(const once_flag&) = delete;
  mutable volatile unsigned control_;
};
namespace base_internal {
template <typename C, typename... A>
void LowLevelCallOnce(absl::once_flag* f, C&& c, A&&... a) {
  if (sim_once_enter(&f->control_)) {
    std::invoke(std::forward<C>(c), std::forward<A>(a)...);
    sim_once_done(&f->control_);
  }
}
}  // namespace base_internal
template <typename C, typename... A>
void call_once(absl::once_flag& f, C&& c, A&&... a) {
  base_internal::LowLevelCallOnce(&f, std::forward<C>(c),
                                  std::forward<A>(a)...);
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
#endif
