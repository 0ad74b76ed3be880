// Stand-in for absl's SpinLock with the newer interface (lock/unlock/try_lock,
// holder from a reference).  With VERIF_SIM every acquisition and release is a
// call into the simulator, which owns blocking and wake-up order.
#ifndef VERIF_SHIM_SPINLOCK_H_
#define VERIF_SHIM_SPINLOCK_H_
#include <sched.h>
#include <atomic>
#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/internal/low_level_scheduling.h"
#include "absl/base/internal/raw_logging.h"
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/internal/tsan_mutex_interface.h"
#include "absl/base/macros.h"
#include "absl/base/optimization.h"
#include "absl/base/thread_annotations.h"
#ifdef VERIF_SIM
extern "C" {
void sim_lock(volatile void* l);
bool sim_trylock(volatile void* l);
void sim_unlock(volatile void* l);
bool sim_lock_held(const volatile void* l);
}
#endif
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
class ABSL_LOCKABLE SpinLock {
 public:
  constexpr SpinLock() : w_(1) {}
  constexpr explicit SpinLock(SchedulingMode m)
      : w_(m == SCHEDULE_COOPERATIVE_AND_KERNEL ? 1 : 0) {}
  constexpr SpinLock(absl::ConstInitType, SchedulingMode m) : SpinLock(m) {}
  SpinLock(const SpinLock&) = delete;
  SpinLock& operator=(const SpinLock&) = delete;
#ifdef VERIF_SIM
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { sim_lock(this); }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    return sim_trylock(this);
  }
  void unlock() ABSL_UNLOCK_FUNCTION() { sim_unlock(this); }
  bool IsHeld() const { return sim_lock_held(this); }
#else
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    while (!try_lock()) sched_yield();
  }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    unsigned e = w_.load(std::memory_order_relaxed) & 1u;
    return w_.compare_exchange_strong(e, e | 2u, std::memory_order_acquire,
                                      std::memory_order_relaxed);
  }
  void unlock() ABSL_UNLOCK_FUNCTION() {
    w_.store(w_.load(std::memory_order_relaxed) & 1u,
             std::memory_order_release);
  }
  bool IsHeld() const { return (w_.load(std::memory_order_relaxed) & ~1u) != 0; }
#endif
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { unlock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return try_lock(); }
  void AssertHeld() const {}
  bool IsCooperative() const { return w_.load(std::memory_order_relaxed) & 1; }

  // Bit 0: cooperative.  Other bits: 0 free, else held (owner id + 1 under
  // simulation).
  std::atomic<unsigned> w_;
};
class ABSL_SCOPED_LOCKABLE ABSL_MUST_USE_RESULT SpinLockHolder {
 public:
  explicit SpinLockHolder(SpinLock& l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l)
      : l_(&l) {
    l.lock();
  }
  explicit SpinLockHolder(SpinLock* l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l)
      : l_(l) {
    l->lock();
  }
  ~SpinLockHolder() ABSL_UNLOCK_FUNCTION() { l_->unlock(); }
  SpinLockHolder(const SpinLockHolder&) = delete;
  SpinLockHolder& operator=(const SpinLockHolder&) = delete;

 private:
  SpinLock* l_;
};
}  // namespace base_internal
ABSL_NAMESPACE_END
}  // namespace absl
#endif
