// Stand-in for absl::Mutex: an exclusive lock with the newer holder interface.
#ifndef VERIF_SHIM_MUTEX_H_
#define VERIF_SHIM_MUTEX_H_
#include "absl/base/const_init.h"
#include "absl/base/internal/spinlock.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
#include "absl/time/clock.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class ABSL_LOCKABLE Mutex {
 public:
  constexpr Mutex() = default;
  constexpr explicit Mutex(absl::ConstInitType) {}
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { l_.lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { l_.unlock(); }
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { l_.lock(); }
  void unlock() ABSL_UNLOCK_FUNCTION() { l_.unlock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return l_.try_lock(); }
  void AssertHeld() const {}

 private:
  base_internal::SpinLock l_;
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m.lock(); }
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m->lock(); }
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->unlock(); }
  MutexLock(const MutexLock&) = delete;

 private:
  Mutex* m_;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
