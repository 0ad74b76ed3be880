#ifndef VERIF_SHIM_NO_DESTRUCTOR_H_
#define VERIF_SHIM_NO_DESTRUCTOR_H_
#include <new>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
  explicit constexpr NoDestructor(A&&... a) {
    new (&space_) T(std::forward<A>(a)...);
  }
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(&space_); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  const T* get() const { return reinterpret_cast<const T*>(&space_); }

 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
}  // namespace absl
#endif
