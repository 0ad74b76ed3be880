#ifndef VERIF_SHIM_RAO_H_
#define VERIF_SHIM_RAO_H_
#include <string>
#include <utility>
namespace absl {
template <typename Str, typename Op>
void StringResizeAndOverwrite(Str& s, typename Str::size_type n, Op op) {
  s.resize(n);
  auto r = std::move(op)(&s[0], n);
  s.erase(static_cast<typename Str::size_type>(r));
}
}  // namespace absl
#endif
