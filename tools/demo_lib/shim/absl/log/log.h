#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_
#include <iostream>
namespace verif_shim {
struct NullLog {
  template <typename T>
  NullLog& operator<<(const T&) { return *this; }
};
}  // namespace verif_shim
#define LOG(x) ::verif_shim::NullLog()
#define PLOG(x) ::verif_shim::NullLog()
#endif
