#ifndef VERIF_SHIM_OPTIMIZATION_H_
#define VERIF_SHIM_OPTIMIZATION_H_
#include_next "absl/base/optimization.h"
#ifndef ABSL_UNREACHABLE
#define ABSL_UNREACHABLE() __builtin_unreachable()
#endif
#endif
