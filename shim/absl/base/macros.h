#ifndef VERIF_SHIM_MACROS_H_
#define VERIF_SHIM_MACROS_H_
#include_next "absl/base/macros.h"
#include "absl/base/attributes.h"
#endif
