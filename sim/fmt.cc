// The formatting stand-in, compiled without instrumentation: a formatted number is not a scheduling point.
#define VERIF_FMT_IMPL 1
#include "absl/strings/str_format.h"
