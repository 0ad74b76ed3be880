#ifndef VERIF_SHIM_STATUS_MACROS_H_
#define VERIF_SHIM_STATUS_MACROS_H_
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#define VERIF_CAT_(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT_(a, b)
#define VERIF_AOR_(s, lhs, e) \
  auto s = (e);               \
  if (!s.ok()) return s.status(); \
  lhs = std::move(s).value()
#define ABSL_ASSIGN_OR_RETURN(lhs, e) \
  VERIF_AOR_(VERIF_CAT(verif_st_, __LINE__), lhs, e)
#define ABSL_RETURN_IF_ERROR(e)          \
  do {                                   \
    auto verif_s_ = (e);                 \
    if (!verif_s_.ok()) return verif_s_; \
  } while (0)
#endif
