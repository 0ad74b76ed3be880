// Empties the shared cache tiers on demand through the allocator's own plunder functions.
#include "tcmalloc/static_vars.h"
#include "tcmalloc/transfer_cache.h"
#include "tcmalloc/page_allocator.h"
#include "tcmalloc/parameters.h"

using tcmalloc::tcmalloc_internal::tc_globals;
void InstPlunder() {
  tc_globals.sharded_transfer_cache().Plunder();
#ifndef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
  tc_globals.transfer_cache().TryPlunder();
#endif
}

struct InstBackingStats { size_t system, free, unmapped, metadata; bool subrelease; size_t by_bg, released; };
InstBackingStats InstBacking() ABSL_NO_THREAD_SAFETY_ANALYSIS {
  auto s = tc_globals.page_allocator().stats();
  auto r = tc_globals.page_allocator().GetReleaseStats();
  return {s.system_bytes, s.free_bytes, s.unmapped_bytes, tc_globals.metadata_bytes(),
          tcmalloc::tcmalloc_internal::Parameters::hpaa_subrelease(),
          r.process_background_actions.in_bytes(), r.total.in_bytes()};
}
InstBackingStats InstBackingLocked() {
  tcmalloc::tcmalloc_internal::PageHeapSpinLockHolder l;
  return InstBacking();
}
long InstCpuUsed(int cpu) {
  if (!tc_globals.CpuCacheActive() || !tc_globals.cpu_cache().HasPopulated(cpu)) return -1;
  return tc_globals.cpu_cache().UsedBytes(cpu);
}
bool InstOddRelease() {
  using tcmalloc::tcmalloc_internal::Parameters;
  return Parameters::release_pages_from_huge_region() || Parameters::release_stale_pages() == tcmalloc::tcmalloc_internal::ReleaseStalePages::kEnabled || Parameters::release_max_cold_pages();
}
bool InstPageHeapLocked() ABSL_NO_THREAD_SAFETY_ANALYSIS { return tcmalloc::tcmalloc_internal::pageheap_lock.IsHeld(); }
size_t InstFree() ABSL_NO_THREAD_SAFETY_ANALYSIS { return tc_globals.page_allocator().stats().free_bytes; }
