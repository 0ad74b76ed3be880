// Reported figures and what they must add up to.
#ifndef VERIF_ACCT_H_
#define VERIF_ACCT_H_
#include <sys/mman.h>

#include "world.h"

namespace world {
#ifdef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
constexpr size_t kPage = 4096;
#elif defined(TCMALLOC_INTERNAL_256K_PAGES)
constexpr size_t kPage = 262144;
#elif defined(TCMALLOC_INTERNAL_32K_PAGES)
constexpr size_t kPage = 32768;
#else
constexpr size_t kPage = 8192;
#endif
inline size_t PageUp(size_t n) { return (n + kPage - 1) / kPage * kPage; }

struct Figures {
  size_t in_use, heap, free, unmapped, central, transfer, cpu, sharded, thread, metadata, virt, phys, required, external, local, slack;
  size_t system() const { return heap + (slack - free); }
  size_t cached() const { return central + transfer + cpu + sharded + thread; }
};
inline Figures Take() {
  Figures f;
  f.in_use = Prop("generic.current_allocated_bytes");
  f.heap = Prop("generic.heap_size");
  f.free = Prop("tcmalloc.pageheap_free_bytes");
  f.unmapped = Prop("tcmalloc.pageheap_unmapped_bytes");
  f.central = Prop("tcmalloc.central_cache_free");
  f.transfer = Prop("tcmalloc.transfer_cache_free");
  f.cpu = Prop("tcmalloc.cpu_free");
  f.sharded = Prop("tcmalloc.sharded_transfer_cache_free");
  f.thread = Prop("tcmalloc.current_total_thread_cache_bytes");
  f.metadata = Prop("tcmalloc.metadata_bytes");
  f.virt = Prop("generic.virtual_memory_used");
  f.phys = Prop("generic.physical_memory_used");
  f.required = Prop("tcmalloc.required_bytes");
  f.external = Prop("tcmalloc.external_fragmentation_bytes");
  f.local = Prop("tcmalloc.local_bytes");
  f.slack = Prop("tcmalloc.slack_bytes");
  return f;
}
inline std::string Text(const Figures& f) {
  char b[500];
  snprintf(b, sizeof b,
           "in use %zu, heap %zu, page heap free %zu, unmapped %zu, slack %zu, central %zu, transfer %zu, cpu %zu, sharded %zu, thread %zu, "
           "metadata %zu", f.in_use, f.heap, f.free, f.unmapped, f.slack, f.central, f.transfer, f.cpu, f.sharded, f.thread, f.metadata);
  return b;
}
// What the application holds, as the page heap and the size classes must see it.
inline void Held(size_t* lo, size_t* hi) {
  *lo = *hi = 0;
  for (auto& kv : live) {
    const Blk& b = kv.second;
    if (b.aux2) *hi += PageUp(b.cap) + PageUp(b.req) + kPage;  // sampled: own pages (0 if guarded)
    else *lo += b.cap, *hi += b.cap;
  }
}
// Bytes of application heap address space the OS model currently keeps accessible.
inline size_t Accessible() {
  size_t n = 0;
  for (auto& m : os::AllMappings())
    if (!m.foreign && (m.prot & PROT_WRITE) && Tag(m.start) != 3 && m.start < 0x7c0000000000ull) n += m.end - m.start;
  return n;
}
void CheckFigures(const Figures& f, const char* when);
}  // namespace world
void InstPlunder();
struct InstBackingStats { size_t system, free, unmapped, metadata; bool subrelease; size_t by_bg, released; };
InstBackingStats InstBacking();   // no locks taken: only when the caller holds them or nothing runs
InstBackingStats InstBackingLocked();
bool InstPageHeapLocked();         // by any thread
size_t InstFree();                 // page heap free bytes; safe anywhere
long InstCpuUsed(int cpu);        // bytes held by the CPU's cache, -1 if it has none
bool InstOddRelease();            // settings under which more than the rate may be given back
#endif
