// Simulated operating system: address space, files, failures.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>

#include "sim.h"

#ifndef MADV_COLLAPSE
#define MADV_COLLAPSE 25
#endif
#ifndef MADV_DONTNEED_LOCKED
#define MADV_DONTNEED_LOCKED 24
#endif
#ifndef MADV_POPULATE_READ
#define MADV_POPULATE_READ 22
#define MADV_POPULATE_WRITE 23
#endif
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif

extern "C" int64_t sim_countdown;
extern "C" void sim_slow_yield();
extern "C" void sim_sys_point();
static inline void Tick(int w) {
  sim_sys_point();
  if (__builtin_expect((sim_countdown -= w) <= 0, 0)) sim_slow_yield();
}

namespace sim {
namespace os {
static std::map<uintptr_t, Mapping>* maps;  // by start
Stats st;
bool (*LiveOverlap)(uintptr_t, size_t, char*, size_t);
void (*OnRelease)(uintptr_t, size_t, bool);
void (*OnProtect)(uintptr_t, size_t, int);
void (*OnMap)(uintptr_t, size_t, bool);
int64_t mmap_budget = -1, reserve_budget = -1;
bool deny_mmap, deny_mprotect, deny_madvise, deny_munmap;
int kernel;
bool probe_refused;
bool (*Exempt)(uintptr_t);
bool no_faults;
uint64_t refusals, refusals_by[kMaxFibers + 1];
static void Refused() { refusals++; refusals_by[cur ? cur->id : kMaxFibers]++; }
bool thp_region_ops = true;
static uintptr_t kernel_next = 0x7d0000000000ull;
struct File { std::string content; };
static std::map<std::string, std::string>* files;
struct Fd { const std::string* content; size_t pos; bool used; };
static Fd fds[64];
constexpr uintptr_t kUserTop = 0x7e0000000000ull;

void Reset() {
  maps = new std::map<uintptr_t, Mapping>;
  files = new std::map<std::string, std::string>;
  kernel_next = 0x7d0000000000ull - rng_misc.Below(1 << 20) * 4096;
}
void AddFile(const std::string& p, const std::string& c) { (*files)[p] = c; }

const Mapping* Find(uintptr_t p) {
  auto it = maps->upper_bound(p);
  if (it == maps->begin()) return nullptr;
  --it;
  return p < it->second.end ? &it->second : nullptr;
}
bool Managed(const volatile void* p) {
  const Mapping* m = Find((uintptr_t)p);
  return m && !m->foreign;
}
const std::vector<Mapping> AllMappings() {
  std::vector<Mapping> v;
  for (auto& kv : *maps) v.push_back(kv.second);
  return v;
}
static bool Free(uintptr_t s, uintptr_t e) {
  auto it = maps->lower_bound(s);
  if (it != maps->end() && it->second.start < e) return false;
  if (it != maps->begin()) { --it; if (it->second.end > s) return false; }
  return true;
}
// Splits mappings so that s and e are boundaries.
static void SplitAt(uintptr_t x) {
  auto it = maps->upper_bound(x);
  if (it == maps->begin()) return;
  --it;
  if (it->second.start < x && x < it->second.end) {
    Mapping b = it->second;
    b.start = x;
    it->second.end = x;
    (*maps)[x] = b;
  }
}
// Is [s,e) fully mapped by non-foreign mappings?
static bool Covered(uintptr_t s, uintptr_t e, bool* foreign) {
  *foreign = false;
  uintptr_t p = s;
  while (p < e) {
    const Mapping* m = Find(p);
    if (!m) return false;
    if (m->foreign) *foreign = true;
    p = m->end;
  }
  return true;
}
static bool AnyForeign(uintptr_t s, uintptr_t e) {
  for (auto it = maps->begin(); it != maps->end(); ++it)
    if (it->second.foreign && it->second.start < e && s < it->second.end) return true;
  return false;
}
void AddForeign(uintptr_t start, size_t len) {
  if (!Free(start, start + len)) return;
  if (mmap((void*)start, len, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)start)
    return;
  (*maps)[start] = Mapping{start, start + len, PROT_READ | PROT_WRITE, -1, true};
}
bool RangeUsable(uintptr_t p, size_t n) {
  uintptr_t e = p + n;
  while (p < e) {
    const Mapping* m = Find(p);
    if (!m || (m->prot & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE)) return false;
    p = m->end;
  }
  return true;
}
int mincore_real(void* p, size_t n, unsigned char* v) { return mincore(p, n, v); }
uint64_t BackedBytes(uintptr_t lo, uintptr_t hi) {
  uint64_t tot = 0;
  static unsigned char vec[1 << 16];
  for (auto& kv : *maps) {
    if (kv.second.foreign) continue;
    uintptr_t s = std::max(lo, kv.second.start), e = std::min(hi, kv.second.end);
    if (kv.second.prot == PROT_NONE) continue;
    for (; s < e; s += (uintptr_t)sizeof(vec) * 4096) {
      size_t n = std::min<size_t>(e - s, sizeof(vec) * 4096ull);
      if (mincore((void*)s, n, vec) != 0) continue;
      for (size_t i = 0; i < (n + 4095) / 4096; ++i) tot += (vec[i] & 1) * 4096;
    }
  }
  return tot;
}
static uintptr_t KernelPick(size_t len) {
  // top-down, page aligned only
  for (int i = 0; i < 1000; ++i) {
    kernel_next -= len + (rng_misc.Below(64) * 4096);
    kernel_next &= ~4095ull;
    if (Free(kernel_next, kernel_next + len)) return kernel_next;
  }
  return 0;
}
static void CheckLive(uintptr_t p, size_t n, const char* op) {
  char why[300];
  if (LiveOverlap && LiveOverlap(p, n, why, sizeof why))
    Violation("live-memory", op, "%s(%#lx, %#lx) hits live memory: %s", op, p, n, why);
}
}  // namespace os
}  // namespace sim
using namespace sim;
using namespace sim::os;

extern "C" {
void* sim_mmap(void* hint, size_t len, int prot, int flags, int fd, off_t off) {
  Tick(8); NoSwitch ns_;
  uintptr_t h = (uintptr_t)hint;
  len = (len + 4095) & ~4095ull;
  if (!(flags & MAP_ANONYMOUS)) { errno = EACCES; return MAP_FAILED; }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  st.mmaps++;
  bool ex = Exempt && Exempt(h);
  bool fail = (deny_mmap && !ex) || len > (1ull << 40);  // the machine has that much
  if (!ex && FaultPoint(F_MMAP)) fail = true;
  if (!ex && reserve_budget >= 0) {
    if ((int64_t)len > reserve_budget) fail = true;
    else if (!fail) reserve_budget -= len;
  }
  if (fail && kernel && (flags & MAP_FIXED_NOREPLACE) && !Free(h, h + len)) probe_refused = true;
  if (fail) { HashMix(1); Refused(); Log("mmap(%#lx, %#lx) refused", h, len); errno = ENOMEM; return MAP_FAILED; }
  uintptr_t at = 0;
  if (kernel == 1) flags &= ~MAP_FIXED_NOREPLACE;  // unknown flags are ignored
  if (kernel == 2 && (flags & MAP_FIXED_NOREPLACE) && Free(h, h + 4096) && !Free(h, h + len)) flags |= MAP_FIXED;  // Linux 4.17 and 4.18
  if (flags & MAP_FIXED) {
    if (h & 4095) { errno = EINVAL; return MAP_FAILED; }
    bool f;
    bool cov = Covered(h, h + len, &f);
    if (f || AnyForeign(h, h + len))
      Violation("os-misuse", "mmap-fixed-foreign", "MAP_FIXED over a mapping the allocator does not own (%#lx, %#lx)%s", h, len, probe_refused ? kProbeRefused : "");
    if (!cov && !Free(h, h + len)) {
      // partially mapped: still all ours
    }
    CheckLive(h, len, "mmap(MAP_FIXED)");
    SplitAt(h); SplitAt(h + len);
    for (auto it = maps->lower_bound(h); it != maps->end() && it->second.start < h + len;) it = maps->erase(it);
    if (mmap((void*)h, len, prot, (flags & ~MAP_FIXED_NOREPLACE) | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED)
      Internal("real mmap fixed failed");
    (*maps)[h] = Mapping{h, h + len, prot, -1, false};
    return (void*)h;
  }
  int hf = h ? FaultPoint(F_MMAP_HINT, 3) : 0;
  if (hf) Refused();
  if (hf == 2) {  // somebody maps a page in the way just before us
    uintptr_t o = h + (rng_misc.Below(len / 4096)) * 4096;
    AddForeign(o, 4096);
  }
  if (h && !(h & 4095) && hf == 0 && Free(h, h + len) && h + len < kUserTop && h >= (5ull << 32)) at = h;   // below lies the simulator
  else if (h && (flags & MAP_FIXED_NOREPLACE)) {
    errno = EEXIST; return MAP_FAILED;
  } else if (hf == 3 && Free(h + 4096, h + 4096 + len) && h + 4096 + len < kUserTop) {
    at = h + 4096;  // close to the hint but not it
  } else {
    at = KernelPick(len);
  }
  if (!at) { errno = ENOMEM; return MAP_FAILED; }
  void* r = mmap((void*)at, len, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void*)at) {
    // the host itself occupies that address: behave like an ignored hint
    at = KernelPick(len);
    r = mmap((void*)at, len, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (void*)at) Internal("real mmap failed at %#lx len %#lx errno %d", at, len, errno);
  }
  (*maps)[at] = Mapping{at, at + len, prot, -1, false};
  st.mapped_bytes += len;
  HashMix(at ^ len);
  Log("mmap(%#lx, %#lx) -> %#lx", h, len, at);
  if (OnMap) OnMap(at, len, true);
  return r;
}

int sim_munmap(void* p, size_t len) {
  Tick(8); NoSwitch ns_;
  uintptr_t h = (uintptr_t)p;
  st.munmaps++;
  if (h & 4095) Violation("os-misuse", "munmap-unaligned", "munmap(%#lx, %#lx) misaligned", h, len);
  len = (len + 4095) & ~4095ull;
  if (!len) { errno = EINVAL; return -1; }
  bool f;
  bool cov = Covered(h, h + len, &f);
  if (f || AnyForeign(h, h + len))
    Violation("os-misuse", "munmap-foreign", "munmap(%#lx, %#lx) covers memory the allocator does not own", h, len);
  if (!cov) Violation("os-misuse", "munmap-unowned", "munmap(%#lx, %#lx) covers memory the allocator has not mapped", h, len);
  CheckLive(h, len, "munmap");
  if (deny_munmap || FaultPoint(F_MUNMAP)) { errno = ENOMEM; return -1; }
  SplitAt(h); SplitAt(h + len);
  for (auto it = maps->lower_bound(h); it != maps->end() && it->second.start < h + len;) it = maps->erase(it);
  if (munmap(p, len) != 0) Internal("real munmap failed");
  st.mapped_bytes -= len;
  HashMix(h ^ (len << 1));
  Log("munmap(%#lx, %#lx)", h, len);
  if (OnMap) OnMap(h, len, false);
  return 0;
}

int sim_mprotect(void* p, size_t len, int prot) {
  if (os::OnProtect) os::OnProtect((uintptr_t)p, len, prot);
  Tick(8); NoSwitch ns_;
  uintptr_t h = (uintptr_t)p;
  st.mprotects++;
  if (h & 4095) Violation("os-misuse", "mprotect-unaligned", "mprotect(%#lx, %#lx) misaligned", h, len);
  len = (len + 4095) & ~4095ull;
  bool f;
  bool cov = Covered(h, h + len, &f);
  if (f) Violation("os-misuse", "mprotect-foreign", "mprotect(%#lx, %#lx) covers memory the allocator does not own", h, len);
  if (!cov) Violation("os-misuse", "mprotect-unowned", "mprotect(%#lx, %#lx) covers memory the allocator has not mapped", h, len);
  if ((prot & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE)) CheckLive(h, len, "mprotect");
  else {
    // bytes becoming accessible
    size_t grow = 0;
    for (uintptr_t q = h; q < h + len;) {
      const Mapping* m = Find(q);
      uintptr_t e = std::min(m->end, h + len);
      if (m->prot == PROT_NONE) grow += e - q;
      q = e;
    }
    bool ex = Exempt && Exempt(h);
    bool fail = (deny_mprotect && !ex) || (!ex && FaultPoint(F_MPROTECT));
    if (!ex && mmap_budget >= 0) {
      if ((int64_t)grow > mmap_budget) fail = true;
      else if (!fail) mmap_budget -= grow;
    }
    if (fail) { Refused(); Log("mprotect(%#lx, %#lx) refused", h, len); errno = ENOMEM; return -1; }
  }
  SplitAt(h); SplitAt(h + len);
  for (auto it = maps->lower_bound(h); it != maps->end() && it->second.start < h + len; ++it) it->second.prot = prot;
  if (mprotect(p, len, prot) != 0) Internal("real mprotect failed %d", errno);
  HashMix(h ^ (len << 2) ^ prot);
  Log("mprotect(%#lx, %#lx, %d)", h, len, prot);
  return 0;
}

int sim_madvise(void* p, size_t len, int advice) {
  Tick(8); NoSwitch ns_;
  uintptr_t h = (uintptr_t)p;
  st.madvises++;
  if (h & 4095) Violation("os-misuse", "madvise-unaligned", "madvise(%#lx, %#lx, %d) misaligned", h, len, advice);
  len = (len + 4095) & ~4095ull;
  if (len == 0) return 0;
  bool f;
  bool cov = Covered(h, h + len, &f);
  if (f) Violation("os-misuse", "madvise-foreign", "madvise(%#lx, %#lx, %d) covers memory the allocator does not own", h, len, advice);
  if (!cov) Violation("os-misuse", "madvise-unowned", "madvise(%#lx, %#lx, %d) covers memory the allocator has not mapped", h, len, advice);
  HashMix(h ^ (len << 3) ^ advice);
  bool destructive = advice == MADV_DONTNEED || advice == MADV_FREE || advice == MADV_REMOVE || advice == MADV_DONTNEED_LOCKED;
  Log("madvise(%#lx, %#lx, %d)", h, len, advice);
  if (destructive) {
    CheckLive(h, len, "madvise");
    if (advice == MADV_REMOVE) { errno = EINVAL; return -1; }  // anonymous memory
    int c = FaultPoint(F_MADV_DONTNEED, 3);
    if (deny_madvise) c = 1;
    if (c) {
      if (OnRelease) OnRelease(h, len, false);
      errno = c == 1 ? EINVAL : c == 2 ? EAGAIN : ENOMEM;
      // EAGAIN is retried by the allocator, it must not be permanent
      if (deny_madvise) errno = EINVAL;
      return -1;
    }
    if (advice == MADV_FREE && !FaultPoint(F_MADV_FREE_DROP)) {
      if (OnRelease) OnRelease(h, len, true);
      return 0;  // kernel may free lazily: contents stay for now
    }
    if (madvise(p, len, MADV_DONTNEED) != 0) Internal("real madvise failed %d", errno);
    st.released_bytes += len;
    if (OnRelease) OnRelease(h, len, true);
    return 0;
  }
  int c = FaultPoint(F_MADV_OTHER, 3);
  if (advice == MADV_HUGEPAGE || advice == MADV_NOHUGEPAGE || advice == MADV_COLLAPSE) {
    int t = FaultPoint(F_THP, 3);
    if (t) c = t;
  }
  if (c) { errno = c == 1 ? EINVAL : c == 2 ? ENOMEM : EAGAIN; if (advice != MADV_COLLAPSE && c == 3) errno = EINVAL; return -1; }
  if (advice == MADV_POPULATE_READ || advice == MADV_POPULATE_WRITE || advice == (MADV_POPULATE_READ | MADV_POPULATE_WRITE)) {
    return 0;
  }
  return 0;
}
int sim_munlock(const void* p, size_t len) { Tick(3); return 0; }
int sim_mincore(void* p, size_t len, unsigned char* v) {
  Tick(4); NoSwitch ns_;
  int c = FaultPoint(F_MINCORE, 2);
  if (c) { errno = c == 1 ? EAGAIN : ENOMEM; return -1; }
  bool f;
  if (((uintptr_t)p & 4095) != 0) { errno = EINVAL; return -1; }
  return mincore(p, len, v);
}
int sim_prctl(int op, ...) {
  Tick(3); NoSwitch ns_;
  if (op == 0x53564d41) {  // PR_SET_VMA
    va_list ap;
    va_start(ap, op);
    unsigned long what = va_arg(ap, unsigned long), at = va_arg(ap, unsigned long), len = va_arg(ap, unsigned long);
    va_end(ap);
    bool f;
    if (what == 0 && (!Covered(at, at + len, &f) || f))
      Violation("os-misuse", "prctl-unowned", "a range the allocator does not own (%#lx, %#lx) is named", at, len);
  }
  if (FaultPoint(F_PRCTL)) { errno = EINVAL; return -1; }
  if (op == PR_GET_THP_DISABLE) return 0;
  return 0;
}
long sim_os_mbind(unsigned long a, unsigned long len, unsigned long mode, const unsigned long* mask, unsigned long maxnode, unsigned flags) {
  NoSwitch ns_;
  if (FaultPoint(F_MBIND)) { errno = EINVAL; return -1; }
  bool f;
  if (!Covered(a, a + len, &f) || f) Violation("os-misuse", "mbind-unowned", "mbind(%#lx, %#lx)", a, len);
  SplitAt(a); SplitAt(a + len);
  for (auto it = maps->lower_bound(a); it != maps->end() && it->second.start < a + len; ++it)
    it->second.node = __builtin_ctzl(*mask);
  return 0;
}

int sim_open(const char* path, int flags, ...) {
  Tick(4); NoSwitch ns_;
  int c = FaultPoint(F_READ_EINTR);
  if (c) { errno = EINTR; return -1; }
  auto it = files->find(path);
  if (it == files->end()) { errno = ENOENT; Log("open(%s) ENOENT", path); return -1; }
  if (FaultPoint(F_OPEN)) { errno = ENOENT; return -1; }
  for (int i = 0; i < 64; ++i)
    if (!fds[i].used) { fds[i] = Fd{&it->second, 0, true}; return 1000 + i; }
  errno = EMFILE;
  return -1;
}
int sim_open_2(const char* path, int flags) { return sim_open(path, flags); }
int sim_open64(const char* path, int flags, ...) { return sim_open(path, flags); }
int sim_open64_2(const char* path, int flags) { return sim_open(path, flags); }
ssize_t sim_read(int fd, void* b, size_t n) {
  Tick(4); NoSwitch ns_;
  if (fd < 1000 || !fds[fd - 1000].used) { errno = EBADF; return -1; }
  if (FaultPoint(F_READ_EINTR)) { errno = EINTR; return -1; }
  Fd& f = fds[fd - 1000];
  size_t avail = f.pos < f.content->size() ? f.content->size() - f.pos : 0;
  size_t k = std::min(avail, n);
  if (k > 1 && FaultPoint(F_READ_SHORT)) k = 1 + rng_misc.Below(k - 1);
  memcpy(b, f.content->data() + f.pos, k);
  f.pos += k;
  return k;
}
off_t sim_lseek(int fd, off_t o, int wh) {
  Tick(3); NoSwitch ns_;
  if (fd < 1000 || !fds[fd - 1000].used) { errno = EBADF; return -1; }
  if (wh == SEEK_SET) fds[fd - 1000].pos = o;
  else if (wh == SEEK_CUR) fds[fd - 1000].pos += o;
  return fds[fd - 1000].pos;
}
off_t sim_lseek64(int fd, off_t o, int wh) { return sim_lseek(fd, o, wh); }
void* sim_mmap64(void* hint, size_t len, int prot, int flags, int fd, off_t off) {
  return sim_mmap(hint, len, prot, flags, fd, off);
}
int sim_close(int fd) {
  Tick(3); NoSwitch ns_;
  if (fd < 1000 || !fds[fd - 1000].used) {
    Violation("os-misuse", "close-bad-fd", "close of a descriptor (%d) that is not open", fd);
  }
  fds[fd - 1000].used = false;
  return 0;
}
ssize_t sim_readlink(const char*, char*, size_t) { errno = EINVAL; return -1; }
int sim_poll(struct pollfd* p, nfds_t n, int) { Tick(3); for (nfds_t i = 0; i < n; ++i) p[i].revents = POLLIN; return n; }
ssize_t sim_process_vm_readv(pid_t, const struct iovec* l, unsigned long ln, const struct iovec* r, unsigned long rn, unsigned long fl) {
  Tick(4); NoSwitch ns_;
  return process_vm_readv(getpid(), l, ln, r, rn, fl);
}
}  // extern "C"
