From 4455ad8a5704449daeebd66b0687950a7a57971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 01/26] fix: do not keep a page-level block in place when
 realloc's new size has a size class

realloc() compared only the rounded sizes, so an over-aligned block that
occupies a page-level span was kept in place when the span happened to be as
large as the size class of the new size.  A following sized delete of the new
size then treated the span as an object of that size class.
---
 tcmalloc/tcmalloc.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index eb9c496..5b2cf2a 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1448,6 +1448,7 @@ using tcmalloc::tcmalloc_internal::GetPageSize;
 using tcmalloc::tcmalloc_internal::GetSizeAndSampled;
 using tcmalloc::tcmalloc_internal::kMaxSize;
 using tcmalloc::tcmalloc_internal::MultiplyOverflow;
+using tcmalloc::tcmalloc_internal::PageIdContainingTagged;
 
 // depends on TCMALLOC_HAVE_STRUCT_MALLINFO, so needs to come after that.
 #ifndef TCMALLOC_INTERNAL_METHODS_ONLY
@@ -1599,7 +1600,12 @@ static inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* do_realloc(void* old_ptr,
     } else {
       actual_new_size = BytesToLengthCeil(new_size).in_bytes();
     }
-    changes_correct_size = actual_new_size != old_size;
+    // An over-aligned allocation can occupy a page-level span whose size equals
+    // that of a size class.  A sized delete of <new_size> would then use the
+    // wrong size class, so we cannot keep it in place.
+    const bool was_small =
+        tc_globals.pagemap().sizeclass(PageIdContainingTagged(old_ptr)) != 0;
+    changes_correct_size = actual_new_size != old_size || is_small != was_small;
   }
 
   if (changes_correct_size || was_sampled || will_sample ||
-- 
2.43.0


From 68d1fd72c1fffe0ff575e6c31eeca57b28944cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 02/26] fix: report over-aligned page allocations as failures
 instead of crashing

---
 tcmalloc/huge_page_aware_allocator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/huge_page_aware_allocator.h b/tcmalloc/huge_page_aware_allocator.h
index 3954ac8..ce1b97a 100644
--- a/tcmalloc/huge_page_aware_allocator.h
+++ b/tcmalloc/huge_page_aware_allocator.h
@@ -775,8 +775,11 @@ inline Span* HugePageAwareAllocator<Forwarder>::NewAligned(
     return New(n, span_alloc_info);
   }
 
-  // we can do better than this, but...
-  TC_CHECK_LE(align, kPagesPerHugePage);
+  // we can do better than this, but...  Report the failure to our caller, who
+  // knows how it has to be presented (null, ENOMEM, ...).
+  if (ABSL_PREDICT_FALSE(align > kPagesPerHugePage)) {
+    return nullptr;
+  }
   bool from_released;
   FinalizeType f;
   {
-- 
2.43.0


From 07bace353d0cd62c5bd298eeef401cc70f0aa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 03/26] fix: count a hugepage as backed when releasing the rest
 of it failed

When a partially released hugepage becomes empty, HugePageFiller::Put releases
the remaining pages.  If that fails, the tracker still claimed to be released,
so the whole hugepage was treated as unbacked (and counted as unmapped)
although part of it is resident.
---
 tcmalloc/huge_page_filler.h  | 4 ++++
 tcmalloc/huge_page_tracker.h | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/tcmalloc/huge_page_filler.h b/tcmalloc/huge_page_filler.h
index 6ae94b0..37b5a96 100644
--- a/tcmalloc/huge_page_filler.h
+++ b/tcmalloc/huge_page_filler.h
@@ -1327,6 +1327,10 @@ inline TrackerType* HugePageFiller<TrackerType>::Put(
 
         if (ABSL_PREDICT_TRUE(success)) {
           unmapping_unaccounted_ += free_pages - released_pages;
+        } else {
+          // The rest of the hugepage is still backed, so the hugepage must not
+          // be treated as unbacked.
+          pt->ClearReleased();
         }
       }
     }
diff --git a/tcmalloc/huge_page_tracker.h b/tcmalloc/huge_page_tracker.h
index 85370c1..fa7ae6e 100644
--- a/tcmalloc/huge_page_tracker.h
+++ b/tcmalloc/huge_page_tracker.h
@@ -148,6 +148,13 @@ class PageTracker : public TList<PageTracker>::Elem {
   // Returns true if any unused pages have been returned-to-system.
   bool released() const { return released_count_ > 0; }
 
+  // Treats all pages as backed again, for callers which were unable to release
+  // the remaining pages and so cannot treat the whole hugepage as released.
+  void ClearReleased() {
+    released_by_page_.Clear();
+    released_count_ = 0;
+  }
+
   // Was this tracker donated from the tail of a multi-hugepage allocation?
   // Only up-to-date when the tracker is on a TrackerList in the Filler;
   // otherwise the value is meaningless.
-- 
2.43.0


From 7b9ff847f8f824b8ef1973b81e6c456c3924cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 04/26] fix: do not take earlier unmapped pages for progress
 towards a usage limit

The page counts returned by the release functions include pages which were
unmapped before (HugePageFiller::unmapping_unaccounted_).  ShrinkToUsageLimit
took them as a reduction of the current usage, so that the soft limit was not
respected although free memory could be released, and allocations were granted
beyond the hard limit.
---
 tcmalloc/page_allocator.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/tcmalloc/page_allocator.cc b/tcmalloc/page_allocator.cc
index a608ddc..aa5abd5 100644
--- a/tcmalloc/page_allocator.cc
+++ b/tcmalloc/page_allocator.cc
@@ -109,16 +109,30 @@ void PageAllocator::ShrinkToUsageLimit(Length n) {
   ++limit_hits_[kSoft];
   if (limits_[kHard] < backed) ++limit_hits_[kHard];
 
-  const size_t overage = backed - limits_[kSoft];
-  const Length pages = BytesToLengthCeil(overage);
-  if (ShrinkHardBy(pages, kSoft)) {
+  // Shrinks until the limit is respected.  ShrinkHardBy can succeed thanks to
+  // pages that were unmapped earlier and are only being accounted for now (see
+  // HugePageFiller::ReleasePages), which does not reduce current usage.
+  auto shrink_to_limit =
+      [&](LimitKind limit_kind) ABSL_EXCLUSIVE_LOCKS_REQUIRED(pageheap_lock) {
+        while (true) {
+          BackingStats s = stats();
+          const size_t backed =
+              s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
+          if (backed <= limits_[limit_kind]) return true;
+          const size_t overage = backed - limits_[limit_kind];
+          if (!ShrinkHardBy(BytesToLengthCeil(overage), limit_kind)) {
+            return false;
+          }
+        }
+      };
+  if (shrink_to_limit(kSoft)) {
     ++successful_shrinks_after_limit_hit_[kSoft];
     return;
   }
 
   // We're still not below limit.
   if (limits_[kHard] < std::numeric_limits<size_t>::max()) {
-    // Recompute how many pages we still need to release.
+    // Check whether we still need to release pages.
     BackingStats s = stats();
     const size_t backed =
         s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
@@ -126,9 +140,7 @@ void PageAllocator::ShrinkToUsageLimit(Length n) {
       // We're already fine in terms of hard limit.
       return;
     }
-    const size_t overage = backed - limits_[kHard];
-    const Length pages = BytesToLengthCeil(overage);
-    if (ShrinkHardBy(pages, kHard)) {
+    if (shrink_to_limit(kHard)) {
       ++successful_shrinks_after_limit_hit_[kHard];
       TC_ASSERT_EQ(successful_shrinks_after_limit_hit_[kHard],
                    limit_hits_[kHard]);
-- 
2.43.0


From 0f025b50eb81ed21db2c1e3385ad9c990f3159e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 05/26] fix: restart the periods of background actions when the
 clock is set back

absl::Now() is a wall clock.  After it was set back, draining, shuffling,
resizing and plundering of caches stopped until the clock had caught up with
the time of their last run.
---
 tcmalloc/background.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tcmalloc/background.cc b/tcmalloc/background.cc
index 6bb9ad4..e31a3ed 100644
--- a/tcmalloc/background.cc
+++ b/tcmalloc/background.cc
@@ -98,6 +98,22 @@ void MallocExtension_Internal_ProcessBackgroundActions() {
 
     absl::Time now = absl::Now();
 
+    // If time went backwards, the periodic actions would not run again until
+    // the clock has caught up with their last run, which may take arbitrarily
+    // long.  Start their periods afresh instead.
+    if (now < prev_time) {
+      last_drain = now;
+      last_shuffle = now;
+      last_size_class_resize = now;
+      last_size_class_max_capacity_resize = now;
+      last_slab_resize_check = now;
+      last_hpaa_hugepage_check = now;
+#ifndef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
+      last_transfer_cache_plunder_check = now;
+      last_transfer_cache_resize_check = now;
+#endif
+    }
+
     // TODO(b/278618299):  We guard various actions under a single lock, since
     // individual operations may not be amenable to concurrent operations.
     {
-- 
2.43.0


From feeac0a671d2bca9f109ba5e93c5cd74ab238bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 06/26] fix: keep the releaser's lead when a call is covered by
 it

ConstantRatePageAllocatorReleaser reset extra_bytes_released_ whenever a
request was covered by what an earlier call released too much, as the page
heap then releases nothing.  Only one period per oversized release was
skipped, and small rates were exceeded many times over.
---
 tcmalloc/static_vars.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tcmalloc/static_vars.h b/tcmalloc/static_vars.h
index 1f799c9..8b0df2d 100644
--- a/tcmalloc/static_vars.h
+++ b/tcmalloc/static_vars.h
@@ -316,6 +316,7 @@ class ConstantRatePageAllocatorReleaser {
       num_bytes = 0;
     } else {
       num_bytes -= extra_bytes_released_;
+      extra_bytes_released_ = 0;
     }
 
     const Length num_pages = [&] {
@@ -335,15 +336,13 @@ class ConstantRatePageAllocatorReleaser {
                                       .ReleaseAtLeastNPages(num_pages, reason)
                                       .in_bytes();
     if (bytes_released > num_bytes) {
-      extra_bytes_released_ = bytes_released - num_bytes;
+      extra_bytes_released_ += bytes_released - num_bytes;
 
       return num_bytes;
     }
 
-    // The PageHeap wasn't able to release num_bytes.  Don't try to compensate
+    // If the PageHeap wasn't able to release num_bytes, don't try to compensate
     // with a big release next time.
-    extra_bytes_released_ = 0;
-
     return bytes_released;
   }
 
-- 
2.43.0


From b9dba64636daa421ad1fc69b9c93766d1abb3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 07/26] fix: list only allocated spans in GetAllocatedSpans

Freeing a span removes only its first page from the page map, so interior pages
of a dead span could be listed as ranges overlapping live ones, and the size
class lookup asserted on pages registered concurrently.
---
 tcmalloc/pagemap.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index b895839..3b95d6e 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -429,10 +429,15 @@ class PageMap {
       if (s == nullptr || s == &tc_globals.invalid_span()) {
         continue;
       }
-      // Free'd up Span that's not yet removed from PageMap.
-      if (page_id < s->first_page() || s->last_page() < page_id) continue;
-      CompactSizeClass size_class = sizeclass(page_id);
-      TC_ASSERT_EQ(s->first_page().index(), i);
+      // Freeing a Span only removes its first page from the PageMap, so an
+      // interior page may still refer to a Span that no longer exists.  As we
+      // skip from one allocated Span's last page to the next, an allocated Span
+      // is always found at its first page.
+      if (page_id != s->first_page()) continue;
+      // Size classes are (un)registered without holding pageheap_lock.
+      const CompactSizeClass size_class =
+          map_.get_existing_with_sizeclass</*check_bounds=*/false>(i.value())
+              .second;
       // As documented, GetAllocatedSpans wants to avoid allocating more memory
       // for the output vector while holding the pageheap_lock. So, we stop
       // adding more entries after we reach its existing capacity. Note that the
-- 
2.43.0


From d0097550f1ad3248fc17ee8c30b0004e2a055d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 08/26] fix: keep sampled blocks of partition 1 in their
 partition on realloc

PartitionFromPointer did not know the tag of sampled memory of partition 1, so
that reallocating such a block moved it to partition 0.
---
 tcmalloc/common.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcmalloc/common.h b/tcmalloc/common.h
index 936e6e1..fc1d4b2 100644
--- a/tcmalloc/common.h
+++ b/tcmalloc/common.h
@@ -268,6 +268,7 @@ inline size_t PartitionFromPointer(const void* ptr) {
 
   switch (GetMemoryTag(ptr)) {
     case MemoryTag::kNormalP1:
+    case MemoryTag::kSampledP1:
       return 1;
     default:
       return 0;
-- 
2.43.0


From 0fbc6022a6f27198c6ba14a2139994559152c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 09/26] fix: do not lose address space when a new region cannot
 be used

When creating a region or the first allocation from it failed, the reserved
range stayed mapped but unused, and the current region was replaced, so every
retry lost another range.
---
 tcmalloc/internal/system_allocator.h | 37 +++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/tcmalloc/internal/system_allocator.h b/tcmalloc/internal/system_allocator.h
index 3a44ee9..d083b69 100644
--- a/tcmalloc/internal/system_allocator.h
+++ b/tcmalloc/internal/system_allocator.h
@@ -256,6 +256,11 @@ class SystemAllocator {
     size_t GetStats(absl::Span<char> buffer) override;
     size_t GetStatsInPbtxt(absl::Span<char> buffer) override;
 
+    // Records that <size> bytes passed to Create() are no longer reserved.
+    void Unreserved(size_t size) {
+      bytes_reserved_.fetch_sub(size, std::memory_order_relaxed);
+    }
+
    private:
     std::atomic<size_t> bytes_reserved_{0};
   };
@@ -265,6 +270,13 @@ class SystemAllocator {
       &mmap_factory_;
 
   AddressRegionFactory::UsageHint TagToHint(MemoryTag tag) const;
+
+  // Gives the address range of a new region, from which nothing has been
+  // allocated, back to the kernel.  Returns false if the range remains
+  // reserved.
+  bool DiscardUnusedRange(void* start, size_t size)
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(spinlock_);
+
   void BindMemory(void* base, size_t size, size_t partition) const
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(spinlock_);
   uintptr_t RandomMmapHint(size_t size, size_t alignment, MemoryTag tag)
@@ -473,6 +485,7 @@ SystemAllocator<Topology, NormalPartitions>::AllocateFromRegion(
       TC_ASSERT_EQ(result.second, size);
     } else {
       TC_ASSERT_EQ(result.second, 0);
+      DiscardUnusedRange(ptr, size);
     }
     return result;
   }
@@ -510,12 +523,30 @@ SystemAllocator<Topology, NormalPartitions>::AllocateFromRegion(
   if (!ptr) return {nullptr, 0};
 
   const auto region_type = TagToHint(tag);
-  region = region_factory_->Create(ptr, min_mmap_size_, region_type);
-  if (!region) {
+  AddressRegion* const new_region =
+      region_factory_->Create(ptr, min_mmap_size_, region_type);
+  if (!new_region) {
     munmap(ptr, min_mmap_size_);
     return {nullptr, 0};
   }
-  return region->Alloc(request_size, alignment);
+  std::pair<void*, size_t> result =
+      new_region->Alloc(request_size, alignment);
+  // If we failed to allocate from a new region (e.g. mprotect failed), a retry
+  // must not make us reserve (and lose) yet another range.
+  if (result.first || !DiscardUnusedRange(ptr, min_mmap_size_)) {
+    region = new_region;
+  }
+  return result;
+}
+
+template <typename Topology, size_t NormalPartitions>
+bool SystemAllocator<Topology, NormalPartitions>::DiscardUnusedRange(
+    void* start, size_t size) {
+  // The regions of other factories may have put the range to use.
+  if (region_factory_ != &mmap_factory_) return false;
+  if (munmap(start, size) != 0) return false;
+  mmap_factory_.Unreserved(size);
+  return true;
 }
 
 template <typename Topology, size_t NormalPartitions>
-- 
2.43.0


From dfc31ad08feb02b106323947afcbcbd6e3241a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 10/26] fix: keep the sample registered while SampledDelete
 hooks read its stack

MaybeUnsampleAllocation unregistered the sampled allocation, which makes its
record available to other threads, before invoking the SampledDelete hooks with
a span pointing into that record.  A hook could thus see the stack of another
allocation.
---
 tcmalloc/allocation_sampling.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/allocation_sampling.h b/tcmalloc/allocation_sampling.h
index 7db362d..70747c2 100644
--- a/tcmalloc/allocation_sampling.h
+++ b/tcmalloc/allocation_sampling.h
@@ -375,7 +375,6 @@ void MaybeUnsampleAllocation(Static& state, Policy policy,
                               ? MallocHook::Access::Cold
                               : MallocHook::Access::Hot,
   };
-  state.sampled_allocation_recorder().Unregister(sampled_allocation);
 
   // Adjust our estimate of internal fragmentation.
   TC_ASSERT_LE(requested_size, allocated_size);
@@ -390,6 +389,10 @@ void MaybeUnsampleAllocation(Static& state, Policy policy,
   }
   MallocHook::InvokeSampledDeleteHook(sampled_alloc);
 
+  // `sampled_alloc.stack` refers to memory owned by `sampled_allocation`, which
+  // another thread may reuse as soon as it has been unregistered.
+  state.sampled_allocation_recorder().Unregister(sampled_allocation);
+
   state.deallocation_samples.ReportFree(sampled_alloc_handle);
 }
 
-- 
2.43.0


From c027b264184b6489cf876c55df7f00d8257c0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 11/26] fix: report double frees of guarded allocations before
 using the stale span

The span of a guarded allocation is deleted when the allocation is freed while
the page map keeps pointing to it.  A second free read the stale, possibly
recycled span: it dropped the sample of an unrelated live allocation, or ended
the process with a size or type mismatch blaming that allocation instead of
reporting the double free.
---
 tcmalloc/guarded_page_allocator.h | 7 +++++++
 tcmalloc/tcmalloc.cc              | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/tcmalloc/guarded_page_allocator.h b/tcmalloc/guarded_page_allocator.h
index 7b4be61..6930a25 100644
--- a/tcmalloc/guarded_page_allocator.h
+++ b/tcmalloc/guarded_page_allocator.h
@@ -185,6 +185,13 @@ class GuardedPageAllocator {
     return metadata.allocation_start == addr;
   }
 
+  // Returns true if the slot of `ptr` was deallocated and has not been allocated
+  // again since.
+  [[nodiscard]] bool IsDeallocated(const void* ptr) const {
+    const size_t slot = GetNearestSlot(absl::bit_cast<uintptr_t>(ptr));
+    return data_[slot].dealloc_count.load(std::memory_order_relaxed) != 0;
+  }
+
   // Allows Allocate() to start returning allocations.
   void AllowAllocations() ABSL_LOCKS_EXCLUDED(guarded_page_lock_) {
     AllocationGuardSpinLockHolder h(guarded_page_lock_);
diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 5b2cf2a..c1afccd 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -697,6 +697,11 @@ ABSL_ATTRIBUTE_NOINLINE static void InvokeHooksAndFreePages(
   // rather than a cleaner error.
   bool valid_ptr = true;
   if (ABSL_PREDICT_FALSE(is_gwp_asan_ptr)) {
+    if (ABSL_PREDICT_FALSE(gwp_asan.IsDeallocated(ptr))) {
+      // `span` was deleted when `ptr` was first freed and may describe another
+      // allocation by now.  Report the double free before looking at it.
+      gwp_asan.Deallocate(ptr);
+    }
     valid_ptr = gwp_asan.PointerIsCorrectlyAligned(ptr);
   } else if (ABSL_PREDICT_FALSE(ptr != span->start_address())) {
     valid_ptr = false;
-- 
2.43.0


From 1d0e87072b6acf4e24cfb50f39ece00deedcc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 12/26] fix: count a stack trace before publishing it for decay

DecayingStackTraceFilter::Add stored the hash in the ring before adding its
count.  A concurrent Decay or Add could remove the entry first, so that a count
shared with another stack trace was temporarily too low, and that stack trace
was reported absent although it had live entries.
---
 tcmalloc/internal/stacktrace_filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/internal/stacktrace_filter.h b/tcmalloc/internal/stacktrace_filter.h
index 9667640..c1bfa37 100644
--- a/tcmalloc/internal/stacktrace_filter.h
+++ b/tcmalloc/internal/stacktrace_filter.h
@@ -116,10 +116,12 @@ class DecayingStackTraceFilter : public StackTraceFilter<kSize, kHashNum> {
   void Add(absl::Span<void* const> stack_trace, int val) {
     const size_t stack_hash = this->GetFirstHash(stack_trace);
     if (val >= 0) {
-      Decay(stack_hash);
       // Because 0-valued entries denote unused entries, add 1 to be decayed if
-      // this is a non-zero hash (very likely).
+      // this is a non-zero hash (very likely).  This has to happen before the
+      // entry is published: another thread may decay it right away, and counts
+      // shared with other stack traces must not drop below their sum.
       Base::Add(stack_hash, val + !!stack_hash);
+      Decay(stack_hash);
     } else {
       // Removal.
       Base::Add(stack_hash, val);
-- 
2.43.0


From 613ac6ba6e98ea3a2265905141c6c38a027190a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 13/26] fix: tell zero-byte allocations from deallocations in
 event traces

---
 tcmalloc/deallocation_profiler.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tcmalloc/deallocation_profiler.cc b/tcmalloc/deallocation_profiler.cc
index 97e3210..e4035c5 100644
--- a/tcmalloc/deallocation_profiler.cc
+++ b/tcmalloc/deallocation_profiler.cc
@@ -92,6 +92,8 @@ struct DeallocationSampleRecord {
   int l3_id = -1;
   int numa_id = -1;
   pid_t thread_id = 0;
+  // Whether this is the deallocation of a pair (only set in event traces).
+  bool is_deallocation = false;
 
   template <typename H>
   friend H AbslHashValue(H h, const DeallocationSampleRecord& c) {
@@ -637,13 +639,13 @@ void DeallocationProfiler::DeallocationStackTraceTable::AddTrace(
       }
       if (dealloc_trace.stack_trace.depth > 0) {
         events_.push_back(dealloc_trace);
-        // In-band signal to Iterate() that this is a deallocation event. We can
-        // do this because:
+        // Deallocation events are reported with an allocated_size of 0:
         // - Matched events propagate the allocated_size via the
         //   alloc_trace (and the pair can be associated downstream).
         // - Left-censored events are only passed to ReportFree as
         //   alloc_handle-s, i.e. we can't know the allocated_size.
         events_.back().stack_trace.allocated_size = 0;
+        events_.back().is_deallocation = true;
       }
     }
     return;
@@ -713,9 +715,9 @@ void DeallocationProfiler::DeallocationStackTraceTable::Iterate(
   if (mode_ == Mode::kEventTrace) {
     for (const auto& r : events_) {
       tcmalloc::Profile::Sample s = ToSample(r.stack_trace);
-      // Allocations have allocated_size > 0;
-      // Deallocations (matched and left-censored) have allocated_size == 0.
-      s.count = r.stack_trace.allocated_size > 0 ? 1 : -1;
+      // Deallocations (matched and left-censored) have allocated_size == 0, but
+      // so do allocations of zero bytes serviced by GuardedPageAllocator.
+      s.count = r.is_deallocation ? -1 : 1;
       s.sum = r.stack_trace.allocated_size;
       s.allocation_time = r.stack_trace.allocation_time;
       s.alloc_handle = r.stack_trace.sampled_alloc_handle;
-- 
2.43.0


From 6c444b6a16a581362271fda27c59ba91268ed846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 14/26] fix: delete spans only after they left the page map

---
 tcmalloc/central_freelist.cc |  6 +++++-
 tcmalloc/pagemap.h           | 17 +++++++++++++++++
 tcmalloc/tcmalloc.cc         | 12 ++++++++----
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/tcmalloc/central_freelist.cc b/tcmalloc/central_freelist.cc
index f25b93b..e362246 100644
--- a/tcmalloc/central_freelist.cc
+++ b/tcmalloc/central_freelist.cc
@@ -190,13 +190,17 @@ void StaticForwarder::DeallocateSpans(size_t objects_per_span,
     TC_ASSERT_EQ(tag, GetMemoryTag(s->start_address()));
     allocs[i].r = Range(s->first_page(), s->num_pages());
     allocs[i].donated = s->donated();
-    Span::Delete(s);
   }
   const AccessDensityPrediction density = AccessDensity(objects_per_span);
   SpanAllocInfo span_alloc_info = {.objects_per_span = objects_per_span,
                                    .density = density};
   ReturnAllocsToPageHeap(tag, absl::MakeSpan(allocs, free_spans.size()),
                          span_alloc_info);
+  // Delete the Spans only now that they were removed from the PageMap: others
+  // may look at them under pageheap_lock (see PageMap::GetAllocatedSpans).
+  for (Span* const free_span : free_spans) {
+    Span::Delete(free_span);
+  }
 #endif
 }
 
diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index 3b95d6e..de58cb7 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -429,6 +429,23 @@ class PageMap {
       if (s == nullptr || s == &tc_globals.invalid_span()) {
         continue;
       }
+      // Guarded allocations are freed without holding pageheap_lock, and their
+      // page keeps referring to a Span that was deleted.  Do not look at it.
+      const void* const start = page_id.start_addr();
+      const auto& guarded = tc_globals.guardedpage_allocator();
+      if (guarded.PointerIsMine(start)) {
+        if (guarded.IsDeallocated(start)) continue;
+        if (allocated_spans.capacity() > allocated_spans.size()) {
+          allocated_spans.push_back(
+              {page_id.start_uintptr(), kPageSize,
+               Static::sizemap().class_to_size(0)});
+        }
+        ++allocated_span_count;
+        continue;
+      }
+      // Other Spans are deleted after they were removed from the PageMap under
+      // pageheap_lock, so that we can look at the Span here.
+      //
       // Freeing a Span only removes its first page from the PageMap, so an
       // interior page may still refer to a Span that no longer exists.  As we
       // skip from one allocated Span's last page to the next, an allocated Span
diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index c1afccd..ae56c29 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -748,11 +748,15 @@ ABSL_ATTRIBUTE_NOINLINE static void InvokeHooksAndFreePages(
         Range(p, span->num_pages()),
         span->donated(),
     };
+    {
+      PageHeapSpinLockHolder l;
+      tc_globals.page_allocator().Delete(
+          a, GetMemoryTag(ptr),
+          {.objects_per_span = 1, .density = AccessDensityPrediction::kSparse});
+    }
+    // Delete the Span only now that it was removed from the PageMap: others may
+    // look at it under pageheap_lock (see PageMap::GetAllocatedSpans).
     Span::Delete(span);
-    PageHeapSpinLockHolder l;
-    tc_globals.page_allocator().Delete(
-        a, GetMemoryTag(ptr),
-        {.objects_per_span = 1, .density = AccessDensityPrediction::kSparse});
 #endif  // TCMALLOC_INTERNAL_LEGACY_LOCKING
   }
   // We expect to crash in GuardedPageAllocator::Delete or in
-- 
2.43.0


From 24b8f957384f61562b806c5f4103183e79befd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 15/26] fix: advance epochs whose length is a power of two
 ticks

With d == 2^k the multiplier 2^(63 + bit_width(d)) / d does not fit 64 bits and
wrapped around to 0, so that the epoch never moved.
---
 tcmalloc/internal/timeseries_tracker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/timeseries_tracker.h b/tcmalloc/internal/timeseries_tracker.h
index fb30c11..6ba5cbb 100644
--- a/tcmalloc/internal/timeseries_tracker.h
+++ b/tcmalloc/internal/timeseries_tracker.h
@@ -56,7 +56,8 @@ class TimeSeriesTracker {
     // See comment in GetCurrentEpoch().
     auto d = static_cast<uint64_t>(absl::ToDoubleSeconds(epoch_length_) *
                                    clock.freq());
-    div_precision_ = 63 + absl::bit_width(d);
+    // bit_width(d - 1) is log2(d), rounded up.
+    div_precision_ = 63 + absl::bit_width(d - 1);
     epoch_ticks_m_ =
         static_cast<uint64_t>(
             (static_cast<absl::uint128>(1) << div_precision_) / d) +
-- 
2.43.0


From f0b07ababd25d03b5b0c5058a9a8370fa9bf7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 16/26] fix: do not take a Cycles32 tick of zero for the far
 future

Update() stores 1 instead of 0, as 0 means never; AsDuration has to do the same
or the age of a value stored in the same tick wraps around.
---
 tcmalloc/internal/clock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/clock.h b/tcmalloc/internal/clock.h
index bf3dffb..72be45c 100644
--- a/tcmalloc/internal/clock.h
+++ b/tcmalloc/internal/clock.h
@@ -79,7 +79,8 @@ class Cycles32 {
   absl::Duration AsDuration(Clock::Snapshot snap) const {
     const uint32_t last = val_.load(std::memory_order_relaxed);
     if (last == 0) return absl::InfiniteDuration();
-    const uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);
+    uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);
+    if (now_32 == 0) now_32 = 1;  // As Update() does.
     // Unsigned 32-bit modular subtraction across wraparound is safe.
     const uint32_t elapsed_ticks = now_32 - last;
     const double elapsed_cycles =
-- 
2.43.0


From af76dee1b4959b723a022873ed3abefe39e3d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 17/26] fix: terminate the pbtxt statistics before the region
 factory adds to them

---
 tcmalloc/tcmalloc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index ae56c29..4b25112 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -209,6 +209,9 @@ extern "C" ABSL_ATTRIBUTE_UNUSED int MallocExtension_Internal_GetStatsInPbtxt(
   size_t required = printer.SpaceRequired();
 
   if (buffer_length > required) {
+    // Printer::Append does not terminate what it writes and the region factory
+    // might not write anything.
+    buffer[required] = '\0';
     PageHeapSpinLockHolder l;
     required +=
         tc_globals.system_allocator().GetRegionFactory()->GetStatsInPbtxt(
-- 
2.43.0


From b4b0dd1ce84bf1e7a3113a8457370e516cc4c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 18/26] fix: report the peak of backed memory as
 generic.peak_memory_usage

GetNumericProperty does, GetProperties reported the demand estimated at the
time.
---
 tcmalloc/tcmalloc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 4b25112..96ad19c 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -440,7 +440,7 @@ extern "C" void MallocExtension_Internal_GetProperties(
   (*result)["generic.bytes_in_use_by_app"].value = bytes_in_use_by_app;
   (*result)["generic.heap_size"].value = HeapSizeBytes(stats.pageheap);
   (*result)["generic.peak_memory_usage"].value =
-      static_cast<uint64_t>(stats.peak_stats.sampled_application_bytes);
+      static_cast<uint64_t>(stats.peak_stats.backed_bytes);
   (*result)["generic.realized_fragmentation"].value = static_cast<uint64_t>(
       100. * safe_div(stats.peak_stats.backed_bytes -
                           stats.peak_stats.sampled_application_bytes,
-- 
2.43.0


From b50eb604135e50c310d66ca496a0bb651bb7a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 19/26] fix: leave arena memory out of
 tcmalloc.pageheap_unmapped_bytes

As GetProperties does; tcmalloc.page_heap_unmapped is the one that has it.
---
 tcmalloc/global_stats.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/global_stats.cc b/tcmalloc/global_stats.cc
index d7e4e63..c026d0e 100644
--- a/tcmalloc/global_stats.cc
+++ b/tcmalloc/global_stats.cc
@@ -1049,8 +1049,13 @@ bool GetNumericProperty(const char* name_data, size_t name_size,
     return true;
   }
 
-  if (name == "tcmalloc.pageheap_unmapped_bytes" ||
-      name == "tcmalloc.page_heap_unmapped") {
+  if (name == "tcmalloc.pageheap_unmapped_bytes") {
+    PageHeapSpinLockHolder l;
+    *value = tc_globals.page_allocator().stats().unmapped_bytes;
+    return true;
+  }
+
+  if (name == "tcmalloc.page_heap_unmapped") {
     PageHeapSpinLockHolder l;
     // Arena non-resident bytes aren't on the page heap, but they are unmapped.
     *value = tc_globals.page_allocator().stats().unmapped_bytes +
-- 
2.43.0


From e2e94567a5c6114dd636cc4e537e7dd5a80d4268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 20/26] fix: keep generic.realized_fragmentation from wrapping
 around

The demand is estimated from samples and may exceed what was backed.
---
 tcmalloc/global_stats.cc | 16 ++++++++++------
 tcmalloc/global_stats.h  |  2 ++
 tcmalloc/tcmalloc.cc     |  6 ++----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/tcmalloc/global_stats.cc b/tcmalloc/global_stats.cc
index c026d0e..80c8858 100644
--- a/tcmalloc/global_stats.cc
+++ b/tcmalloc/global_stats.cc
@@ -249,6 +249,14 @@ size_t SlackBytes(const BackingStats& stats) {
   return stats.free_bytes + stats.unmapped_bytes;
 }
 
+double RealizedFragmentation(const TCMallocStats& stats) {
+  // The application's demand is estimated from samples, so it may exceed what
+  // was backed.
+  return 100. * safe_div(StatSub(stats.peak_stats.backed_bytes,
+                                 stats.peak_stats.sampled_application_bytes),
+                         stats.peak_stats.sampled_application_bytes);
+}
+
 static void PrintHooksState(Printer& printer) {
   int new_hooks = new_hooks_.size();
   int delete_hooks = delete_hooks_.size();
@@ -416,7 +424,7 @@ void DumpStats(Printer& out, int level) {
       stats.peak_stats.backed_bytes / MiB,
       uint64_t(stats.peak_stats.sampled_application_bytes),
       stats.peak_stats.sampled_application_bytes / MiB,
-      100. * safe_div(stats.peak_stats.backed_bytes - stats.peak_stats.sampled_application_bytes, stats.peak_stats.sampled_application_bytes),
+      RealizedFragmentation(stats),
       uint64_t(kPageSize),
       uint64_t(kHugePageSize),
       CountAllowedCpus(),
@@ -997,11 +1005,7 @@ bool GetNumericProperty(const char* name_data, size_t name_size,
   if (name == "generic.realized_fragmentation") {
     TCMallocStats stats;
     ExtractTCMallocStats(stats, false);
-    *value = static_cast<uint64_t>(
-        100. * safe_div(stats.peak_stats.backed_bytes -
-                            stats.peak_stats.sampled_application_bytes,
-                        stats.peak_stats.sampled_application_bytes));
-
+    *value = static_cast<uint64_t>(RealizedFragmentation(stats));
     return true;
   }
 
diff --git a/tcmalloc/global_stats.h b/tcmalloc/global_stats.h
index fb2f1e1..19da69f 100644
--- a/tcmalloc/global_stats.h
+++ b/tcmalloc/global_stats.h
@@ -74,6 +74,8 @@ size_t ExternalBytes(const TCMallocStats& stats);
 size_t HeapSizeBytes(const BackingStats& stats);
 size_t LocalBytes(const TCMallocStats& stats);
 size_t SlackBytes(const BackingStats& stats);
+// Percentage by which the peak of backed memory exceeded the demand then.
+double RealizedFragmentation(const TCMallocStats& stats);
 
 // WRITE stats to "out"
 void DumpStats(Printer& out, int level);
diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 96ad19c..c9fd3a4 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -441,10 +441,8 @@ extern "C" void MallocExtension_Internal_GetProperties(
   (*result)["generic.heap_size"].value = HeapSizeBytes(stats.pageheap);
   (*result)["generic.peak_memory_usage"].value =
       static_cast<uint64_t>(stats.peak_stats.backed_bytes);
-  (*result)["generic.realized_fragmentation"].value = static_cast<uint64_t>(
-      100. * safe_div(stats.peak_stats.backed_bytes -
-                          stats.peak_stats.sampled_application_bytes,
-                      stats.peak_stats.sampled_application_bytes));
+  (*result)["generic.realized_fragmentation"].value =
+      static_cast<uint64_t>(RealizedFragmentation(stats));
   // Page Heap Free
   (*result)["tcmalloc.page_heap_free"].value = stats.pageheap.free_bytes;
   (*result)["tcmalloc.pageheap_free_bytes"].value = stats.pageheap.free_bytes;
-- 
2.43.0


From 8867f8f35621baf5df46f2a7c97287d98e2254e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 21/26] fix: do not change to per-CPU caches with pageheap_lock
 held

ExtractStats called UsePerCpuCache under the lock; when that was the thread's
first call since per-CPU caches became active it flushed the thread's cache,
which acquires the lock again.
---
 tcmalloc/global_stats.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/global_stats.cc b/tcmalloc/global_stats.cc
index 80c8858..f45a002 100644
--- a/tcmalloc/global_stats.cc
+++ b/tcmalloc/global_stats.cc
@@ -127,6 +127,10 @@ void ExtractStats(TCMallocStats& r, uint64_t* absl_nullable class_count,
   r.linked_sample_stats = tc_globals.linked_sample_allocator().stats();
   r.tc_stats = ThreadCache::GetStats(&r.thread_bytes, class_count);
 
+  // The first call after per-CPU caches became active flushes this thread's
+  // cache, which acquires pageheap_lock.
+  const bool use_per_cpu_cache = UsePerCpuCache(tc_globals);
+
   {  // scope
     PageHeapSpinLockHolder l;
     r.metadata_bytes = tc_globals.metadata_bytes();
@@ -160,7 +164,7 @@ void ExtractStats(TCMallocStats& r, uint64_t* absl_nullable class_count,
     r.sharded_transfer_bytes = 0;
     r.percpu_metadata_bytes_res = 0;
     r.percpu_metadata_bytes = 0;
-    if (UsePerCpuCache(tc_globals)) {
+    if (use_per_cpu_cache) {
       r.per_cpu_bytes = tc_globals.cpu_cache().TotalUsedBytes();
       r.sharded_transfer_bytes =
           tc_globals.sharded_transfer_cache().TotalBytes();
-- 
2.43.0


From 6f19b6239ff52ef205f8bd8ef3e8e04f95293a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 22/26] fix: check the limit once more before giving up on it

Other threads may release memory while ShrinkHardBy has dropped the lock: the
process was ended below its hard limit.
---
 tcmalloc/page_allocator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tcmalloc/page_allocator.cc b/tcmalloc/page_allocator.cc
index aa5abd5..3de1eb2 100644
--- a/tcmalloc/page_allocator.cc
+++ b/tcmalloc/page_allocator.cc
@@ -112,17 +112,18 @@ void PageAllocator::ShrinkToUsageLimit(Length n) {
   // Shrinks until the limit is respected.  ShrinkHardBy can succeed thanks to
   // pages that were unmapped earlier and are only being accounted for now (see
   // HugePageFiller::ReleasePages), which does not reduce current usage.
+  // For the same reason other threads may release what ShrinkHardBy could not.
   auto shrink_to_limit =
       [&](LimitKind limit_kind) ABSL_EXCLUSIVE_LOCKS_REQUIRED(pageheap_lock) {
+        bool progress = true;
         while (true) {
           BackingStats s = stats();
           const size_t backed =
               s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
           if (backed <= limits_[limit_kind]) return true;
+          if (!progress) return false;
           const size_t overage = backed - limits_[limit_kind];
-          if (!ShrinkHardBy(BytesToLengthCeil(overage), limit_kind)) {
-            return false;
-          }
+          progress = ShrinkHardBy(BytesToLengthCeil(overage), limit_kind);
         }
       };
   if (shrink_to_limit(kSoft)) {
-- 
2.43.0


From 86b711e079dc07b5eed2950cf4ad05e28b157145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 23/26] fix: do not abort when a preempted thread holds
 capacity of a drained CPU

---
 tcmalloc/cpu_cache.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/cpu_cache.h b/tcmalloc/cpu_cache.h
index e13c4dc..16e60cb 100644
--- a/tcmalloc/cpu_cache.h
+++ b/tcmalloc/cpu_cache.h
@@ -1471,7 +1471,9 @@ inline void CpuCache<Forwarder>::TryDrainingCaches()
     freelist_.ReleaseSlabMetadataForDrainedCpus(
         [this](int cpu) { return HasPopulated(cpu); },
         [this](int cpu) {
-          TC_CHECK_EQ(
+          // A thread that was preempted in Grow() may hold some of the capacity
+          // until it finds the slab gone.
+          TC_CHECK_LE(
               resize_[cpu].available, resize_[cpu].capacity,
               "CPU %u was not actually drained, or available is out of sync",
               cpu);
-- 
2.43.0


From 874ef0875fa60c2f4edcab29a5666558cee74028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:08 +0000
Subject: [PATCH 24/26] fix: report a sampled allocation to starting lifetime
 sessions exactly once

---
 tcmalloc/allocation_sampling.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/allocation_sampling.h b/tcmalloc/allocation_sampling.h
index 70747c2..72124b0 100644
--- a/tcmalloc/allocation_sampling.h
+++ b/tcmalloc/allocation_sampling.h
@@ -206,13 +206,17 @@ ABSL_ATTRIBUTE_NOINLINE sized_ptr_t SampleifyAllocation(
 
   state.allocation_samples.ReportMalloc(stack_trace);
 
-  state.deallocation_samples.ReportMalloc(stack_trace);
-
   // The SampledAllocation object is visible to readers after this. Readers only
   // care about its various metadata (e.g. stack trace, weight) to generate the
   // heap profile, and won't need any information from Span::Sample() next.
   SampledAllocation* sampled_allocation =
       state.sampled_allocation_recorder().Register(std::move(stack_trace));
+
+  // Only now:  A profiler that is just being added seeds itself from the
+  // recorder, and must find this allocation there if it misses this report.
+  // (One that is told about it by both means keeps a single entry.)
+  state.deallocation_samples.ReportMalloc(sampled_allocation->sampled_stack);
+
   // No pageheap_lock required. The span is freshly allocated and no one else
   // can access it. It is visible after we return from this allocation path.
   span->Sample(sampled_allocation);
-- 
2.43.0


From 1e3c7cfee87ca6b058d6f4479205d259cb9baa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:05 +0000
Subject: [PATCH 25/26] fix: do not take a failed probe for MAP_FIXED_NOREPLACE
 support

Where the kernel ignores the flag and the probe fails for want of memory,
the flag was thought to work, and the first reservation placed elsewhere
ended the process (TC_CHECK_EQ(result, MAP_FAILED)).
---
 tcmalloc/internal/system_allocator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/internal/system_allocator.cc b/tcmalloc/internal/system_allocator.cc
index 2270c9c..92f43a6 100644
--- a/tcmalloc/internal/system_allocator.cc
+++ b/tcmalloc/internal/system_allocator.cc
@@ -78,8 +78,9 @@ int MapFixedNoReplaceFlagAvailable() {
 
     void* ptr2 = mmap(target, 2 * page_size, PROT_NONE,
                       kMapFixedNoReplace | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
-    const bool rejected = ptr2 == MAP_FAILED;
-    if (!rejected) {
+    // Failing for another reason (out of memory) says nothing about the flag.
+    const bool rejected = ptr2 == MAP_FAILED && errno == EEXIST;
+    if (ptr2 != MAP_FAILED) {
       if (ptr2 == target) {
         // [ptr2, 2 * page_size] overlaps with [ptr, page_size], so we only need
         // to unmap [ptr2, page_size].  The second call to munmap below will
-- 
2.43.0


From f177bb35268bd704d2132a6048ee74c0ebd3711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:07 +0000
Subject: [PATCH 26/26] Revert "fix: do not take a failed probe for
 MAP_FIXED_NOREPLACE support"

The fallback for kernels without the flag gives up at the first failed
reservation, so a failed probe would make other failures fatal.
---
 tcmalloc/internal/system_allocator.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tcmalloc/internal/system_allocator.cc b/tcmalloc/internal/system_allocator.cc
index 92f43a6..2270c9c 100644
--- a/tcmalloc/internal/system_allocator.cc
+++ b/tcmalloc/internal/system_allocator.cc
@@ -78,9 +78,8 @@ int MapFixedNoReplaceFlagAvailable() {
 
     void* ptr2 = mmap(target, 2 * page_size, PROT_NONE,
                       kMapFixedNoReplace | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
-    // Failing for another reason (out of memory) says nothing about the flag.
-    const bool rejected = ptr2 == MAP_FAILED && errno == EEXIST;
-    if (ptr2 != MAP_FAILED) {
+    const bool rejected = ptr2 == MAP_FAILED;
+    if (!rejected) {
       if (ptr2 == target) {
         // [ptr2, 2 * page_size] overlaps with [ptr, page_size], so we only need
         // to unmap [ptr2, page_size].  The second call to munmap below will
-- 
2.43.0

