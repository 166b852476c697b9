From b16e5b469ec964c96604406773b632fd8294acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 1/9] fix: TryAddMoney reported overflow when adding two
 amounts below one unit

---
 src/money_utils.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/money_utils.cc b/src/money_utils.cc
index c271e4f..28fd474 100644
--- a/src/money_utils.cc
+++ b/src/money_utils.cc
@@ -97,19 +97,19 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
   int sign_a = GetAmountSign(a);
   int sign_b = GetAmountSign(b);
 
-  // Detect positive overflow.
-  if (sign_a > 0 && sign_b > 0 && sum_units <= 0) {
+  // Detect positive overflow. The units of both amounts and the carry are all
+  // non-negative here. Testing the computed sum_units instead would take the
+  // sum of two amounts of less than one unit, which is 0, for an overflow.
+  if (sign_a > 0 && sign_b > 0 &&
+      b.units() > INT64_MAX - carry - a.units()) {
     sum->set_units(INT64_MAX);
     sum->set_nanos(kBillion - 1);
     return Status(StatusCode::kOutOfRange, "Money addition positive overflow");
   }
-  // Detect negative overflow. Note there is a tricky case that can only happen
-  // to negative overflow: sum_units_no_carry overflows to 0 but adding the
-  // carry makes sum_units a negative number again. So we must check both
-  // sum_units_no_carry and sum_units here. This doesn't happen in the
-  // positive overflow case because two MAX values 0x7FF...FF adds to
-  // 0xFF...FE and the carry won't affect the sign.
-  if (sign_a < 0 && sign_b < 0 && (sum_units_no_carry >= 0 || sum_units >= 0)) {
+  // Detect negative overflow, where the units of both amounts and the carry are
+  // all non-positive.
+  if (sign_a < 0 && sign_b < 0 &&
+      b.units() < INT64_MIN - carry - a.units()) {
     sum->set_units(INT64_MIN);
     sum->set_nanos(-kBillion + 1);
     return Status(StatusCode::kOutOfRange, "Money addition negative overflow");
-- 
2.43.0


From 4fe23c08e0bedec391af8e858b83d3920f1ea896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:52 +0000
Subject: [PATCH 2/9] fix: adding a sample crashed on positions outside int and
 on empty explicit bounds

The float to int conversion of the bucket position is undefined when it is
infinite, not a number or too large, and produced a negative bucket index.
Explicit buckets without bounds have a single bucket, but the first bound was
read anyway.
---
 utils/distribution_helper.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..83cab65 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -136,10 +136,13 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   int bucket_index = 0;
   if (value >= exponential.scale()) {
     // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
-      bucket_index = exponential.num_finite_buckets() + 1;
+    // The position is compared before it is converted, as it may be infinite,
+    // not a number or too large for an int.
+    double position = log2(value / exponential.scale()) /
+                      log2(exponential.growth_factor());
+    bucket_index = exponential.num_finite_buckets() + 1;
+    if (position < exponential.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(position);
     }
   }
   distribution->set_bucket_counts(
@@ -158,7 +161,13 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
   } else if (value >= upper_bound) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
-    bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // The position is compared before it is converted, as it may be infinite,
+    // not a number or too large for an int.
+    double position = (value - lower_bound) / linear.width();
+    bucket_index = linear.num_finite_buckets() + 1;
+    if (position < linear.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(position);
+    }
   }
 
   distribution->set_bucket_counts(
@@ -168,7 +177,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (bounds.size() > 0 && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From ed1d08c9e4bab47fd897ba68ca2dd9fdd4980a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:36 +0000
Subject: [PATCH 3/9] fix: distribution initialisation accepted NaN parameters

---
 utils/distribution_helper.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 83cab65..e830381 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -198,12 +198,12 @@ Status DistributionHelper::InitExponential(int num_finite_buckets,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (growth_factor <= 1.0) {
+  if (!(growth_factor > 1.0)) {  // Also true if not a number.
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument growth_factor should be > 1.0. pass in: ",
                          growth_factor));
   }
-  if (scale <= 0) {
+  if (!(scale > 0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument scale should be > 0. pass in: ", scale));
   }
@@ -224,7 +224,7 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (width <= 0.0) {
+  if (!(width > 0.0)) {  // Also true if not a number.
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument width should be > 0.0. pass in: ", width));
   }
@@ -239,6 +239,12 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
 
 Status DistributionHelper::InitExplicit(const std::vector<double>& bounds,
                                         Distribution* distribution) {
+  for (double bound : bounds) {
+    if (std::isnan(bound)) {
+      return Status(StatusCode::kInvalidArgument,
+                    "Argument bounds should NOT contain NaN.");
+    }
+  }
   if (!std::is_sorted(bounds.begin(), bounds.end())) {
     return Status(StatusCode::kInvalidArgument, "Argument bounds should be sorted.");
   }
-- 
2.43.0


From c01b67e1632d1247660e5211e44460dbb2b0ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 4/9] fix: quota entries evicted for capacity were put back
 without end

---
 src/quota_aggregator_impl.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..1a7c871 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -259,7 +259,16 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // OnCacheEntryDelete will be called behind the cache_mutex_
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
-  if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
+  const bool keep = in_flush_all_ == false && ShouldDrop(*elem) == false;
+  if (keep && cache_->Size() >= cache_->MaxSize()) {
+    // The element is evicted because the cache is over its capacity. Inserting
+    // it back would evict the next element, and so on without end.
+    if (elem->is_aggregated()) {
+      AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
+        service_name_, service_config_id_));
+    }
+    delete elem;
+  } else if (keep) {
     // insert the element back to the cache
     cache_->Insert(elem->signature(), elem, 1);
 
-- 
2.43.0


From b7063d5867bc5090618dd40a7669d1ef80fe32fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 5/9] fix: quota entries were dropped at the refresh age once
 FlushAll had been called

---
 src/quota_aggregator_impl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 1a7c871..e072971 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -253,6 +253,8 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
     cache_->RemoveAll();
   }
 
+  in_flush_all_ = false;
+
   return OkStatus();
 }
 
-- 
2.43.0


From 30676914c72c6e75f2c7147deb73416e89ebd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 6/9] fix: completion of a flushed quota request used the
 destroyed client

---
 src/service_control_client_impl.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..f7f5af5 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -137,18 +137,21 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
+  // The completion may arrive after this object is gone.
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
 
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
-- 
2.43.0


From bbcb1d0817ae54869116c4fe33a2d490c8f58fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 7/9] fix: a flush callback calling back into its aggregator
 could deadlock

---
 src/cache_removed_items_handler.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..6404661 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -59,7 +59,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    CallbackMutexLock lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -119,8 +119,11 @@ class CacheRemovedItemsHandler {
   };
 
  private:
-  // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  using CallbackMutexLock = std::unique_lock<std::recursive_mutex>;
+
+  // Mutex guarding the access of flush_callback_. It is held while the callback
+  // runs, and the callback may call back into this object, so it is recursive.
+  std::recursive_mutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,9 +133,11 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    CallbackMutexLock lock(callback_mutex_);
     if (flush_callback_) {
-      flush_callback_(request);
+      // The callback may replace flush_callback_.
+      InternalFlushCallback callback = flush_callback_;
+      callback(request);
     }
   }
 };
-- 
2.43.0


From 4bc8f718c7a4695d2a143533e431782dd096c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 8/9] fix: a cache with a flush interval of zero disabled the
 timer of all caches

---
 src/service_control_client_impl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index f7f5af5..312fce6 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -398,11 +398,11 @@ int ServiceControlClientImpl::GetNextFlushInterval() {
   int report_interval = report_aggregator_->GetNextFlushInterval();
 
   check_interval =
-      (check_interval < 0) ? std::numeric_limits<int>::max() : check_interval;
+      (check_interval <= 0) ? std::numeric_limits<int>::max() : check_interval;
   quota_interval =
-      (quota_interval < 0) ? std::numeric_limits<int>::max() : quota_interval;
+      (quota_interval <= 0) ? std::numeric_limits<int>::max() : quota_interval;
   report_interval =
-      (report_interval < 0) ? std::numeric_limits<int>::max() : report_interval;
+      (report_interval <= 0) ? std::numeric_limits<int>::max() : report_interval;
 
   return std::min(check_interval, std::min(quota_interval, report_interval));
 }
-- 
2.43.0


From c99aa9a700afa7cf77ce3a67b6ff720e9bb3f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 9/9] fix: a lookup leaving the eviction order alone could
 break the LRU list

In the LRU mode an entry pinned by a lookup with update_eviction_order false
stays on the LRU list. Once it passed its idle time, DiscardIdle ran into its
assertion. Overlapping lookups of one entry with different options linked an
element twice or never again.
---
 utils/simple_lru_cache_inl.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 23f6fdc..c8b629c 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -678,12 +678,10 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::LookupWithOptions(
   if (iter != table_.end()) {
     // We set last_use_ upon Release, not during Lookup.
     Elem* e = iter->second;
-    if (e->pin == 0) {
-      pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->Unlink();
-    }
+    if (e->pin == 0) pinned_units_ += e->units;
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    if (lru_ && options.update_eviction_order()) e->Unlink();
     e->pin++;
     return e->value;
   }
@@ -738,7 +736,12 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::ReleaseWithOptions(
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->Link(&head_);
+      // The entry is still on the list if all of its pins left the eviction
+      // order alone.
+      if (lru_ && !e->IsLinked()) {
+        e->last_use_ = SimpleCycleTimer::Now();
+        e->Link(&head_);
+      }
       pinned_units_ -= e->units;
       if (IsOverfullInternal()) {
         // This element is no longer needed, and we are full.  So kick it out.
@@ -920,10 +923,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
-    Remove(e->key);
+    // Pinned elements on the list in the LRU mode were looked up without
+    // updating the eviction order: they are in use, keep them. In the age-based
+    // mode we push them out of the main table regardless of pinning.
+    if (e->pin == 0 || !lru_) Remove(e->key);
     e = prev;
   }
 }
-- 
2.43.0

