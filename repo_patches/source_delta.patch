From debca16e0684ace6bfb64d5ac007d178ee50eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 1/8] fix: memory persister publishes under the publishing
 mutex, and never accesses its entries without the lock

With MutexLockStatus::AlreadyLocked the entries were appended under the publishing mutex only, while the iterators and
readers only lock the container mutex. With NeedToLock the entries were appended under the container mutex only, while
the subscribers wait on the publishing mutex, so that an entry published between their check and their wait was not
delivered until the next one.
---
 blocks/persistence/memory.h | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index a7c45fa..db88c47 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -61,18 +61,17 @@ class MemoryPersister {
   struct Container {
     using entry_t = std::pair<std::chrono::microseconds, ENTRY>;
 
-    mutable std::mutex memory_persister_container_mutex_;
+    std::mutex& publish_mutex_ref_;                       // Serializes the publishers, and is what subscribers wait on.
+    mutable std::mutex memory_persister_container_mutex_;  // Guards `entries_` and `head_`, always locked last.
     std::deque<entry_t> entries_;
     std::chrono::microseconds head_ = std::chrono::microseconds(-1);
 
-    explicit Container(std::mutex& unused_publish_mutex_ref) {
-      static_cast<void>(unused_publish_mutex_ref);  // `MemoryPersister` is not mutex-efficient. -- D.K.
-    }
+    explicit Container(std::mutex& publish_mutex_ref) : publish_mutex_ref_(publish_mutex_ref) {}
   };
 
  public:
-  MemoryPersister(std::mutex& unused_publish_mutex_ref, const ss::StreamNamespaceName&)
-      : container_(MakeOwned<Container>(unused_publish_mutex_ref)) {}
+  MemoryPersister(std::mutex& publish_mutex_ref, const ss::StreamNamespaceName&)
+      : container_(MakeOwned<Container>(publish_mutex_ref)) {}
 
   class Iterator {
    public:
@@ -153,7 +152,8 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename E, typename TIMESTAMP>
   idxts_t PersisterPublishImpl(E&& entry, const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    current::locks::SmartMutexLockGuard<MLS> publish_lock(container_->publish_mutex_ref_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     if (!(timestamp > head)) {
@@ -168,7 +168,8 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterPublishUnsafeImpl(const std::string& raw_log_line) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    current::locks::SmartMutexLockGuard<MLS> publish_lock(container_->publish_mutex_ref_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto tab_pos = raw_log_line.find('\t');
     if (tab_pos == std::string::npos) {
@@ -190,7 +191,8 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename TIMESTAMP>
   void PersisterUpdateHeadImpl(const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    current::locks::SmartMutexLockGuard<MLS> publish_lock(container_->publish_mutex_ref_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
 
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     const auto head = container_->head_;
@@ -202,19 +204,19 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   bool PersisterEmptyImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->entries_.empty();
   }
 
   template <current::locks::MutexLockStatus MLS>
   uint64_t PersisterSizeImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return static_cast<uint64_t>(container_->entries_.size());
   }
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return idxts_t(container_->entries_.size() - 1, container_->entries_.back().first);
@@ -225,7 +227,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   head_optidxts_t PersisterHeadAndLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return head_optidxts_t(container_->head_, container_->entries_.size() - 1, container_->entries_.back().first);
@@ -236,14 +238,14 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds PersisterCurrentHeadImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->head_;
   }
 
   template <current::locks::MutexLockStatus MLS>
   std::pair<uint64_t, uint64_t> PersisterIndexRangeByTimestampRangeImpl(std::chrono::microseconds from,
                                                                         std::chrono::microseconds till) const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     std::pair<uint64_t, uint64_t> result{static_cast<uint64_t>(-1), static_cast<uint64_t>(-1)};
     const auto begin_it =
         std::lower_bound(container_->entries_.begin(),
@@ -293,7 +295,7 @@ class MemoryPersister {
   template <current::locks::MutexLockStatus MLS, typename ITERABLE>
   ITERABLE PersisterIterateImpl(uint64_t begin, uint64_t end) const {
     const uint64_t size = [this]() {
-      current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+      std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
       return static_cast<uint64_t>(container_->entries_.size());
     }();
 
-- 
2.43.0


From e037bb34c6ba8144b4bc2baa1e3a6b574495a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 2/8] fix: a range of timestamps does not include entries
 published while it is being made

Iterate(from, till) resolved the open end of the index range to the size of the persister after releasing the lock
under which the range was computed, so that entries published in between, past `till`, became part of it.
---
 blocks/persistence/file.h   | 7 +++++--
 blocks/persistence/memory.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index f74387d..b59c014 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -31,6 +31,7 @@ SOFTWARE.
 #ifndef BLOCKS_PERSISTENCE_FILE_H
 #define BLOCKS_PERSISTENCE_FILE_H
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <functional>
@@ -643,9 +644,11 @@ class FilePersister {
       CURRENT_THROW(InvalidIterableRangeException());
     }
 
+    // The entries published from now on are not part of the range, as they may well be past `till`.
+    const uint64_t size = PersisterSizeImpl<MLS>();
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
-    if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+    if (index_range.first < size) {
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, std::min(index_range.second, size));
     } else {  // No entries found in the requested range.
       return ITERABLE(file_persister_impl_, 0, 0, 0);
     }
diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index db88c47..4f6246c 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -37,6 +37,7 @@ SOFTWARE.
 #ifndef BLOCKS_PERSISTENCE_MEMORY_H
 #define BLOCKS_PERSISTENCE_MEMORY_H
 
+#include <algorithm>
 #include <deque>
 #include <functional>
 #include <mutex>
@@ -324,9 +325,11 @@ class MemoryPersister {
     if (till.count() > 0 && till < from) {
       CURRENT_THROW(InvalidIterableRangeException());
     }
+    // The entries published from now on are not part of the range, as they may well be past `till`.
+    const uint64_t size = PersisterSizeImpl<MLS>();
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
-    if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+    if (index_range.first < size) {
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, std::min(index_range.second, size));
     } else {  // No entries found in the given range.
       return ITERABLE(container_, 0, 0);
     }
-- 
2.43.0


From 83a92dc5f59e5c5b82debf4f6d1d34108f953237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 3/8] fix: the last client of a waitable atomic notifies under
 the lock, so that it does not touch it destructed

---
 bricks/sync/waitable_atomic.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 02bf49b..9e4bc13 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -337,10 +337,9 @@ class WaitableAtomicImpl {
     }
 
     virtual void RefCounterDecrease() override {
-      {
-        std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
-        --ref_count_;
-      }
+      // Must notify from under the lock, as with the last client gone `*this` may be destructed once it is released.
+      std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
+      --ref_count_;
       cv_.notify_one();
     }
 
-- 
2.43.0


From 99abefd53be16c1f477ad143c5532e0a21affd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 4/8] fix: a timed wait on an intrusive waitable atomic is
 aborted by its destruction

---
 bricks/sync/waitable_atomic.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 9e4bc13..eb3b0c3 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -321,6 +321,19 @@ class WaitableAtomicImpl {
       }
     }
 
+    template <typename T>
+    bool WaitFor(std::function<bool(const data_t&)> predicate, T duration) const {
+      std::unique_lock<std::mutex> lock(BasicImpl::data_mutex_);
+      if (destructing_) {
+        return false;
+      } else {
+        const data_t& data = BasicImpl::data_;
+        return BasicImpl::data_condition_variable_.wait_for(
+                   lock, duration, [this, &predicate, &data] { return destructing_ || predicate(data); }) &&
+               !destructing_;
+      }
+    }
+
     IntrusiveClient RegisterScopedClient() { return IntrusiveClient(this); }
 
     virtual bool RefCounterTryIncrease() override {
-- 
2.43.0


From 3d192aa91f5ca8b127d9618df50a3faccfbf83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 5/8] fix: the last borrower notifies the owner under the lock,
 so that it does not touch it destructed

---
 bricks/sync/owned_borrowed.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 0c5efe0..bb856f4 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -127,15 +127,12 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    bool notify = false;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      auto it = borrowers_.find(borrower_index);
-      CURRENT_ASSERT(it != borrowers_.end());
-      borrowers_.erase(it);
-      notify = borrowers_.empty();
-    }
-    if (notify) {
+    // Must notify from under the lock, as with no borrowers left `*this` may be destructed once it is released.
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = borrowers_.find(borrower_index);
+    CURRENT_ASSERT(it != borrowers_.end());
+    borrowers_.erase(it);
+    if (borrowers_.empty()) {
       condition_variable_.notify_one();
     }
   }
-- 
2.43.0


From 01f37c06a3373be8fd47a12e6acbdef4d1fa3229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 6/8] fix: assigning to a borrowed object releases what it
 borrowed before

---
 bricks/sync/owned_borrowed.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index bb856f4..d1ba6e5 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -401,7 +401,10 @@ class Borrowed final : public WeakBorrowed<T> {
   Borrowed(Borrowed&& rhs) : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   Borrowed& operator=(Borrowed&& rhs) {
-    base_t::MoveFrom(std::move(rhs), []() {});
+    if (this != &rhs) {
+      base_t::InternalUnRegister();  // Release what was borrowed before, or its owner would wait for it forever.
+      base_t::MoveFrom(std::move(rhs), []() {});
+    }
     return *this;
   }
 
@@ -449,7 +452,10 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
       : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
-    base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    if (this != &rhs) {
+      base_t::InternalUnRegister();  // Release what was borrowed before, or its owner would wait for it forever.
+      base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    }
     return *this;
   }
 
-- 
2.43.0


From b4aec7f974a06187c6eea7ce2826d121c6e2caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 7/8] fix: encode the non-ASCII bytes of URI components as two
 hexadecimal digits

---
 blocks/url/url.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index 4ca959d..a4ff243 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -260,7 +260,7 @@ struct URLParametersExtractor {
       } else if (c == ' ') {
         encoded << "%20";
       } else {
-        encoded << current::strings::Printf("%%%02X", static_cast<int>(c));
+        encoded << current::strings::Printf("%%%02X", static_cast<int>(static_cast<unsigned char>(c)));
       }
     }
     return encoded.str();
-- 
2.43.0


From d1163e47a9f3c285fb40dc73a67647bf05767ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 8/8] fix: the path of a relative URL may contain a double
 slash after a colon

---
 blocks/url/url.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index a4ff243..2fc47cd 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -101,9 +101,10 @@ struct URLWithoutParametersParser {
     scheme = "";
     size_t parsed_offset = 0;
 
-    // This piece parses scheme.
+    // This piece parses scheme. There is none if the first slash, thus the path, is before the double slash.
     const size_t double_slash = url.find("//");
-    if (double_slash != std::string::npos && (double_slash == 0 || url[double_slash - 1] == ':')) {
+    if (double_slash != std::string::npos && double_slash == url.find('/') &&
+        (double_slash == 0 || url[double_slash - 1] == ':')) {
       scheme = (double_slash == 0 ? "" : url.substr(0, double_slash - 1));
       parsed_offset = double_slash + 2;
     }
-- 
2.43.0

