From 98c28b5894f08567833be732e3a5906ee71c4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 01/14] fix: Statistics::reset_all resets every monitored key
 (it did not compile)

---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From c5b9dc9ebcb0aca79e360c15ac963e90b6388e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 02/14] fix: a copied cache no longer refers into the order and
 entries of its source

---
 include/lru/internal/base-cache.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..72b2cc2 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1528,9 +1528,13 @@ class BaseCache {
   /// After a copy, the reference (wrappers) in the order queue point
   /// to the keys of the other cache's map. Thus we need to re-assign them.
   void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+    for (auto iterator = _order.begin(); iterator != _order.end(); ++iterator) {
+      auto map_iterator = _map.find(*iterator);
+      *iterator = std::ref(map_iterator->first);
+      map_iterator->second.order = iterator;
     }
+    // The key and information it points to belong to the other cache.
+    _last_accessed.invalidate();
   }
 
   /// Inserts a new key into the queue.
-- 
2.43.0


From 454ba07b832433446a4f16660cdb985608d28569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 03/14] fix: move construction leaves a defined capacity in the
 moved-from cache

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 72b2cc2..6116ac2 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,7 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other) : _capacity(0) {
     // Following the copy-swap idiom.
     swap(other);
   }
-- 
2.43.0


From 6ba10cda757b753e8332186e05a77ec7188a4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 04/14] fix: storing a key again in a timed cache renews its
 time to live

---
 include/lru/internal/base-cache.hpp        |  2 +-
 include/lru/internal/information.hpp       |  7 +++++++
 include/lru/internal/timed-information.hpp | 10 +++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 6116ac2..6fcc6fa 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1409,7 +1409,7 @@ class BaseCache {
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.value = new_value;
+    iterator->second.update(new_value);
   }
 
   /// Erases the element most recently inserted into the cache.
diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 4a28a98..3ad3a97 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -117,6 +117,13 @@ struct Information {
     return !(*this == other);
   }
 
+  /// Assigns a new value to the information.
+  ///
+  /// \param new_value The new value for the information.
+  void update(const Value& new_value) {
+    value = new_value;
+  }
+
   /// The value of the information.
   Value value;
 
diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..fd80b35 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -106,8 +106,16 @@ struct TimedInformation : public Information<Key, Value> {
     return !(*this == other);
   }
 
+  /// Assigns a new value to the information and renews its insertion time.
+  ///
+  /// \param new_value The new value for the information.
+  void update(const Value& new_value) {
+    super::update(new_value);
+    insertion_time = Internal::Clock::now();
+  }
+
   /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
-- 
2.43.0


From e6ad0138fd0576693d3e00439ff2a06ab47ca97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 05/14] fix: all_expired and clear_expired no longer assume
 that the order is that of insertion

---
 include/lru/timed-cache.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..4501f6e 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -235,9 +235,12 @@ class TimedCache
     // By the laws of predicate logic, any statement about any empty set is true
     if (is_empty()) return true;
 
-    /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    // The order is that of the last access, not of insertion, so the expired
+    // elements may be anywhere in it.
+    for (const auto& pair : _map) {
+      if (!_has_expired(pair.second)) return false;
+    }
+    return true;
   }
 
   /// Erases all expired elements from the cache.
@@ -257,14 +260,14 @@ class TimedCache
 
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
+      ++iterator;
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
+      // The order is that of the last access, not of insertion, so elements
+      // after one that has not expired may have.
+      if (!_has_expired(map_iterator->second)) continue;
 
       _erase(map_iterator);
 
-      iterator = _order.begin();
       number_of_erasures += 1;
     }
 
-- 
2.43.0


From 5f2ba3f23cc3dee143fad9780f1ea7ca02023779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 06/14] fix: contains registers a miss for an expired
 last-accessed key

---
 include/lru/internal/base-cache.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 6fcc6fa..44845ad 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -790,6 +790,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
-- 
2.43.0


From 12dd714277cbb4c4708d04e09bacc868a328f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 07/14] fix: lookup registers a miss for an expired
 last-accessed key

---
 include/lru/internal/base-cache.hpp | 11 ++++++-----
 include/lru/timed-cache.hpp         |  9 ++++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 44845ad..11f9c37 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -811,7 +811,7 @@ class BaseCache {
   /// \see contains()
   virtual const Value& lookup(const Key& key) const {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -838,7 +838,7 @@ class BaseCache {
   /// \see contains()
   virtual Value& lookup(const Key& key) {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -1471,18 +1471,19 @@ class BaseCache {
     return true;
   }
 
-  /// \copydoc _value_for_last_accessed() const
-  virtual Value& _value_for_last_accessed() {
+  /// \copydoc _value_for_last_accessed(const Key&) const
+  virtual Value& _value_for_last_accessed(const Key& key) {
     return _last_accessed.value();
   }
 
   /// Attempts to access the last accessed key's value.
+  /// \param key The key that was looked up.
   /// \returns The value of the last accessed object.
   /// \details This method exists so that derived classes may perform
   /// additional
   /// checks (and possibly throw exceptions) or perform other operations to
   /// retrieve the value.
-  virtual const Value& _value_for_last_accessed() const {
+  virtual const Value& _value_for_last_accessed(const Key& key) const {
     return _last_accessed.value();
   }
 
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 4501f6e..d6a677b 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -349,10 +349,11 @@ class TimedCache
     return !_has_expired(_last_accessed.information());
   }
 
-  /// \copydoc _value_for_last_accessed() const
-  Value& _value_for_last_accessed() override {
+  /// \copydoc _value_for_last_accessed(const Key&) const
+  Value& _value_for_last_accessed(const Key& key) override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -360,11 +361,13 @@ class TimedCache
   }
 
   /// Attempts to access the last accessed key's value.
+  /// \param key The key that was looked up.
   /// \throws LRU::Error::KeyExpired if the key has expired.
   /// \returns The value of the last accessed key.
-  const Value& _value_for_last_accessed() const override {
+  const Value& _value_for_last_accessed(const Key& key) const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From 18db241012eeed29616195a6f31d156bf4c010b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 08/14] fix: lookup does not check for expiry again after it
 has registered the hit

---
 include/lru/internal/base-cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 11f9c37..d05e448 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -821,7 +821,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator->second;
     }
   }
 
@@ -848,7 +848,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator->second;
     }
   }
 
-- 
2.43.0


From 1acf207a9707a052086b7947f696678b94fc4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 09/14] fix: front and back of an empty cache throw EmptyCache
 instead of terminating

---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..3b9ffcb 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -177,7 +177,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -187,7 +187,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From 031f08fe0f29693126464a6e17420e19689ee84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 10/14] fix: assigning a non-const lvalue range no longer moves
 its elements out

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index d05e448..8985fd8 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -553,7 +553,7 @@ class BaseCache {
   template <typename Range, typename = Internal::enable_if_range<Range>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
-    insert(std::move(range));
+    insert(std::forward<Range>(range));
     return *this;
   }
 
-- 
2.43.0


From e2d08ebf269710c5f395342b74c727c9cb0f589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 11/14] fix: an expired element can be erased through an
 ordered iterator

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 8985fd8..c14b7bf 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1135,7 +1135,7 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From 1f770b99c8964cdcb2ce74348aaabb4e0ed075b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 12/14] fix: entry() of an unordered iterator checks its
 validity before dereferencing it

---
 include/lru/internal/base-unordered-iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..017194e 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,12 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
+
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From d457f278a66e096933b1077013ebfce0d86eb472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 13/14] fix: every wrapped function has a cache of its own and
 keeps the arguments for it

---
 include/lru/wrap.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..f87ee8d 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,12 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <typeindex>
+#include <typeinfo>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -50,7 +54,9 @@ template <typename Function,
 auto wrap(Function original_function, Args&&... args) {
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    cache_args = std::tuple<std::decay_t<Args>...>(std::forward<Args>(args)...),
+    caches = std::make_shared<
+        std::unordered_map<std::type_index, std::shared_ptr<void>>>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -59,9 +65,17 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    using WrapperCache = CacheType<Arguments, ReturnType>;
+
+    // The cache belongs to this wrapper (and its copies), not to its type,
+    // which other wrappers may have too.
+    auto& pointer = (*caches)[std::type_index(typeid(WrapperCache))];
+    if (!pointer) {
+      const std::tuple<const std::decay_t<Args>&...> references(cache_args);
+      pointer = std::make_shared<WrapperCache>(
+          Internal::construct_from_tuple<WrapperCache>(references));
+    }
+    auto& cache = *static_cast<WrapperCache*>(pointer.get());
 
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
-- 
2.43.0


From bae89270293e0594f82294c3c5528ba99008e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 14/14] fix: copying a non-const cache called the range
 constructor or assignment

The range templates are better matches for non-const lvalues than the copy
operations. The copy had another order and capacity, kept its own
statistics, and self-assignment emptied the cache.
---
 include/lru/cache.hpp               | 4 +++-
 include/lru/internal/base-cache.hpp | 4 +++-
 include/lru/internal/utility.hpp    | 9 +++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 3b9ffcb..51c44e4 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -124,7 +124,9 @@ class Cache
   /// \param range A range to construct the cache with.
   /// \param hash The hash function to use for the internal map.
   /// \param key_equal The key equality function to use for the internal map.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::disable_if_derived_from<Cache, Range>,
+            typename = Internal::enable_if_range<Range>>
   explicit Cache(Range&& range,
                  const HashFunction& hash = HashFunction(),
                  const KeyEqual& equal = KeyEqual())
diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index c14b7bf..b1616ab 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -550,7 +550,9 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::disable_if_derived_from<BaseCache, Range>,
+            typename = Internal::enable_if_range<Range>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
     insert(std::forward<Range>(range));
diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index 2be5a8d..7722b50 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -81,6 +81,15 @@ template <typename T>
 using enable_if_range = std::pair<decltype(std::declval<T>().begin()),
                                   decltype(std::declval<T>().end())>;
 
+/// A type trait that disables a template overload for a class and those derived
+/// from it, so that the overload does not preempt the class's copy operations.
+///
+/// \tparam Base The class to disable the overload for.
+/// \tparam T The type to check.
+template <typename Base, typename T>
+using disable_if_derived_from =
+    std::enable_if_t<!std::is_base_of<Base, std::decay_t<T>>::value>;
+
 /// A type trait that disables a template overload if a type is not an iterator
 /// over a pair.
 ///
-- 
2.43.0

