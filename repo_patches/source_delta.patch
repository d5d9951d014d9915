From 71c4ff1504f6cab64ffb9b404bf93c1e7511c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/61] fix: mpt::as_tuple of an rvalue tuple or pair did not
 compile

---
 src/arpc/mpt.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..362945c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
@@ -486,11 +486,11 @@ constexpr decltype(auto) as_tuple(std::pair<U, V>& t) {
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(const std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a tuple value into a `pack` value.
-- 
2.43.0


From 53266836f8ffd50377a777adbb5d5ef7415109f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/61] fix: select used function parameters in constant
 expressions, so it did not compile

---
 src/arpc/select.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..70c96ef 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -94,6 +94,7 @@ template <typename T>
 struct select_input_helper<awaitable<T>> {
   using result_type = result_holder<T>;
   static constexpr bool has_static_size = true;
+  static constexpr std::size_t static_size = 1;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
                                  std::chrono::milliseconds min_timeout,
@@ -199,12 +200,12 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 }
 
 template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
+constexpr bool select_inputs_have_static_size() {
   return (... && select_input<Args>::has_static_size);
 }
 
 template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
+constexpr std::size_t select_inputs_static_size() {
   return (0 + ... + select_input<Args>::static_size);
 }
 template <typename... Args, std::size_t... ints>
@@ -226,9 +227,8 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
-    std::array<pollfd, size> res;
+  if constexpr (select_inputs_have_static_size<Args...>()) {
+    std::array<pollfd, select_inputs_static_size<Args...>()> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
   } else {
-- 
2.43.0


From 725a675f67c3fd8040abd5344e165237d5c3cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 03/61] fix: COBS decoding of empty input threw length_error
 and a final full block lost its last byte

---
 src/arpc/packet_codecs.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..236347f 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -119,8 +119,12 @@ void cobs_codec::encode(std::string& data) {
 }
 
 void cobs_codec::decode(std::string& data) {
+  if (data.empty()) {
+    throw errors::data_mismatch("Empty COBS-encoded data");
+  }
   auto src = data.begin();
   auto dst = data.begin();
+  bool implied_zero = false;
   while (src < data.end()) {
     std::size_t count = static_cast<std::uint8_t>(*src++) - 1;
     for (std::size_t i = 0; i < count; i++) {
@@ -129,10 +133,15 @@ void cobs_codec::decode(std::string& data) {
       }
       *dst++ = *src++;
     }
-    if (count < 254) {
+    implied_zero = count < 254;
+    if (implied_zero) {
       *dst++ = '\0';
     }
   }
-  data.resize((dst - data.begin()) - 1);
+  // The zero implied by the last block is the end of the packet, not data.
+  if (implied_zero) {
+    --dst;
+  }
+  data.resize(dst - data.begin());
 }
 }  // namespace arpc
-- 
2.43.0


From 6308b291d75487d2ef6e7fabdefd3e73a04ce24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 04/61] fix: sizes and ids of 128 and above were decoded with
 their 7-bit groups swapped

---
 src/arpc/binary_codecs.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..e521d4d 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -594,11 +595,17 @@ class binary_decoder {
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
     std::size_t l = 0;
+    std::size_t shift = 0;
     uint8_t o;
     do {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
+      const std::size_t bits = static_cast<std::size_t>(o) & 0x7f;
+      if (shift >= std::numeric_limits<std::size_t>::digits ||
+          ((bits << shift) >> shift) != bits) {
+        throw errors::data_mismatch("Integer too long in stream");
+      }
+      l |= bits << shift;
+      shift += 7;
     } while ((o & 0x80) != 0);
     return l;
   }
-- 
2.43.0


From aaaf7cddf0d0100ddc124e13ab62ad86f0a6eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 05/61] fix: decoding a bool from a byte other than 0 and 1 was
 undefined behaviour

---
 src/arpc/binary_codecs.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index e521d4d..1a1e25b 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -22,6 +22,7 @@
 #ifndef ARPC_BINARY_CODECS_H_
 #define ARPC_BINARY_CODECS_H_
 
+#include <algorithm>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -773,6 +774,14 @@ class binary_decoder {
   std::enable_if_t<!reverse_bytes || sizeof(T) == 1, void> read_block(
       T* p, std::size_t l) {
     in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
+    if constexpr (std::is_same_v<T, bool>) {
+      // Loading any other representation as a bool is undefined.
+      const auto* bytes = reinterpret_cast<const unsigned char*>(p);
+      if (std::any_of(bytes, bytes + l, [](unsigned char b) { return b > 1; })) {
+        std::fill_n(p, l, false);
+        throw errors::data_mismatch("Wrong boolean value in stream");
+      }
+    }
   }
 
   std::vector<seen_class_info> class_info_vector_;
-- 
2.43.0


From a6b2b52dd5baeaaa8cc17a596c590ae16454cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 06/61] fix: sharing between pointers to different bases of a
 dynamic object was lost or crashed the decoder

---
 src/arpc/binary_codecs.h | 13 +++++++++----
 src/arpc/registry.h      | 28 ++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 1a1e25b..077359f 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -162,11 +162,12 @@ class binary_encoder {
       return;
     }
 
-    auto it = shared_object_map_.find(p.get());
+    const void* address = registry::shared_object_address(p.get());
+    auto it = shared_object_map_.find(address);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(p.get(), next_object_id).first;
+      it = shared_object_map_.emplace(address, next_object_id).first;
       first_time = true;
     }
     write_variant(it->second);
@@ -360,7 +361,9 @@ class binary_decoder {
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      // Keep the address that check_dynamic_compatibility() expects.
+      ptr_ = std::shared_ptr<void>(
+          ptr, registry::shared_object_address(ptr.get()));
     }
 
    private:
@@ -567,7 +570,9 @@ class binary_decoder {
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      p = std::shared_ptr<T>(
+          object_info.ptr,
+          registry::from_shared_object_address<T>(object_info.ptr.get()));
     }
   }
 
diff --git a/src/arpc/registry.h b/src/arpc/registry.h
index b12ab4c..ce266e8 100644
--- a/src/arpc/registry.h
+++ b/src/arpc/registry.h
@@ -27,6 +27,7 @@
 #include <memory>
 #include <set>
 #include <string_view>
+#include <type_traits>
 #include <vector>
 #include "arpc/container/flat_map.h"
 #include "arpc/container/flat_set.h"
@@ -214,6 +215,33 @@ std::enable_if_t<is_dynamic_v<T>, bool> check_dynamic_compatibility(void* obj) {
       (static_cast<::arpc::dynamic_base_class*>(obj))->portable_class_name());
 }
 
+// Type-erased address of a shared object. Pointers to different base classes
+// of one dynamic object may hold different addresses, so the one of its
+// dynamic_base_class is what identifies it.
+template <typename T>
+auto shared_object_address(T* obj) {
+  if constexpr (is_dynamic_v<T>) {
+    using base_type = std::conditional_t<std::is_const_v<T>,
+                                         const ::arpc::dynamic_base_class,
+                                         ::arpc::dynamic_base_class>;
+    using void_type =
+        std::conditional_t<std::is_const_v<T>, const void, void>;
+    return static_cast<void_type*>(static_cast<base_type*>(obj));
+  } else {
+    return obj;
+  }
+}
+
+// Get back a typed pointer from the type-erased address of a shared object.
+template <typename T>
+T* from_shared_object_address(void* obj) {
+  if constexpr (is_dynamic_v<T>) {
+    return static_cast<T*>(static_cast<::arpc::dynamic_base_class*>(obj));
+  } else {
+    return static_cast<T*>(obj);
+  }
+}
+
 }  // namespace registry
 
 }  // namespace arpc
-- 
2.43.0


From 02e9ec8bb3e75485aeb245b3994f818efe2ac44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 07/61] fix: COBS decoding took zeros inside of a block as data

---
 src/arpc/packet_codecs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index 236347f..7000e48 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -131,6 +131,9 @@ void cobs_codec::decode(std::string& data) {
       if (src >= data.end()) {
         throw errors::data_mismatch("Truncated COBS-encoded data");
       }
+      if (!*src) {
+        throw errors::data_mismatch("Zero in COBS-encoded data");
+      }
       *dst++ = *src++;
     }
     implied_zero = count < 254;
-- 
2.43.0


From 40c925a7a7378d50b48682d2db43744b2302f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 08/61] fix: flat containers built from ranges longer than 16
 kept an arbitrary one of several equal keys

---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..ce598ea 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -175,7 +175,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -191,7 +191,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -211,7 +211,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From 5033230be9202a219d08da566fb603771c510e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 09/61] fix: flat containers lost their comparator and copied
 their elements when copied, moved or swapped

---
 src/arpc/container/detail/flat_tree.h | 33 +++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index ce598ea..16b9427 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -162,15 +162,24 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    underlying_container::swap(other);
+    std::swap(comp_, other.comp_);
+    std::swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
-    underlying_container::operator=(std::forward<flat_tree>(other));
+    underlying_container::operator=(
+        static_cast<underlying_container&&>(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -186,7 +195,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   explicit flat_tree(const Compare& comp, const Allocator& alloc = Allocator())
       : underlying_container(alloc), comp_(comp), eq_(comp) {}
   explicit flat_tree(const Allocator& alloc = Allocator())
-      : underlying_container(alloc) {}
+      : underlying_container(alloc), comp_(), eq_() {}
   template <typename InputIt>
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
@@ -197,16 +206,22 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
-                             alloc) {}
+      : underlying_container(static_cast<underlying_container&&>(other), alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
-- 
2.43.0


From e3d5d0cf46fe43f792e68deaed16a6018dbe9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 10/61] fix: emplace_hint of flat_map and flat_set did not
 compile

---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 16b9427..c0f92b4 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -312,7 +312,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, value_type(std::forward<Args>(args)...));
   }
 
   // erase
-- 
2.43.0


From d28bf160c1b1aed854d07728f5e35214fb8dc911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 11/61] fix: assigning an initializer list to a flat container
 ordered it by a default comparator

---
 src/arpc/container/flat_map.h | 8 ++++++++
 src/arpc/container/flat_set.h | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..020493d 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -49,6 +49,10 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
 
+  // Assignment from initializer lists.
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
+
   // operator []
   T& operator[](const Key& key) {
     auto it = this->lower_bound(key);
@@ -101,6 +105,10 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+
+  // Assignment from initializer lists.
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..2bfe932 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -41,6 +41,9 @@ class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+
+  // Assignment from initializer lists.
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -57,6 +60,9 @@ class flat_multiset
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+
+  // Assignment from initializer lists.
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From 906d89a5086e752af255b9af9d9fd36e91324298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 12/61] fix: std::array could not be decoded, two overloads
 were ambiguous

---
 src/arpc/binary_codecs.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 077359f..a5d2836 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -104,8 +104,9 @@ class binary_encoder {
   // Tuples, pairs and bindable aggregates.
   template <typename T>
   std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+      (mpt::is_tuple_v<T> || traits::is_bindable_aggregate_v<T>)&&!traits::
+              can_be_serialized_v<T> &&
+          !traits::is_const_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_saver(), *this);
@@ -471,8 +472,9 @@ class binary_decoder {
   // Tuples, pairs and bindable aggregates.
   template <typename T>
   std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+      (mpt::is_tuple_v<T> || traits::is_bindable_aggregate_v<T>)&&!traits::
+              can_be_serialized_v<T> &&
+          !traits::is_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
-- 
2.43.0


From d7eee85ffee3f1f53329afeb46ba54d1e8843520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 13/61] fix: a class derived from one with custom serialization
 could not be serialized without its own

---
 src/arpc/serializable_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/serializable_base.h b/src/arpc/serializable_base.h
index 891318d..ec733c2 100644
--- a/src/arpc/serializable_base.h
+++ b/src/arpc/serializable_base.h
@@ -58,6 +58,7 @@ struct serializable_mixin<false, OwnType, Bases...> : Bases... {
   void save(S& s) const = delete;
   template <typename S>
   void load(S& s) = delete;
+  using custom_serialization_version = void;
   using field_descriptors = mpt::pack<>;
 };
 
-- 
2.43.0


From 8b0c0ac091a3f15e8a3df5e4798e1bc5481f2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 14/61] fix: a failed read left bytes that are not booleans in
 arrays of bool

---
 src/arpc/binary_codecs.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index a5d2836..7f97d03 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -780,14 +780,17 @@ class binary_decoder {
   template <typename T>
   std::enable_if_t<!reverse_bytes || sizeof(T) == 1, void> read_block(
       T* p, std::size_t l) {
-    in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
     if constexpr (std::is_same_v<T, bool>) {
-      // Loading any other representation as a bool is undefined.
-      const auto* bytes = reinterpret_cast<const unsigned char*>(p);
-      if (std::any_of(bytes, bytes + l, [](unsigned char b) { return b > 1; })) {
-        std::fill_n(p, l, false);
-        throw errors::data_mismatch("Wrong boolean value in stream");
+      // Loading any other representation as a bool is undefined, so don't let
+      // unchecked bytes reach the destination.
+      for (; l > 0; l--, p++) {
+        std::uint8_t o;
+        in_.read_fully(reinterpret_cast<char*>(&o), 1);
+        if (o > 1) throw errors::data_mismatch("Wrong boolean value in stream");
+        *p = (o == 1);
       }
+    } else {
+      in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
     }
   }
 
-- 
2.43.0


From a6d5e079185dc7d4912b71fd3a0b8f39e20baf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 15/61] fix: class names read from a stream were cut at
 embedded zeros

---
 src/arpc/binary_codecs.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 7f97d03..e191493 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -641,9 +641,9 @@ class binary_decoder {
       (*this)(type_hash);
       registry::dynamic_object_factory::info class_info;
       typename registry::dynamic_decoder_registry<MyClass>::info decoder_info;
-      class_info = registry::dynamic_object_factory::get()[class_name.c_str()];
-      decoder_info = registry::dynamic_decoder_registry<
-          MyClass>::get()[class_name.c_str()];
+      class_info = registry::dynamic_object_factory::get()[class_name];
+      decoder_info =
+          registry::dynamic_decoder_registry<MyClass>::get()[class_name];
       if (type_hash != class_info.type_hash) {
         throw errors::data_mismatch("Wrong type hash in dynamic class");
       }
@@ -656,8 +656,7 @@ class binary_decoder {
     const auto& info = class_info_vector_[class_id];
 
     // Check that the subclass is compatible (slow).
-    if (!registry::dynamic_subclass_registry<T>::get().is_subclass(
-            info.class_name.c_str()))
+    if (!registry::dynamic_subclass_registry<T>::get().is_subclass(info.class_name))
       throw errors::data_mismatch(
           "The class that was read is not a subclass of pointed-to type");
 
-- 
2.43.0


From 9a679aa7911fd17c537f33a479f496e506c7bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 16/61] fix: mpt::as_pack did not compile for values and did
 not unwrap the types of a pair

---
 src/arpc/mpt.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 362945c..a5ffa8f 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -508,7 +508,7 @@ constexpr pack<typename T::type...> as_pack(std::tuple<T...>) {
 /// `std::tuple`. \return An appropriate `pack` type with the types in the
 /// tuple.
 template <typename U, typename V>
-constexpr pack<U, V> as_pack(std::pair<U, V>) {
+constexpr pack<typename U::type, typename V::type> as_pack(std::pair<U, V>) {
   return {};
 }
 
@@ -521,8 +521,8 @@ constexpr pack<U, V> as_pack(std::pair<U, V>) {
 /// \return An appropriate `pack` type with all elements of the integer type in
 /// the sequence.
 template <typename T, T... ints>
-constexpr auto as_pack(integer_sequence<T, ints...>) {
-  return as_pack(std::make_tuple(ints...));
+constexpr pack<decltype(ints)...> as_pack(integer_sequence<T, ints...>) {
+  return {};
 }
 
 /// \brief Convert an `value_sequence` value into a `pack` value.
@@ -532,8 +532,8 @@ constexpr auto as_pack(integer_sequence<T, ints...>) {
 /// \return An appropriate `pack` type with all elements of the integer type in
 /// the sequence.
 template <auto... v>
-constexpr auto as_pack(value_pack<v...>) {
-  return as_pack(std::make_tuple(v...));
+constexpr pack<decltype(v)...> as_pack(value_pack<v...>) {
+  return {};
 }
 
 template <typename... T>
-- 
2.43.0


From b2a33c4971b5563b98beaf5185f4f5306e477ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 17/61] fix: mpt::cat did not compile for named value packs and
 integer sequences, nor for negative integers

---
 src/arpc/mpt.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index a5ffa8f..8188c51 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -172,7 +172,8 @@ struct join_integer_sequences;
 template <typename T, T... is, T... js, bool adjust_values>
 struct join_integer_sequences<integer_sequence<T, is...>, integer_sequence<T, js...>,
                               adjust_values> {
-  using type = integer_sequence<T, is..., ((adjust_values ? sizeof...(is) : 0) + js)...>;
+  using type =
+      integer_sequence<T, is..., static_cast<T>((adjust_values ? sizeof...(is) : 0) + js)...>;
 };
 
 template <typename T, std::size_t n>
@@ -946,9 +947,10 @@ constexpr auto cat(Args&&... args) {
   } else if constexpr (detail::all_packs<Args...>) {
     return as_pack(std::tuple_cat(as_tuple(std::forward<Args>(args))...));
   } else if constexpr (detail::all_value_packs<Args...>) {
-    return typename detail::value_pack_cat_helper<Args...>::type{};
+    return typename detail::value_pack_cat_helper<traits::remove_cvref_t<Args>...>::type{};
   } else if constexpr (detail::all_integer_sequences<Args...>) {
-    return typename detail::integer_sequence_cat_helper<Args...>::type{};
+    return typename detail::integer_sequence_cat_helper<
+        traits::remove_cvref_t<Args>...>::type{};
   }
 }
 
-- 
2.43.0


From 1720d2d3e8a478ae29f5eda8dd579633cf38669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 18/61] fix: mpt::transform called the functor on the elements
 in reverse order

---
 src/arpc/mpt.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 8188c51..88062e2 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -646,7 +646,9 @@ constexpr void for_each(T&& v, index_sequence<ints...>, F f, Args&&... a) {
 template <typename T, typename F, std::size_t... ints, typename... Args>
 constexpr auto transform(T&& v, index_sequence<ints...>, F f, Args&&... a) {
   (void)f;
-  return std::make_tuple(f(at<ints>(std::forward<T>(v)), a...)...);
+  // Function arguments have no order of evaluation, initializer lists do.
+  using result_type = decltype(std::make_tuple(f(at<ints>(std::forward<T>(v)), a...)...));
+  return result_type{f(at<ints>(std::forward<T>(v)), a...)...};
 }
 }  // namespace detail
 
-- 
2.43.0


From 1b9b17ef0b4debb7c7583f1b14a53776fa40047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 19/61] fix: mpt::is_value took a value for another when
 converting it made them equal

---
 src/arpc/mpt.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 88062e2..d8f4754 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -959,7 +959,11 @@ constexpr auto cat(Args&&... args) {
 // Check whether the passed value is v.
 template <auto v>
 struct is_value {
-  constexpr bool operator()(const decltype(v)& w) { return w == v; }
+  // A template, as a conversion to the type of v could change the value.
+  template <typename T>
+  constexpr auto operator()(const T& w) -> decltype(w == v) {
+    return w == v;
+  }
   constexpr bool operator()(...) { return false; }
 };
 // Check whether the passed wrapped type is T.
-- 
2.43.0


From 573966f79db5b5fbf1b6126cab58705bce6c09c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 20/61] fix: mpt::subset and mpt::range of an rvalue tuple
 moved from the objects its references refer to

---
 src/arpc/mpt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index d8f4754..3fe3a6c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -730,7 +730,7 @@ constexpr auto subset(const std::tuple<T...>& t, index_sequence<idxs...>) {
 /// indices.
 template <typename... T, std::size_t... idxs>
 constexpr auto subset(std::tuple<T...>&& t, index_sequence<idxs...>) {
-  return std::make_tuple(std::move(at<idxs>(t))...);
+  return std::tuple<std::tuple_element_t<idxs, std::tuple<T...>>...>(at<idxs>(std::move(t))...);
 }
 /// Return a new tuple containing a subset of the fields as determined by the
 /// passed index sequence.
@@ -771,7 +771,7 @@ constexpr auto subset(const std::pair<U, V>& t, index_sequence<idxs...>) {
 /// indices.
 template <typename U, typename V, std::size_t... idxs>
 constexpr auto subset(std::pair<U, V>&& t, index_sequence<idxs...>) {
-  return std::make_tuple(std::move(at<idxs>(t))...);
+  return std::tuple<std::tuple_element_t<idxs, std::pair<U, V>>...>(at<idxs>(std::move(t))...);
 }
 /// Return a new tuple containing a subset of the fields as determined by the
 /// passed index sequence.
-- 
2.43.0


From 7dbc582e4f4b0df103aea1235252f7b9bfcfb931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 21/61] fix: make ARPC_ENUM compile

---
 src/arpc/enum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/enum.h b/src/arpc/enum.h
index db42cb9..d7a14b7 100644
--- a/src/arpc/enum.h
+++ b/src/arpc/enum.h
@@ -65,10 +65,10 @@ struct enum_names {
     ARPC_FOREACH(ARPC_ENUM_ENTRY_IN_BODY, ARPC_ENUM_ENTRY_SEP, __VA_ARGS__)  \
   };                                                                         \
   template <>                                                                \
-  const std::size_t::arpc::enum_names<NAME>::size =                          \
+  const std::size_t arpc::enum_names<NAME>::size =                           \
       ARPC_ARG_COUNT(__VA_ARGS__);                                           \
   template <>                                                                \
-  const char* ::arpc::enum_names<NAME>::unknown_name = UNKNOWN_NAME;         \
+  const char* arpc::enum_names<NAME>::unknown_name = UNKNOWN_NAME;           \
   template <>                                                                \
   const std::pair<typename ::arpc::enum_names<NAME>::base_type, const char*> \
       arpc::enum_names<NAME>::entries[] = {ARPC_FOREACH(                     \
-- 
2.43.0


From 2bcdd37979ad7ae22aec49f74b8619b8bf778b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 22/61] fix: report the version in
 get_custom_serialization_version_v

---
 src/arpc/traits/serialization_traits.h | 3 ++-
 src/arpc/type_hash.h                   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arpc/traits/serialization_traits.h b/src/arpc/traits/serialization_traits.h
index ceca53e..6e8d848 100644
--- a/src/arpc/traits/serialization_traits.h
+++ b/src/arpc/traits/serialization_traits.h
@@ -147,7 +147,8 @@ struct get_custom_serialization_version<
 
 template <typename T>
 inline constexpr custom_serialization_version_type
-    get_custom_serialization_version_v = has_custom_serialization<T>::value;
+    get_custom_serialization_version_v =
+        get_custom_serialization_version<T>::value;
 
 /// \brief Check if a type `T` can be serialized.
 /// The result is `true` if the type either has field descriptors defined or
diff --git a/src/arpc/type_hash.h b/src/arpc/type_hash.h
index dc9a67a..0d9b491 100644
--- a/src/arpc/type_hash.h
+++ b/src/arpc/type_hash.h
@@ -168,7 +168,7 @@ struct new_type_hash {
               type_family::CLASS, false,
               static_cast<std::size_t>(mpt::size_v<get_base_classes_t<T>> +
                                        mpt::size_v<get_field_descriptors_t<T>> +
-                                       get_custom_serialization_version_v<T>)),
+                                       has_custom_serialization_v<T>)),
           type_hash_leaf(type_family::BASE_CLASS, false,
                          mpt::size_v<get_base_classes_t<T>>),
           type_hash_v<get_base_classes_t<T>, Seen>,
@@ -176,7 +176,7 @@ struct new_type_hash {
                          mpt::size_v<get_field_descriptors_t<T>>),
           type_hash_v<get_field_descriptors_t<T>, Seen>,
           type_hash_leaf(type_family::CUSTOM_SERIALIZATION, false,
-                         get_custom_serialization_version_v<T>));
+                         has_custom_serialization_v<T>));
     } else if constexpr (is_bindable_aggregate_v<T>) {
       // Hash as a tuple.
       return type_hash_v<decltype(mpt::as_tuple(std::declval<T>()))>;
-- 
2.43.0


From 6ca1b7e82010eca013281b97b25d427a72dec23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 23/61] fix: let class templates derive from serializable
 classes

---
 src/arpc/serializable_base.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/serializable_base.h b/src/arpc/serializable_base.h
index ec733c2..5b5c911 100644
--- a/src/arpc/serializable_base.h
+++ b/src/arpc/serializable_base.h
@@ -42,6 +42,13 @@ struct dynamic_class_filter {
   }
 };
 
+/// Whether any of the bases is dynamic. It depends on `OwnType` so that it isn't
+/// evaluated while a class template with non-dependent bases is being parsed.
+template <typename OwnType, typename... Bases>
+struct has_dynamic_base
+    : std::bool_constant<((mpt::count_if_v<mpt::pack<Bases...>,
+                                           dynamic_class_filter>) > 0)> {};
+
 template <bool dynamic, typename OwnType, typename... Bases>
 struct serializable_mixin;
 
@@ -91,14 +98,14 @@ struct field_descriptor : public traits::member_data_pointer_traits<mptr> {
 /// public bases.
 template <typename OwnType, typename... Bases>
 using serializable = detail::serializable_mixin<
-    ((mpt::count_if_v<mpt::pack<Bases...>, detail::dynamic_class_filter>) > 0),
+    detail::has_dynamic_base<OwnType, Bases...>::value,
     OwnType, Bases...>;
 
 /// Inherit publicly from this in dynamic classes, specifying own type and
 /// public bases.
 template <typename OwnType, typename... Bases>
 using dynamic = std::conditional_t<
-    ((mpt::count_if_v<mpt::pack<Bases...>, detail::dynamic_class_filter>) > 0),
+    detail::has_dynamic_base<OwnType, Bases...>::value,
     serializable<OwnType, Bases...>,
     serializable<OwnType, ::arpc::dynamic_base_class, Bases...>>;
 
-- 
2.43.0


From e1c190ac4f59187cb9cca9a1b6348f39acb7e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 24/61] fix: copy from lvalues in the constructor of
 result_holder

---
 src/arpc/result_holder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 7da2c6d..274103c 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -76,7 +76,7 @@ class result_holder : public serializable<result_holder<T>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
   template <typename U>
-  explicit result_holder(U&& u) : value_(std::move(u)) {}
+  explicit result_holder(U&& u) : value_(std::forward<U>(u)) {}
 
   template <typename U>
   void set_value(U&& u) {
-- 
2.43.0


From c477dcabe0a0be8ebc61ee07ad4f33b1546ceafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:46 +0000
Subject: [PATCH 25/61] fix: let a result_holder hold what was set last

---
 src/arpc/result_holder.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 274103c..1fe3317 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -81,9 +81,13 @@ class result_holder : public serializable<result_holder<T>> {
   template <typename U>
   void set_value(U&& u) {
     value_ = std::forward<U>(u);
+    exception_ = nullptr;
   }
 
-  void set_exception(std::exception_ptr exception) { exception_ = exception; }
+  void set_exception(std::exception_ptr exception) {
+    exception_ = exception;
+    value_.reset();
+  }
 
   constexpr explicit operator bool() const noexcept {
     return value_ || exception_;
@@ -223,9 +227,15 @@ class result_holder<void> : public serializable<result_holder<void>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
 
-  void set_value() { value_ = true; }
+  void set_value() {
+    value_ = true;
+    exception_ = nullptr;
+  }
 
-  void set_exception(std::exception_ptr exception) { exception_ = exception; }
+  void set_exception(std::exception_ptr exception) {
+    exception_ = exception;
+    value_ = false;
+  }
 
   constexpr explicit operator bool() const noexcept {
     return value_ || exception_;
-- 
2.43.0


From 5c7c8889c820110c5daf817c922fdbc0c1b67fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 26/61] fix: destroy address storage as the type it was created
 with

---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 16aebb0..10289b3 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -108,7 +108,7 @@ address::address(address&& other)
 
 address::~address() {
   assert(ai_next == this);
-  delete ai_addr;
+  delete reinterpret_cast<struct sockaddr_storage*>(ai_addr);
 }
 
 int& address::family() { return ai_family; }
-- 
2.43.0


From 5bb69585bbc366555e3562c3f12fc8358f8e71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 27/61] fix: set and reset flags without going through the
 current context

---
 src/arpc/flag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..60ae2be 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,7 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +44,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
-- 
2.43.0


From c938b1eaf634f1fd0c7df3cad18b669c155a70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 28/61] fix: keep waiting when a signal interrupts select

---
 src/arpc/select.h | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 70c96ef..772bf20 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -27,6 +27,7 @@
 #else  // ESP_PLATFORM
 #include <sys/poll.h>
 #endif  // ESP_PLATFORM
+#include <errno.h>
 #include <algorithm>
 #include <array>
 #include <chrono>
@@ -273,23 +274,25 @@ template <typename... Args>
     auto fds(detail::make_select_pollfds(a));
 
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
-    if (pres < 0) throw_io_error("Error in select");
-
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                        min_timeout_is_polling, mpt::make_index_sequence<n>{}));
-
-    bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
-      return so_far || detail::select_output<decltype(val)>::is_active(val);
-    });
-    if (active) {
-      auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-      if (cancelled) {
-        *cancelled;
-      }
-      if (deadline_exceeded) {
-        *deadline_exceeded;
+    if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
+
+    if (pres >= 0) {
+      auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
+                                          min_timeout_is_polling, mpt::make_index_sequence<n>{}));
+
+      bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
+        return so_far || detail::select_output<decltype(val)>::is_active(val);
+      });
+      if (active) {
+        auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
+        if (cancelled) {
+          *cancelled;
+        }
+        if (deadline_exceeded) {
+          *deadline_exceeded;
+        }
+        return mpt::range<0, n - 2>(std::move(res));
       }
-      return mpt::range<0, n - 2>(std::move(res));
     }
 
     auto now = std::chrono::steady_clock::now();
-- 
2.43.0


From 9849790bac93c1f9fb41d0a83f67452a98ae540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 29/61] fix: run no reaction in select once its context is over

---
 src/arpc/select.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 772bf20..ac961c8 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -209,9 +209,9 @@ template <typename... Args>
 constexpr std::size_t select_inputs_static_size() {
   return (0 + ... + select_input<Args>::static_size);
 }
-template <typename... Args, std::size_t... ints>
+template <typename... Args, typename... AllArgs, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
-    std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
+    std::tuple<AllArgs...>& awaitables, const pollfd* pollfds, bool was_timeout,
     std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
     mpt::index_sequence<ints...>) {
   return {std::move(select_input<Args>::make_result(
@@ -277,21 +277,30 @@ template <typename... Args>
     if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
 
     if (pres >= 0) {
-      auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                          min_timeout_is_polling, mpt::make_index_sequence<n>{}));
+      // The end of the context comes first: once it's over, no other reaction may take effect, as its
+      // result couldn't be returned.
+      const pollfd* context_fds = fds.data() + (fds.size() - 2);
+      auto cancelled(detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
+                                                    min_timeout, min_timeout_is_polling));
+      if (cancelled) {
+        *cancelled;
+      }
+      auto deadline_exceeded(detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1],
+                                                            pres == 0, min_timeout,
+                                                            min_timeout_is_polling));
+      if (deadline_exceeded) {
+        *deadline_exceeded;
+      }
+
+      auto res(detail::make_select_result<Args...>(a, fds.data(), pres == 0, min_timeout,
+                                                   min_timeout_is_polling,
+                                                   mpt::make_index_sequence<n - 2>{}));
 
       bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
         return so_far || detail::select_output<decltype(val)>::is_active(val);
       });
       if (active) {
-        auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-        if (cancelled) {
-          *cancelled;
-        }
-        if (deadline_exceeded) {
-          *deadline_exceeded;
-        }
-        return mpt::range<0, n - 2>(std::move(res));
+        return res;
       }
     }
 
-- 
2.43.0


From e7a2b04a5c9b4825d658503b78bfc8f2548a39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 30/61] fix: let timeouts run on and polling start over while
 select retries

---
 src/arpc/select.h | 72 +++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index ac961c8..155a479 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -47,15 +47,30 @@ namespace arpc {
 
 namespace detail {
 
+// Time passed since the start of the select, for timeouts, and since the last poll, for polling.
+struct select_elapsed {
+  std::chrono::milliseconds total = std::chrono::milliseconds::zero();
+  std::chrono::milliseconds polling = std::chrono::milliseconds::zero();
+};
+
+template <typename A>
+std::chrono::milliseconds select_timeout_left(const A& a, const select_elapsed& elapsed) {
+  if (a.timeout() < std::chrono::milliseconds::zero()) return a.timeout();
+  return std::max(a.timeout() - (a.for_polling() ? elapsed.polling : elapsed.total),
+                  std::chrono::milliseconds::zero());
+}
+
 template <typename A>
 result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd& fd,
                                                               bool was_timeout,
+                                                              const select_elapsed& elapsed,
                                                               std::chrono::milliseconds min_timeout,
                                                               bool min_timeout_is_polling) {
   bool active;
   if (was_timeout) {
-    active = (a.timeout() >= std::chrono::milliseconds::zero() &&
-              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));
+    auto timeout = select_timeout_left(a, elapsed);
+    active = (timeout >= std::chrono::milliseconds::zero() &&
+              (timeout <= min_timeout || (min_timeout_is_polling && a.for_polling())));
   } else {
     active = (fd.revents != 0);
   }
@@ -98,22 +113,17 @@ struct select_input_helper<awaitable<T>> {
   static constexpr std::size_t static_size = 1;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
+                                 const select_elapsed& elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
-    return make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling);
+    return make_one_select_result(a, *fd, was_timeout, elapsed, min_timeout,
+                                  min_timeout_is_polling);
   }
   static void fill_fds(const awaitable<T>& a, pollfd* fds) { *fds = make_pollfd(a); }
-  static auto timeout_info(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
-    auto timeout = a.timeout();
+  static auto timeout_info(const awaitable<T>& a, const select_elapsed& elapsed) {
     bool is_polling = a.for_polling();
 
-    if (timeout >= std::chrono::milliseconds::zero()) {
-      if (is_polling) {
-        timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-      }
-    }
-
-    return std::pair(timeout, is_polling);
+    return std::pair(select_timeout_left(a, elapsed), is_polling);
   }
 };
 
@@ -123,13 +133,14 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   static constexpr bool has_static_size = false;
   static constexpr std::size_t size(const std::vector<awaitable<T>>& v) { return v.size(); }
   static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd, bool was_timeout,
+                                 const select_elapsed& elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
     result_type res;
     res.reserve(v.size());
     for (auto& a : v) {
-      res.push_back(
-          make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));
+      res.push_back(make_one_select_result(a, *fd++, was_timeout, elapsed, min_timeout,
+                                           min_timeout_is_polling));
     }
     return res;
   }
@@ -138,18 +149,15 @@ struct select_input_helper<std::vector<awaitable<T>>> {
       *fds++ = make_pollfd(a);
     }
   }
-  static auto timeout_info(const std::vector<awaitable<T>>& v, std::chrono::milliseconds elapsed) {
+  static auto timeout_info(const std::vector<awaitable<T>>& v, const select_elapsed& elapsed) {
     auto min_timeout = std::chrono::milliseconds(-1);
     bool min_timeout_is_polling = false;
 
     for (const auto& a : v) {
-      auto timeout = a.timeout();
+      auto timeout = select_timeout_left(a, elapsed);
       bool is_polling = a.for_polling();
 
       if (timeout >= std::chrono::milliseconds::zero()) {
-        if (is_polling) {
-          timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-        }
         if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
           min_timeout = timeout;
           min_timeout_is_polling = is_polling;
@@ -212,11 +220,12 @@ constexpr std::size_t select_inputs_static_size() {
 template <typename... Args, typename... AllArgs, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<AllArgs...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
+    const select_elapsed& elapsed, std::chrono::milliseconds min_timeout,
+    bool min_timeout_is_polling,
     mpt::index_sequence<ints...>) {
   return {std::move(select_input<Args>::make_result(
       mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
-      min_timeout, min_timeout_is_polling))...};
+      elapsed, min_timeout, min_timeout_is_polling))...};
 }
 
 template <typename... Args, std::size_t... ints>
@@ -251,13 +260,14 @@ template <typename... Args>
                                                                  current_context.wait_cancelled(),
                                                                  current_context.wait_deadline());
 
-  std::chrono::milliseconds elapsed = std::chrono::milliseconds::zero();
-  auto last = std::chrono::steady_clock::now();
+  detail::select_elapsed elapsed;
+  auto start = std::chrono::steady_clock::now();
+  auto last_poll = start;
 
   do {
     // Find whether we have a timeout to apply, and whether it's a polling one.
     auto [min_timeout, min_timeout_is_polling] = mpt::accumulate(
-        std::pair(std::chrono::milliseconds(-1), false), a, [elapsed](auto prev, const auto& a) {
+        std::pair(std::chrono::milliseconds(-1), false), a, [&elapsed](auto prev, const auto& a) {
           auto& [min_timeout, min_timeout_is_polling] = prev;
           auto [timeout, is_polling] = detail::select_input<decltype(a)>::timeout_info(a, elapsed);
 
@@ -281,19 +291,20 @@ template <typename... Args>
       // result couldn't be returned.
       const pollfd* context_fds = fds.data() + (fds.size() - 2);
       auto cancelled(detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
-                                                    min_timeout, min_timeout_is_polling));
+                                                    elapsed, min_timeout,
+                                                    min_timeout_is_polling));
       if (cancelled) {
         *cancelled;
       }
       auto deadline_exceeded(detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1],
-                                                            pres == 0, min_timeout,
+                                                            pres == 0, elapsed, min_timeout,
                                                             min_timeout_is_polling));
       if (deadline_exceeded) {
         *deadline_exceeded;
       }
 
-      auto res(detail::make_select_result<Args...>(a, fds.data(), pres == 0, min_timeout,
-                                                   min_timeout_is_polling,
+      auto res(detail::make_select_result<Args...>(a, fds.data(), pres == 0, elapsed,
+                                                   min_timeout, min_timeout_is_polling,
                                                    mpt::make_index_sequence<n - 2>{}));
 
       bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
@@ -305,8 +316,9 @@ template <typename... Args>
     }
 
     auto now = std::chrono::steady_clock::now();
-    elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-    last = now;
+    if (pres == 0 && min_timeout_is_polling) last_poll = now;
+    elapsed.total = std::chrono::duration_cast<std::chrono::milliseconds>(now - start);
+    elapsed.polling = std::chrono::duration_cast<std::chrono::milliseconds>(now - last_poll);
   } while (true);
 }
 
-- 
2.43.0


From d680ce85539e83c4625c97e06b5bbeee6dd55062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 31/61] fix: fire expired timeouts in select even if a
 descriptor stays spuriously ready

---
 src/arpc/select.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 155a479..8d6a275 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -66,13 +66,11 @@ result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd
                                                               const select_elapsed& elapsed,
                                                               std::chrono::milliseconds min_timeout,
                                                               bool min_timeout_is_polling) {
-  bool active;
+  bool active = (fd.revents != 0);
   if (was_timeout) {
     auto timeout = select_timeout_left(a, elapsed);
-    active = (timeout >= std::chrono::milliseconds::zero() &&
-              (timeout <= min_timeout || (min_timeout_is_polling && a.for_polling())));
-  } else {
-    active = (fd.revents != 0);
+    active |= (timeout >= std::chrono::milliseconds::zero() &&
+               (timeout <= min_timeout || (min_timeout_is_polling && a.for_polling())));
   }
 
   result_holder<typename A::return_type> res;
@@ -263,6 +261,7 @@ template <typename... Args>
   detail::select_elapsed elapsed;
   auto start = std::chrono::steady_clock::now();
   auto last_poll = start;
+  bool was_spurious = false;
 
   do {
     // Find whether we have a timeout to apply, and whether it's a polling one.
@@ -286,11 +285,15 @@ template <typename... Args>
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
     if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
 
+    // Timeouts that are over don't wait any longer for something that looks ready, but isn't.
+    bool was_timeout =
+        (pres == 0) || (pres > 0 && was_spurious && min_timeout == std::chrono::milliseconds::zero());
+
     if (pres >= 0) {
       // The end of the context comes first: once it's over, no other reaction may take effect, as its
       // result couldn't be returned.
       const pollfd* context_fds = fds.data() + (fds.size() - 2);
-      auto cancelled(detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
+      auto cancelled(detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], was_timeout,
                                                     elapsed, min_timeout,
                                                     min_timeout_is_polling));
       if (cancelled) {
@@ -303,7 +306,7 @@ template <typename... Args>
         *deadline_exceeded;
       }
 
-      auto res(detail::make_select_result<Args...>(a, fds.data(), pres == 0, elapsed,
+      auto res(detail::make_select_result<Args...>(a, fds.data(), was_timeout, elapsed,
                                                    min_timeout, min_timeout_is_polling,
                                                    mpt::make_index_sequence<n - 2>{}));
 
@@ -316,7 +319,8 @@ template <typename... Args>
     }
 
     auto now = std::chrono::steady_clock::now();
-    if (pres == 0 && min_timeout_is_polling) last_poll = now;
+    if (was_timeout && min_timeout_is_polling) last_poll = now;
+    was_spurious = (pres > 0);
     elapsed.total = std::chrono::duration_cast<std::chrono::milliseconds>(now - start);
     elapsed.polling = std::chrono::duration_cast<std::chrono::milliseconds>(now - last_poll);
   } while (true);
-- 
2.43.0


From 5089dac509a91435c7d1a93755cb80e6d9ae4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 32/61] fix: round timeouts and deadlines up to whole
 milliseconds

---
 src/arpc/awaitable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 1871208..c478381 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -107,19 +107,19 @@ awaitable<void> always();
 template <typename Rep, typename Period>
 awaitable<void> timeout(const std::chrono::duration<Rep, Period>& duration) {
   return awaitable<void>(
-      std::chrono::duration_cast<std::chrono::milliseconds>(duration));
+      std::chrono::ceil<std::chrono::milliseconds>(duration));
 }
 
 template <typename Rep, typename Period>
 awaitable<void> polling(const std::chrono::duration<Rep, Period>& duration) {
   return awaitable<void>(
-      std::chrono::duration_cast<std::chrono::milliseconds>(duration), true);
+      std::chrono::ceil<std::chrono::milliseconds>(duration), true);
 }
 
 template <typename Clock, typename Duration>
 awaitable<void> deadline(const std::chrono::time_point<Clock, Duration>& when) {
   std::chrono::milliseconds delta =
-      std::chrono::duration_cast<std::chrono::milliseconds>(
+      std::chrono::ceil<std::chrono::milliseconds>(
           when - std::chrono::system_clock::now());
   return awaitable<void>(std::max(std::chrono::milliseconds::zero(), delta));
 }
-- 
2.43.0


From 6f1fe5c40eb11b1e044124fc89a2f00bd97deb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 33/61] fix: queue::empty is true when the queue is empty

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From ef488878e6a94047f2d9d77522f8f1dc683f8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 34/61] fix: make a future ready when its promise is set from a
 result

---
 src/arpc/future.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..b27d535 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,7 +75,11 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
@@ -107,7 +111,11 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 593815bd3d3ef2b9e1748cba704b86d8203c23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 35/61] fix: break the old promise when it is overwritten by
 move assignment

---
 src/arpc/future.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index b27d535..fb560da 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -316,7 +316,13 @@ class promise {
   using value_type = T;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // The old state, if any, goes away with the temporary promise.
+    promise<value_type> tmp(std::move(other));
+    std::swap(state_, tmp.state_);
+    std::swap(future_, tmp.future_);
+    return *this;
+  }
 
   promise()
       : state_(
@@ -364,7 +370,13 @@ class promise<void> {
   using value_type = void;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // The old state, if any, goes away with the temporary promise.
+    promise<value_type> tmp(std::move(other));
+    std::swap(state_, tmp.state_);
+    std::swap(future_, tmp.future_);
+    return *this;
+  }
 
   promise()
       : state_(
-- 
2.43.0


From bf2121cc1cf798c87295d750d9a5b09d258b3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 36/61] fix: make future::except compile

---
 src/arpc/future.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index fb560da..c266214 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -175,7 +175,8 @@ class future {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(std::move(get_fn_),
+                                                     std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -262,7 +263,8 @@ class future<void> {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(std::move(get_fn_),
+                                                     std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From f2baffb7bf9865a6f701658ea0c38babc64d4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 37/61] fix: notify a context of a lost child before it can be
 destroyed

---
 src/arpc/context.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..83427d3 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -78,10 +78,9 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  // Notify under the lock: once it's released, this may be destroyed.
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
   child_detached_.notify_one();
 }
 
-- 
2.43.0


From cd0e4ed407aa223b660457a921a0db80b23e23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:23 +0000
Subject: [PATCH 38/61] fix: let a context wait for its children before its
 parent forgets it

---
 src/arpc/context.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 83427d3..5cfb854 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -62,11 +62,14 @@ context::context(root)
 context::~context() {
   cancel();
 
+  {
+    // Stay with the parent until then, as it waits for all its descendants.
+    std::unique_lock lock(children_mu_);
+    child_detached_.wait(lock, [this]() { return children_.empty(); });
+  }
+
   if (parent_) parent_->remove_child(this);
   if (set_current_) current_ = previous_;
-
-  std::unique_lock lock(children_mu_);
-  child_detached_.wait(lock, [this]() { return children_.empty(); });
 }
 
 void context::add_child(context* child) {
-- 
2.43.0


From 7747407a608423c92c610aea79e5d0243b9df237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:16 +0000
Subject: [PATCH 39/61] fix: reject null data objects when loading a context

---
 src/arpc/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 5cfb854..cc0f6ba 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -159,6 +159,9 @@ std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  for (const auto& it : new_data) {
+    if (!it) throw errors::data_mismatch("Null context data object");
+  }
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From 6581c78e84e65cf03dab5e4c5e4ffd491e3b9e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:18 +0000
Subject: [PATCH 40/61] fix: saturate context deadlines the system clock cannot
 represent

---
 src/arpc/context.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index cc0f6ba..4dd6977 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -20,11 +20,19 @@
 ///   under the License.
 
 #include "arpc/context.h"
+#include <algorithm>
 #include <utility>
 #include "arpc/errors.h"
 
 namespace arpc {
 
+namespace {
+context::time_point max_deadline() {
+  return std::chrono::time_point_cast<context::duration>(
+      std::chrono::system_clock::time_point::max());
+}
+}  // namespace
+
 thread_local context* context::current_ = nullptr;
 
 context& context::current() {
@@ -129,6 +137,8 @@ awaitable<void> context::wait_deadline() {
 }
 
 void context::set_deadline(time_point when) {
+  // Keep deadlines within what the system clock itself can represent.
+  when = std::clamp(when, time_point(), max_deadline());
   std::scoped_lock lock(data_mu_);
   if (!deadline_ || *deadline_ > when) {
     deadline_ = when;
@@ -136,8 +146,11 @@ void context::set_deadline(time_point when) {
 }
 
 void context::set_timeout(duration timeout) {
-  set_deadline(std::chrono::time_point_cast<context::duration>(
-      std::chrono::system_clock::now() + timeout));
+  const auto now =
+      std::chrono::time_point_cast<duration>(std::chrono::system_clock::now());
+  // Saturate, as the timeout may come from a remote peer.
+  set_deadline(now + std::clamp(timeout, time_point() - now,
+                                max_deadline() - now));
 }
 
 void context::reset_all() {
-- 
2.43.0


From 0bb49bbc852463234d52f49b3d8a6ccf8feb9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 41/61] fix: hold the lock of the data of a context wherever it
 is read

---
 src/arpc/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 4dd6977..7fd2f9a 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -51,6 +51,7 @@ context::context(context& parent, bool set_current, bool shield)
     if (!shield) {
       parent_->add_child(this);
     }
+    std::scoped_lock lock(parent_->data_mu_);
     deadline_ = parent_->deadline_;
     data_ = parent_->data_;
   }
@@ -160,9 +161,9 @@ void context::reset_all() {
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
-  res.reserve(data_.size());
   {
     std::scoped_lock lock(data_mu_);
+    res.reserve(data_.size());
     for (auto it : data_) {
       res.push_back(it.second);
     }
@@ -175,6 +176,7 @@ void context::set_data(
   for (const auto& it : new_data) {
     if (!it) throw errors::data_mismatch("Null context data object");
   }
+  std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From 9a9ab6d61bc186e99555e7a7fb8533b73625ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 42/61] fix: let the deadline of the context and expired
 timeouts in select fire without joining ready descriptors

---
 src/arpc/select.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 8d6a275..cd5eb2b 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -261,7 +261,6 @@ template <typename... Args>
   detail::select_elapsed elapsed;
   auto start = std::chrono::steady_clock::now();
   auto last_poll = start;
-  bool was_spurious = false;
 
   do {
     // Find whether we have a timeout to apply, and whether it's a polling one.
@@ -285,11 +284,9 @@ template <typename... Args>
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
     if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
 
-    // Timeouts that are over don't wait any longer for something that looks ready, but isn't.
-    bool was_timeout =
-        (pres == 0) || (pres > 0 && was_spurious && min_timeout == std::chrono::milliseconds::zero());
+    bool was_timeout = (pres == 0);
 
-    if (pres >= 0) {
+    while (pres >= 0) {
       // The end of the context comes first: once it's over, no other reaction may take effect, as its
       // result couldn't be returned.
       const pollfd* context_fds = fds.data() + (fds.size() - 2);
@@ -300,7 +297,7 @@ template <typename... Args>
         *cancelled;
       }
       auto deadline_exceeded(detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1],
-                                                            pres == 0, elapsed, min_timeout,
+                                                            was_timeout, elapsed, min_timeout,
                                                             min_timeout_is_polling));
       if (deadline_exceeded) {
         *deadline_exceeded;
@@ -316,11 +313,15 @@ template <typename... Args>
       if (active) {
         return res;
       }
+
+      if (was_timeout || min_timeout != std::chrono::milliseconds::zero()) break;
+      // Timeouts that are over don't wait any longer for something that looks ready, but isn't.
+      for (auto& fd : fds) fd.revents = 0;
+      was_timeout = true;
     }
 
     auto now = std::chrono::steady_clock::now();
     if (was_timeout && min_timeout_is_polling) last_poll = now;
-    was_spurious = (pres > 0);
     elapsed.total = std::chrono::duration_cast<std::chrono::milliseconds>(now - start);
     elapsed.polling = std::chrono::duration_cast<std::chrono::milliseconds>(now - last_poll);
   } while (true);
-- 
2.43.0


From b442a33cfab250669b6a7e4174280be7860aaced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 43/61] fix: wait for timeouts longer than poll can in several
 polls

---
 src/arpc/select.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index cd5eb2b..b2f4164 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -33,6 +33,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -281,12 +282,14 @@ template <typename... Args>
 
     auto fds(detail::make_select_pollfds(a));
 
-    int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
+    // Longer timeouts take several polls.
+    constexpr std::chrono::milliseconds max_poll(std::numeric_limits<int>::max());
+    int pres = poll(fds.data(), fds.size(), static_cast<int>(std::min(min_timeout, max_poll).count()));
     if (pres < 0 && errno != EINTR) throw_io_error("Error in select");
 
-    bool was_timeout = (pres == 0);
+    bool was_timeout = (pres == 0 && min_timeout <= max_poll);
 
-    while (pres >= 0) {
+    while (pres > 0 || was_timeout) {
       // The end of the context comes first: once it's over, no other reaction may take effect, as its
       // result couldn't be returned.
       const pollfd* context_fds = fds.data() + (fds.size() - 2);
-- 
2.43.0


From 0dbc0949786b7671d4c9a7ed980c57e7a579fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:15 +0000
Subject: [PATCH 44/61] fix: keep the function to run when the queue of a
 thread pool is full after all

---
 src/arpc/executor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index e80cecb..2b08db1 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -52,6 +52,7 @@ class thread_pool {
 
   template <typename F>
   void run(F&& f) {
+    fn_type fn(std::forward<F>(f));
     while (true) {
       auto [have_slot, have_pending_space] =
           select(slots_.can_get(), pending_.can_put());
@@ -59,12 +60,12 @@ class thread_pool {
         std::scoped_lock lock(mu_);
         if (have_slot) {
           *have_slot;
-          slots_.maybe_get().set_value(std::move(fn_type(std::forward<F>(f))));
+          slots_.maybe_get().set_value(std::move(fn));
           return;
         }
         if (have_pending_space) {
           *have_pending_space;
-          pending_.maybe_put(std::move(fn_type(std::forward<F>(f))));
+          pending_.maybe_put(std::move(fn));
           return;
         }
       } catch (const errors::try_again&) {
-- 
2.43.0


From 4ff072976682ee1252fc1e6ff9f0a048e10aa111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 45/61] fix: never leave a function pending in a thread pool
 while a worker waits for one

---
 src/arpc/executor.cpp | 24 ++++++++++--------------
 src/arpc/executor.h   | 24 ++++++++++--------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index a4f194b..80208e9 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -48,20 +48,16 @@ void thread_pool::request_work(promise<fn_type> slot) {
   while (true) {
     auto [have_pending_fn, have_slot_space] =
         select(pending_.can_get(), slots_.can_put());
-    try {
-      std::scoped_lock lock(mu_);
-      if (have_pending_fn) {
-        *have_pending_fn;
-        slot.set_value(pending_.maybe_get());
-        return;
-      }
-      if (have_slot_space) {
-        *have_slot_space;
-        slots_.maybe_put(std::move(slot));
-        return;
-      }
-    } catch (const errors::try_again&) {
-      // Just try again.
+    // Look again under the lock, as slots and pending functions must not wait at
+    // the same time.
+    std::scoped_lock lock(mu_);
+    if (!pending_.empty()) {
+      slot.set_value(pending_.maybe_get());
+      return;
+    }
+    if (!slots_.full()) {
+      slots_.maybe_put(std::move(slot));
+      return;
     }
   }
 }
diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index 2b08db1..098a733 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -56,20 +56,16 @@ class thread_pool {
     while (true) {
       auto [have_slot, have_pending_space] =
           select(slots_.can_get(), pending_.can_put());
-      try {
-        std::scoped_lock lock(mu_);
-        if (have_slot) {
-          *have_slot;
-          slots_.maybe_get().set_value(std::move(fn));
-          return;
-        }
-        if (have_pending_space) {
-          *have_pending_space;
-          pending_.maybe_put(std::move(fn));
-          return;
-        }
-      } catch (const errors::try_again&) {
-        // Just try again.
+      // Look again under the lock, as slots and pending functions must not wait
+      // at the same time.
+      std::scoped_lock lock(mu_);
+      if (!slots_.empty()) {
+        slots_.maybe_get().set_value(std::move(fn));
+        return;
+      }
+      if (!pending_.full()) {
+        pending_.maybe_put(std::move(fn));
+        return;
       }
     }
   }
-- 
2.43.0


From 12196d81c8a39cc764ccd326fd262b0fc0a462ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 46/61] fix: run each function of a thread pool in a context of
 its own

---
 src/arpc/executor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index 80208e9..04baf22 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/executor.h"
+#include "arpc/context.h"
 
 namespace arpc {
 
@@ -35,6 +36,8 @@ thread_pool::thread_pool(unsigned int num_worker_threads, int queue_size)
         request_work(std::move(fn_promise));
         auto f = fn_future.get();
         try {
+          // What a function does to its context must not outlast it.
+          context function_context;
           f();
         } catch (...) {
           // Log the exception?
-- 
2.43.0


From ff320ea849bbbf7dc3b75ef45eff46bbf60e511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 47/61] fix: usage_lock: notify with the lock held, and guard
 the pointer against get during drop

---
 src/arpc/usage_lock.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 333d069..722c1f5 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <string_view>
+#include <utility>
 #include "arpc/errors.h"
 
 namespace arpc {
@@ -45,35 +46,48 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset(ptr, [this](T*) {
-      {
-        std::scoped_lock lock(mu_);
-        done_ = true;
-      }
+    std::shared_ptr<T> armed(ptr, [this](T*) {
+      // Notify with the lock held, as this object may go away once the thread
+      // in drop() can return.
+      std::scoped_lock lock(mu_);
+      done_ = true;
       done_cond_.notify_all();
     });
+    release();
     std::scoped_lock lock(mu_);
     done_ = false;
+    ptr_ = std::move(armed);
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset();
+    release();
     std::unique_lock lock(mu_);
     done_cond_.wait(lock, [this]() { return done_; });
   }
 
   auto get() {
-    auto res = ptr_;
+    auto res = get_or_null();
     if (!res) {
       throw E(message_);
     }
     return res;
   }
 
-  auto get_or_null() { return ptr_; }
+  auto get_or_null() {
+    std::scoped_lock lock(mu_);
+    return ptr_;
+  }
 
  private:
+  // Give up our own reference. The deleter takes the lock, so that it must run
+  // without it.
+  void release() {
+    std::shared_ptr<T> released;
+    std::scoped_lock lock(mu_);
+    released.swap(ptr_);
+  }
+
   const char* const message_;
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
-- 
2.43.0


From 6c73800e91ac73572931a254fc218a5a27d1f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 48/61] fix: channel::linger sets SO_LINGER instead of
 SO_REUSEPORT

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..05f51d3 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -252,7 +252,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From 65343ce5cf88cafce55e2fadab2860878ced5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 49/61] fix: channel: interrupted system calls are retried
 rather than reported as errors

---
 src/arpc/channel.cpp | 5 ++++-
 src/arpc/errors.cpp  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 05f51d3..e63b570 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/channel.h"
+#include <errno.h>
 #include <fcntl.h>
 #include <signal.h>
 #include <unistd.h>
@@ -148,7 +149,9 @@ channel& channel::shutdown(bool read, bool write) {
 }
 
 awaitable<void> channel::async_connect(const address& addr) {
-  if (::connect(fd_, addr.address_data(), addr.address_size()))
+  // An interrupted connection goes on in the background.
+  if (::connect(fd_, addr.address_data(), addr.address_size()) &&
+      errno != EINTR)
     throw_io_error("Error when connecting socket");
   return can_write().then(std::move([this]() {
     int err;
diff --git a/src/arpc/errors.cpp b/src/arpc/errors.cpp
index c1d2020..89365d2 100644
--- a/src/arpc/errors.cpp
+++ b/src/arpc/errors.cpp
@@ -64,7 +64,7 @@ void throw_io_error(const std::string& message, int code) {
     // This is just an ongoing non-blocking connection. Nothing to see here.
     return;
   }
-  if (code == EAGAIN || code == EWOULDBLOCK) {
+  if (code == EAGAIN || code == EWOULDBLOCK || code == EINTR) {
     throw errors::try_again("Try again");
   }
   throw errors::io_error(message + std::string(": ") + std::to_string(code));
-- 
2.43.0


From 7f3ce756e8567ea34b53e2c4181adc7bc3880e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:43 +0000
Subject: [PATCH 50/61] fix: channel: operations on a closed channel fail
 instead of waiting forever

---
 src/arpc/channel.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index e63b570..13a8213 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -129,9 +129,16 @@ channel channel::dup() const {
   return res;
 }
 
-awaitable<void> channel::can_read() { return awaitable<void>(fd_, false); }
+awaitable<void> channel::can_read() {
+  // There is nothing to wait for on a closed channel: let the operation fail.
+  if (fd_ < 0) return always();
+  return awaitable<void>(fd_, false);
+}
 
-awaitable<void> channel::can_write() { return awaitable<void>(fd_, true); }
+awaitable<void> channel::can_write() {
+  if (fd_ < 0) return always();
+  return awaitable<void>(fd_, true);
+}
 
 channel& channel::shutdown(bool read, bool write) {
   int how;
-- 
2.43.0


From d9c9bedcb658bbdf293d71652ddb45e0f8426447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:44 +0000
Subject: [PATCH 51/61] fix: file: create files with the usual permissions

---
 src/arpc/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..bb7dcdb 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -37,7 +37,8 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
   channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)],
+             0666));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From 8b970dc6540e4dccf19a50c060503d8b9e710861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 52/61] fix: channel: reading no bytes is not the end of the
 channel

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 13a8213..5497452 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -91,7 +91,7 @@ std::size_t channel::read(void* buf, std::size_t len) {
 std::size_t channel::maybe_read(void* buf, std::size_t len) {
   auto num = ::read(fd_, buf, len);
   if (num < 0) throw_io_error("Error reading");
-  if (num == 0) throw errors::eof("End of channel");
+  if (num == 0 && len > 0) throw errors::eof("End of channel");
   return static_cast<std::size_t>(num);
 }
 
-- 
2.43.0


From 5ef6e2a1131031548e634013f2b09cff76bebcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 53/61] fix: connection: deliver the bytes that precede the end
 of the channel

---
 src/arpc/connection.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 8586d23..3388acd 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -83,10 +83,16 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
     auto [read, closing] =
         select(channel_.async_read(data, size), closing_.async_wait());
     if (read) {
-      if (*read == 0) break;
-      size -= *read;
-      data += *read;
-      total_read += *read;
+      std::size_t num = 0;
+      try {
+        num = *read;
+      } catch (const errors::eof&) {
+        // Return what came before the end, as the other streams do.
+      }
+      if (num == 0) break;
+      size -= num;
+      data += num;
+      total_read += num;
     }
     if (closing)
       throw errors::io_error("Read interrupted by connection shutdown");
-- 
2.43.0


From f70131f86bea1017bac66a5cd7ac8e655cbefd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 54/61] fix: reconnectable_connection: interrupt users when
 disconnecting, and do not wait for ourselves when reconnecting

---
 src/arpc/connection.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 98e56bc..121e8fc 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -80,6 +80,7 @@ class reconnectable_connection : public connection {
     std::scoped_lock lock(mu_);
     auto ptr = connection_.get_or_null();
     if (!ptr || !ptr->connected()) {
+      ptr.reset();  // Otherwise we would wait for ourselves.
       connection_.drop();
       connection_factory_();
       connection_.arm(&*connection_storage_);
@@ -88,6 +89,8 @@ class reconnectable_connection : public connection {
 
   void disconnect() override {
     std::scoped_lock lock(mu_);
+    // Interrupt those using the connection, as we will wait for them.
+    if (auto ptr = connection_.get_or_null()) ptr->disconnect();
     connection_.drop();
     connection_storage_.reset();
   }
-- 
2.43.0


From 291fd4354b30b93d00f5f666dc5937ec7d60cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 55/61] fix: connection: do not use the channel of a connection
 while it is closed

---
 src/arpc/connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 3388acd..0e9336c 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -73,7 +73,9 @@ void channel_connection::write(const char* data, std::size_t size) {
 
 void channel_connection::putc(char c) { connection::putc(c); }
 
-void channel_connection::flush() { channel_.flush(); }
+void channel_connection::flush() {
+  if (auto lock = locked_.get_or_null()) channel_.flush();
+}
 
 std::size_t channel_connection::read(char* data, std::size_t size) {
   auto lock = locked_.get();
@@ -103,6 +105,7 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
 char channel_connection::getc() { return connection::getc(); }
 
 awaitable<void> channel_connection::data_available() {
+  auto lock = locked_.get();
   return channel_.can_read();
 }
 
-- 
2.43.0


From 9cbcd38b298c4593f0b82fcdf4aedcc0efe6d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 56/61] fix: interface: proxies of interfaces that extend
 others at several levels

---
 src/arpc/interface.h | 54 ++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/arpc/interface.h b/src/arpc/interface.h
index e6995a5..fdbd4c0 100644
--- a/src/arpc/interface.h
+++ b/src/arpc/interface.h
@@ -23,6 +23,7 @@
 #define ARPC_INTERFACE_H_
 
 #include <array>
+#include <optional>
 #include <utility>
 #include "arpc/future.h"
 #include "arpc/message_defs.h"
@@ -32,6 +33,19 @@
 
 namespace arpc {
 
+namespace detail {
+// Holds the remote object for a proxy and for the proxies of all the interfaces
+// it extends, at any depth.
+template <typename O>
+struct proxy_base {
+  proxy_base() = default;
+  explicit proxy_base(O obj) : obj_(std::move(obj)) {}
+
+ protected:
+  std::optional<O> obj_;
+};
+}  // namespace detail
+
 // A method_descriptor type specifies one remotely callable interface method.
 template <auto mptr>
 struct method_descriptor : public traits::member_function_pointer_traits<mptr> {
@@ -90,20 +104,6 @@ struct async_interface : virtual Extends::async... {
   ARPC_FOREACH(ARPC_INTERFACE_ASYNC_PROXY_EXTENDS_ONE, \
                ARPC_INTERFACE_ASYNC_PROXY_EXTENDS_SEP, __VA_ARGS__)
 
-#define ARPC_INTERFACE_PROXY_CTOR_ONE(...) \
-  ARPC_EXPAND_1 __VA_ARGS__::proxy<O>(obj)
-#define ARPC_INTERFACE_PROXY_CTOR_SEP() ,
-#define ARPC_INTERFACE_PROXY_CTOR(...)                                       \
-  ARPC_FOREACH(ARPC_INTERFACE_PROXY_CTOR_ONE, ARPC_INTERFACE_PROXY_CTOR_SEP, \
-               __VA_ARGS__)
-
-#define ARPC_INTERFACE_ASYNC_PROXY_CTOR_ONE(...) \
-  ARPC_EXPAND_1 __VA_ARGS__::async::proxy<O>(obj)
-#define ARPC_INTERFACE_ASYNC_PROXY_CTOR_SEP() ,
-#define ARPC_INTERFACE_ASYNC_PROXY_CTOR(...)        \
-  ARPC_FOREACH(ARPC_INTERFACE_ASYNC_PROXY_CTOR_ONE, \
-               ARPC_INTERFACE_ASYNC_PROXY_CTOR_SEP, __VA_ARGS__)
-
 #define ARPC_INTERFACE_DECL_ARG(TYPE, NAME) ARPC_EXPAND_1 TYPE NAME
 #define ARPC_INTERFACE_DECL_ARGS_ONE(...) ARPC_INTERFACE_DECL_ARG __VA_ARGS__
 #define ARPC_INTERFACE_DECL_ARGS_SEP() ,
@@ -147,7 +147,7 @@ struct async_interface : virtual Extends::async... {
      ARPC_INTERFACE_PROXY_FORWARD_ARGS_SEP, __VA_ARGS__)
 #define ARPC_INTERFACE_PROXY_IMPL(RETURN, METHOD, ARGS)                       \
   ARPC_EXPAND_1 RETURN METHOD(ARPC_INTERFACE_PROXY_IMPL_ARGS ARGS) override { \
-    return obj_.template call<&own_interface::METHOD>(                        \
+    return this->obj_->template call<&own_interface::METHOD>(                        \
         ARPC_INTERFACE_PROXY_FORWARD_ARGS ARGS);                              \
   }
 #define ARPC_INTERFACE_PROXY_IMPLS_ONE(...) \
@@ -161,7 +161,7 @@ struct async_interface : virtual Extends::async... {
   ::std::pair<::arpc::future<ARPC_EXPAND_1 RETURN>,           \
               ::arpc::rpc_defs::request_id_type>              \
   METHOD(ARPC_INTERFACE_PROXY_IMPL_ARGS ARGS) override {      \
-    return obj_.template async_call<&own_interface::METHOD>(  \
+    return this->obj_->template async_call<&own_interface::METHOD>(  \
         ARPC_INTERFACE_PROXY_FORWARD_ARGS ARGS);              \
   }
 #define ARPC_INTERFACE_ASYNC_PROXY_IMPLS_ONE(...) \
@@ -215,30 +215,24 @@ struct async_interface : virtual Extends::async... {
     struct proxy;                                                              \
   };                                                                           \
   template <typename O>                                                        \
-  struct NAME::proxy : virtual NAME ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(  \
+  struct NAME::proxy : virtual ::arpc::detail::proxy_base<O>,                  \
+                       virtual NAME ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(  \
                            , /* NOLINT(whitespace/parens) */)                  \
                            ARPC_EXPAND(ARPC_INTERFACE_PROXY_EXTENDS EXTENDS) { \
-    proxy(O obj)                                                               \
-        : ARPC_EXPAND(ARPC_INTERFACE_PROXY_CTOR EXTENDS)                       \
-              ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(                        \
-                  , /* NOLINT(whitespace/parens) */) obj_(std::move(obj)) {}   \
+    proxy() = default;                                                         \
+    proxy(O obj) : ::arpc::detail::proxy_base<O>(std::move(obj)) {}            \
     ARPC_EXPAND(ARPC_INTERFACE_PROXY_IMPLS METHODS)                            \
-   private:                                                                    \
-    O obj_;                                                                    \
   };                                                                           \
   template <typename O>                                                        \
   struct NAME::async::proxy                                                    \
-      : virtual NAME::async                                                    \
+      : virtual ::arpc::detail::proxy_base<O>,                                 \
+        virtual NAME::async                                                    \
         ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(                              \
             , /* NOLINT(whitespace/parens) */)                                 \
             ARPC_EXPAND(ARPC_INTERFACE_ASYNC_PROXY_EXTENDS EXTENDS) {          \
-    proxy(O obj)                                                               \
-        : ARPC_EXPAND(ARPC_INTERFACE_ASYNC_PROXY_CTOR EXTENDS)                 \
-              ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(                        \
-                  , /* NOLINT(whitespace/parens) */) obj_(std::move(obj)) {}   \
+    proxy() = default;                                                         \
+    proxy(O obj) : ::arpc::detail::proxy_base<O>(std::move(obj)) {}            \
     ARPC_EXPAND(ARPC_INTERFACE_ASYNC_PROXY_IMPLS METHODS)                      \
-   private:                                                                    \
-    O obj_;                                                                    \
   }
 }  // namespace arpc
 
-- 
2.43.0


From 3e4fbd085b1521e28dd30e5f847a330ef3ed68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:55 +0000
Subject: [PATCH 57/61] fix: future: get() reports a result that is
 errors::try_again instead of waiting forever

---
 src/arpc/future.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index c266214..7794b77 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -168,8 +168,10 @@ class future {
   }
 
   value_type get() {
-    auto [res] = select(async_get());
-    return std::move(*res);
+    // Once ready, even an errors::try_again is the result.
+    auto [ready] = select(can_get());
+    *ready;
+    return maybe_get();
   }
 
   template <typename E, typename CGF>
@@ -256,8 +258,10 @@ class future<void> {
   }
 
   value_type get() {
-    auto [res] = select(async_get());
-    *res;
+    // Once ready, even an errors::try_again is the result.
+    auto [ready] = select(can_get());
+    *ready;
+    maybe_get();
   }
 
   template <typename E, typename CGF>
-- 
2.43.0


From e75843ea51edcc3cdcb63ae59d900a9f8e5d7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 58/61] fix: server: connections outlive what is received and
 sent in the pool, and end with the server

---
 src/arpc/server.h | 85 ++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 8e1ef88..b4dd069 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -165,7 +165,9 @@ class server {
 
   using connection_key = std::size_t;
   using connection_type = typename ConnectionProducer::connection_type;
-  class connection_wrapper {
+  // Shared with the functions that receive and send in the pool, which may
+  // outlast the presence of the connection in the server.
+  class connection_wrapper : public std::enable_shared_from_this<connection_wrapper> {
    public:
     explicit connection_wrapper(server& server, connection_key key,
                                 std::unique_ptr<connection_type> connection)
@@ -176,7 +178,7 @@ class server {
 
     awaitable<void> receive() {
       std::scoped_lock lock(mu_);
-      if (failed_receive_) {
+      if (failed_) {
         return never();
       }
 
@@ -185,9 +187,13 @@ class server {
       }
 
       return connection_->data_available().then([this]() {
-        can_receive_.reset();
+        {
+          std::scoped_lock lock(mu_);
+          if (failed_) return;
+          can_receive_.reset();
+        }
 
-        server_.pool_.run([this]() {
+        server_.pool_.run([this, self(this->shared_from_this())]() {
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -213,9 +219,9 @@ class server {
                 break;
             }
 
-            receive_done();
+            done(can_receive_);
           } catch (...) {
-            receive_done(true);
+            done(can_receive_, true);
           }
         });
       });
@@ -223,7 +229,7 @@ class server {
 
     awaitable<void> send() {
       std::scoped_lock lock(mu_);
-      if (failed_send_) {
+      if (failed_) {
         return never();
       }
 
@@ -232,15 +238,20 @@ class server {
       }
 
       return responses_.async_get().then([this](std::string response) {
-        can_send_.reset();
+        {
+          std::scoped_lock lock(mu_);
+          if (failed_) return;
+          can_send_.reset();
+        }
 
-        server_.pool_.run([this, response(std::move(response))]() mutable {
+        server_.pool_.run([this, self(this->shared_from_this()),
+                           response(std::move(response))]() mutable {
           try {
             connection_->send(std::move(response));
 
-            send_done();
+            done(can_send_);
           } catch (...) {
-            send_done(true);
+            done(can_send_, true);
           }
         });
       });
@@ -248,6 +259,7 @@ class server {
 
     awaitable<void> remove() {
       return can_remove_.async_wait().then([this]() {
+        auto self = this->shared_from_this();
         server_.acceptor_->return_connection(std::move(connection_));
         server_.connections_.erase(key_);
       });
@@ -255,39 +267,18 @@ class server {
 
     void add_response(std::string response) { responses_.put(std::move(response)); }
 
-   private:
-    void receive_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_receive_ = true;
-        }
-        if (failed_send_ || (can_send_ && failed)) {
-          failed_receive_ = true;
-          removed = true;
-        }
-        can_receive_.set();
-      }
-      if (removed) {
-        can_remove_.set();
-      }
+    void disconnect() {
+      if (connection_) connection_->disconnect();
     }
 
-    void send_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_send_ = true;
-        }
-        if (failed_receive_ || (can_receive_ && failed)) {
-          failed_send_ = true;
-          removed = true;
-        }
-        can_send_.set();
-      }
-      if (removed) {
+   private:
+    // Finish receiving or sending. Once any of them failed none will start again, and
+    // the connection can be removed when both are finished.
+    void done(flag& can_start, bool failed = false) {
+      std::scoped_lock lock(mu_);
+      can_start.set();
+      failed_ |= failed;
+      if (failed_ && can_receive_ && can_send_) {
         can_remove_.set();
       }
     }
@@ -297,11 +288,11 @@ class server {
     std::mutex mu_;
     std::unique_ptr<connection_type> connection_;
     queue<std::string> responses_;
-    bool failed_receive_ = false, failed_send_ = false;
+    bool failed_ = false;
     flag can_receive_, can_send_, can_remove_;
   };
 
-  using connection_map = flat_map<connection_key, std::unique_ptr<connection_wrapper>>;
+  using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
@@ -522,7 +513,7 @@ class server {
             // Ensure we prevent connection counter cycle collisions.
           }
           connections_.insert(
-              {next_connection_key_, std::make_unique<connection_wrapper>(
+              {next_connection_key_, std::make_shared<connection_wrapper>(
                                          *this, next_connection_key_, std::move(new_connection))});
         });
   }
@@ -629,6 +620,10 @@ class server {
       reactor_.join();
     }
 
+    // End what is still being received and sent in the pool.
+    for (auto& cit : connections_) {
+      cit.second->disconnect();
+    }
     connections_.clear();
 
     acceptor_.reset();
-- 
2.43.0


From e9440a75a624b862468ba2799fbaf4b6c3f2a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 59/61] fix: server: registering under a name replaces all of
 what was registered

---
 src/arpc/server.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index b4dd069..96ec4f8 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -568,6 +568,8 @@ class server {
 
     auto key = object_name<ObjectNameEncoder>(std::forward<Name>(name));
     auto& entry = objects_[key];
+    // Nothing of an object that had the name before is kept.
+    entry.methods.clear();
     entry.ref = object.get_ref();
 
     register_object_interface(entry, object.get_ref());
-- 
2.43.0


From f1c33c4ee94c004f049962e9e5ff7500a06aa3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:51 +0000
Subject: [PATCH 60/61] fix: server: requests are put in the pool by the
 reactor, not by a task of the pool

---
 src/arpc/server.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 96ec4f8..e051034 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -207,11 +207,12 @@ class server {
 
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
-                request.erase(0, request_is.pos());
-                server_.queue_request(request_key{key_, req_id}, request);
-                break;
               case rpc_defs::message_type::CANCEL_REQUEST:
-                server_.cancel_request(request_key{key_, req_id});
+                // Leave it to the reactor: a task of the pool must not wait for space in
+                // the queue of the pool.
+                request.erase(0, request_is.pos());
+                server_.received_.put(received_message{
+                    message_type, request_key{key_, req_id}, std::move(request)});
                 break;
               default:
                 // Unknown message received.
@@ -322,6 +323,22 @@ class server {
   };
   using request_map = flat_map<request_key, std::unique_ptr<request_wrapper>>;
 
+  struct received_message {
+    rpc_defs::message_type type;
+    request_key key;
+    std::string request;
+  };
+
+  awaitable<void> handle_received() {
+    return received_.async_get().then([this](received_message message) {
+      if (message.type == rpc_defs::message_type::REQUEST) {
+        queue_request(message.key, std::move(message.request));
+      } else {
+        cancel_request(message.key);
+      }
+    });
+  }
+
   void cancel_request(const request_key& key) {
     std::scoped_lock lock(requests_mu_);
 
@@ -524,6 +541,7 @@ class server {
       awaitables.clear();
 
       awaitables.push_back(get_new_connection());
+      awaitables.push_back(handle_received());
 
       for (auto& cit : connections_) {
         auto& wrapper = cit.second;
@@ -642,6 +660,7 @@ class server {
   connection_map connections_;
   std::mutex requests_mu_;
   request_map requests_;
+  queue<received_message> received_;
   daemon_thread reactor_;
   thread_pool pool_;
 };
-- 
2.43.0


From 35ede1e5cb0aefd776ad13908abba194c6178059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:05 +0000
Subject: [PATCH 61/61] fix: client: send requests and cancellations from one
 thread that survives the caller's cancellation, and reconnect only once the
 old connection is done with

---
 src/arpc/client.h | 99 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 74 insertions(+), 25 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c6208f0..89d319f 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -42,7 +43,6 @@
 #include "arpc/future.h"
 #include "arpc/interface.h"
 #include "arpc/message_defs.h"
-#include "arpc/mutex.h"
 #include "arpc/object_name.h"
 #include "arpc/packet_protocols.h"
 #include "arpc/queue.h"
@@ -181,17 +181,23 @@ class client_connection {
         connection_(std::forward<Args>(args)...),
         receiver_(&client_connection::receive, this),
         new_deadline_(max_queued_events),
+        timeout_handler_(&client_connection::handle_timeouts, this),
+        requests_(max_queued_events),
         cancelled_requests_(max_queued_events),
-        timeout_and_cancellation_handler_(
-            &client_connection::handle_timeouts_and_cancellations, this) {}
+        sender_(&client_connection::send_requests_and_cancellations, this) {
+    received_all_.set();
+  }
 
   ~client_connection() {
+    sender_.get_context().cancel();
+    sender_.join();
+
     receiver_.get_context().cancel();
     connection_.disconnect();
     receiver_.join();
 
-    timeout_and_cancellation_handler_.get_context().cancel();
-    timeout_and_cancellation_handler_.join();
+    timeout_handler_.get_context().cancel();
+    timeout_handler_.join();
   }
 
   template <typename I, typename N>
@@ -221,7 +227,7 @@ class client_connection {
     auto now = std::chrono::system_clock::now();
     auto it = pending_.begin();
     while (it != pending_.end()) {
-      if (it->second.deadline && *(it->second.deadline) < now) {
+      if (it->second.deadline && *(it->second.deadline) <= now) {
         it->second.result.set_exception(std::make_exception_ptr(
             errors::deadline_exceeded("Request timed out")));
         it = pending_.erase(it);
@@ -237,15 +243,24 @@ class client_connection {
   }
 
   void abandon_request(rpc_defs::request_id_type req_id) {
+    fail_request(req_id, std::make_exception_ptr(
+                             errors::cancelled("Request cancelled")));
+  }
+
+  void fail_request(rpc_defs::request_id_type req_id, std::exception_ptr exc) {
     std::scoped_lock lock(pending_mu_);
     auto it = pending_.find(req_id);
     if (it != pending_.end()) {
-      it->second.result.set_exception(
-          std::make_exception_ptr(errors::cancelled("Request cancelled")));
+      it->second.result.set_exception(exc);
       pending_.erase(it);
     }
   }
 
+  bool is_pending(rpc_defs::request_id_type req_id) {
+    std::scoped_lock lock(pending_mu_);
+    return pending_.count(req_id) > 0;
+  }
+
   void set_response(rpc_defs::request_id_type req_id, std::string response) {
     std::scoped_lock lock(pending_mu_);
     auto it = pending_.find(req_id);
@@ -265,14 +280,17 @@ class client_connection {
   }
 
   void send(std::string data) {
-    std::scoped_lock lock(sending_mu_);
     try {
-      connection_.connect();
+      if (!connection_.connected()) {
+        // What is received next must come from the new connection.
+        select(received_all_.async_wait());
+        connection_.connect();
+        received_all_.reset();
+        ready_.set();
+      }
       connection_.send(std::move(data));
-      ready_.set();
     } catch (...) {
-      // Disconnect the connection.
-      ready_.reset();
+      // Disconnect the connection. The receiver will find out.
       connection_.disconnect();
       throw;
     }
@@ -297,7 +315,7 @@ class client_connection {
     }
 
     try {
-      send(request);
+      requests_.put(outgoing_request{req_id, std::move(request)});
     } catch (...) {
       abandon_request(req_id);
       throw;
@@ -339,9 +357,6 @@ class client_connection {
             }
           }
         } catch (...) {
-          // Prevent sending more requests while we disconnect.
-          std::scoped_lock lock(sending_mu_);
-
           // Disconnect the connection.
           ready_.reset();
           connection_.disconnect();
@@ -349,6 +364,9 @@ class client_connection {
           // Broadcast the exception to all the pending requests.
           auto exc = std::current_exception();
           broadcast_exception(exc);
+
+          // Nothing else comes from this connection.
+          received_all_.set();
         }
       }
     }
@@ -369,19 +387,41 @@ class client_connection {
     return earliest_deadline;
   }
 
-  void handle_timeouts_and_cancellations() {
+  void handle_timeouts() {
     while (true) {
       auto earliest_deadline = get_earliest_deadline();
 
-      auto [new_deadline_added, cancelled_request, time_to_do_gc] =
-          select(new_deadline_.async_get(), cancelled_requests_.async_get(),
+      auto [new_deadline_added, time_to_do_gc] =
+          select(new_deadline_.async_get(),
                  earliest_deadline ? deadline(*earliest_deadline) : never());
 
       if (time_to_do_gc) {
         gc();
       }
+    }
+  }
 
-      if (cancelled_request) {
+  // Sending is left to a thread of its own, so that no request is left halfway
+  // through when the caller is cancelled.
+  void send_requests_and_cancellations() {
+    while (true) {
+      auto [new_request, cancelled_request] =
+          select(requests_.async_get(), cancelled_requests_.async_get());
+
+      if (new_request) {
+        auto& [req_id, request] = *new_request;
+
+        // It may have been cancelled or timed out before.
+        if (is_pending(req_id)) {
+          try {
+            send(std::move(request));
+          } catch (...) {
+            fail_request(req_id, std::current_exception());
+          }
+        }
+      }
+
+      if (cancelled_request && connection_.connected()) {
         auto req_id = *cancelled_request;
 
         // Serialize to a string.
@@ -397,22 +437,31 @@ class client_connection {
         }
         // Send the cancellation request. Ignore errors.
         try {
-          send(cancel_request);
+          send(std::move(cancel_request));
         } catch (...) {
         }
       }
     }
   }
 
-  mutex pending_mu_, sending_mu_;
+  struct outgoing_request {
+    rpc_defs::request_id_type req_id;
+    std::string data;
+  };
+
+  std::mutex pending_mu_;
   rpc_defs::request_id_type sequence_;
-  flag ready_;
+  // Whether there is a connection to receive from, and whether nothing else
+  // will be received from previous connections.
+  flag ready_, received_all_;
   connection_type connection_;
   pending_map_type pending_;
   daemon_thread receiver_;
   queue<void> new_deadline_;
+  daemon_thread timeout_handler_;
+  queue<outgoing_request> requests_;
   queue<rpc_defs::request_id_type> cancelled_requests_;
-  daemon_thread timeout_and_cancellation_handler_;
+  daemon_thread sender_;
 };
 
 }  // namespace arpc
-- 
2.43.0

