From 3219b41e7cc53262c7e3c16d411f87901878db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 001/108] fix: vector::insert returns the position of the first
 inserted element

std::rotate returns the new position of the element that was at the
insertion point, i.e. one past the inserted elements.
---
 include/cista/containers/vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..3c029a1 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -220,7 +220,8 @@ struct basic_vector {
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -234,7 +235,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -248,7 +250,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From b2842e9e6fe55f31dc0d7e630fa966ea103b6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 002/108] fix: vector::erase(first, last) returns the element
 after the erased range

---
 include/cista/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3c029a1..724ed68 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -404,7 +404,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return first;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From 8939d34e857bd4bf308d050efec3e81643b1261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 003/108] fix: vector::resize destroys the elements it removes

---
 include/cista/containers/vector.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 724ed68..d893b0e 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -320,6 +320,7 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
     }
+    destroy_from(size);
     used_size_ = size;
   }
 
@@ -328,9 +329,16 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
     }
+    destroy_from(size);
     used_size_ = size;
   }
 
+  void destroy_from(size_type const size) {
+    for (auto i = size; i < used_size_; ++i) {
+      (el_ + i)->~T();
+    }
+  }
+
   void shrink_to_fit() {}
 
   void pop_back() noexcept(noexcept(std::declval<T>().~T())) {
-- 
2.43.0


From e59345fd2f50675c5aa269184328dd4c178a1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 004/108] fix: vector::set (copy assignment) destroys the
 elements it replaces

---
 include/cista/containers/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index d893b0e..3f419aa 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -175,6 +175,7 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
+    clear();
     reserve(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
-- 
2.43.0


From 3c5cca832eb6948d30bb1434d79142e971a13c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 005/108] fix: vector::insert of an empty range keeps the
 elements behind the position

They were move-assigned to themselves, which empties elements like vectors.
---
 include/cista/containers/vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3f419aa..0d88347 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -262,6 +262,10 @@ struct basic_vector {
       return begin();
     }
 
+    if (first == last) {
+      return pos;
+    }
+
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
     reserve(used_size_ + new_count);
-- 
2.43.0


From 221d933e42a7752741d9c6fcf08eb406f959fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 006/108] fix: vector::reserve allocates enough if the capacity
 exceeds the size type

For vectors with small size types (vector_map<uint8_t, T> with more than 128
elements), the next power of two wrapped to zero.
---
 include/cista/containers/vector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 0d88347..a575885 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -366,6 +366,9 @@ struct basic_vector {
     }
 
     auto next_size = next_power_of_two(new_size);
+    if (next_size < new_size) {  // next power of two exceeds the size type
+      next_size = std::numeric_limits<size_type>::max();
+    }
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
-- 
2.43.0


From 65e6c6ae4237cea3944074dbfd845fcdeea119fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 007/108] fix: serialize aligns the heap storage of strings
 with wide characters

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..54baafc 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From 6cccdf0ec0a8e167a90ea391176d090cacd8e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 008/108] fix: deserialize accepts hash tables with tombstones

---
 include/cista/serialization.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 54baafc..53ff51b 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -964,28 +964,22 @@ void check_state(Ctx const& c,
             "hash storage: ctrl bytes must be empty or deleted or full");
 
   using st_t = typename Type::size_type;
-  auto [total_empty, total_full, total_deleted, total_growth_left] =
-      std::accumulate(
-          ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
-          std::tuple{st_t{0U}, st_t{0U}, st_t{0U}, st_t{0}},
-          [&](std::tuple<st_t, st_t, st_t, st_t> const acc,
-              typename Type::ctrl_t const& ctrl) {
-            auto const [empty, full, deleted, growth_left] = acc;
-            return std::tuple{
-                Type::is_empty(ctrl) ? empty + 1 : empty,
-                Type::is_full(ctrl) ? full + 1 : full,
-                Type::is_deleted(ctrl) ? deleted + 1 : deleted,
-                (Type::is_empty(ctrl) && el->was_never_full(static_cast<st_t>(
-                                             &ctrl - el->ctrl_))
-                     ? growth_left + 1
-                     : growth_left)};
-          });
+  auto [total_empty, total_full, total_deleted] = std::accumulate(
+      ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
+      std::tuple{st_t{0U}, st_t{0U}, st_t{0U}},
+      [&](std::tuple<st_t, st_t, st_t> const acc,
+          typename Type::ctrl_t const& ctrl) {
+        auto const [empty, full, deleted] = acc;
+        return std::tuple{Type::is_empty(ctrl) ? empty + 1 : empty,
+                          Type::is_full(ctrl) ? full + 1 : full,
+                          Type::is_deleted(ctrl) ? deleted + 1 : deleted};
+      });
 
   c.require(el->size_ == total_full, "hash storage: size");
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
-  c.require(std::min(Type::capacity_to_growth(el->capacity_) - el->size_,
-                     total_growth_left) <= el->growth_left_,
+  c.require(Type::capacity_to_growth(el->capacity_) ==
+                total_full + total_deleted + el->growth_left_,
             "hash storage: growth left");
 }
 
-- 
2.43.0


From 96682e18e9cf73eeee590743af7b3cbdd6036d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 009/108] fix: deserialize finds over-aligned root objects
 behind a short header

---
 include/cista/serialization.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 53ff51b..915d6de 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -479,6 +479,13 @@ constexpr offset_t data_start(mode const m) noexcept {
   return start;
 }
 
+template <typename T>
+constexpr offset_t root_start(mode const m) noexcept {
+  constexpr auto const alignment =
+      static_cast<offset_t>(std::alignment_of_v<T>);
+  return (data_start(m) + alignment - 1) / alignment * alignment;
+}
+
 template <mode const Mode = mode::NONE, typename Target, typename T>
 void serialize(Target& t, T& value) {
   serialization_context<Target, Mode> c{t};
@@ -1063,7 +1070,7 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from);
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + data_start(Mode));
+    auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From 0d549f322224d585365b86f92f264073c26e8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 010/108] fix: optional destroys the value it holds

---
 include/cista/containers/optional.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..01a4fec 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -22,11 +22,30 @@ struct optional {
   optional(std::nullopt_t) noexcept {}
 
   optional(optional const& other) { copy(other); }
-  optional& operator=(optional const& other) { return copy(other); }
+  optional& operator=(optional const& other) {
+    if (this != &other) {
+      reset();
+      copy(other);
+    }
+    return *this;
+  }
 
   optional(optional&& other) noexcept { move(std::forward<optional>(other)); }
   optional& operator=(optional&& other) noexcept {
-    return move(std::forward<optional>(other));
+    if (this != &other) {
+      reset();
+      move(std::forward<optional>(other));
+    }
+    return *this;
+  }
+
+  ~optional() { reset(); }
+
+  void reset() noexcept {
+    if (valid_) {
+      reinterpret_cast<T*>(&storage_[0])->~T();
+      valid_ = false;
+    }
   }
 
   optional& copy(optional const& other) {
-- 
2.43.0


From a2b5272ee046bc90c6090ca7d36d518ee1885363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 011/108] fix: copying a non-const optional does not construct
 its value from the optional

---
 include/cista/containers/optional.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index 01a4fec..da40ff9 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -12,7 +12,10 @@ template <typename T>
 struct optional {
   optional() = default;
 
-  template <typename... Ts>
+  template <typename... Ts,
+            typename = std::enable_if_t<
+                !(sizeof...(Ts) == 1U &&
+                  (std::is_same_v<std::decay_t<Ts>, optional> || ...))>>
   optional(Ts&&... t) noexcept(std::is_nothrow_constructible_v<T, Ts...>) {
     new (&storage_[0]) T{std::forward<Ts>(t)...};
     valid_ = true;
-- 
2.43.0


From a57a205e07324258c5f7ef41f155781299a4dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 012/108] fix: bitvec serializes its size like its other
 members

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..ea043b6 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -44,7 +44,7 @@ struct basic_bitvec {
     return ret;
   }
 
-  auto cista_members() noexcept { return std::tie(blocks_); }
+  auto cista_members() noexcept { return std::tie(size_, blocks_); }
 
   static constexpr size_type num_blocks(size_type num_bits) {
     return static_cast<size_type>(num_bits / bits_per_block +
-- 
2.43.0


From 17824b29f73bad417ed2c4b4eeceabc0b4521ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 013/108] fix: deserialize converts and checks C strings

---
 include/cista/serialization.h | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 915d6de..5c35593 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -886,6 +886,41 @@ void recurse(Ctx& c, basic_string_view<Ptr>* el, Fn&& fn) {
   recurse(c, static_cast<generic_string<Ptr>*>(el), fn);
 }
 
+// --- CSTRING ---
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (!el->is_short()) {
+    deserialize(c, &el->h_.ptr_);
+    c.convert_endian(el->h_.size_);
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
+  using Type = generic_cstring<Ptr>;
+  if (el->is_short()) {
+    c.require(static_cast<typename Type::msize_t>(el->s_.remaining_) <=
+                  Type::short_length_limit,
+              "cstr remaining capacity");
+  } else {
+    c.require(el->h_.ptr_ != nullptr, "cstr ptr must be set");
+    c.check_ptr(el->h_.ptr_, static_cast<std::size_t>(el->h_.size_) + 1U);
+    c.check_bool(el->h_.self_allocated_);
+    c.require(!el->h_.self_allocated_, "cstr self-allocated");
+    c.require(el->data()[el->size()] == '\0', "cstr zero-terminated");
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, basic_cstring<Ptr>* el) {
+  convert_endian_and_ptr(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, basic_cstring<Ptr>* el) {
+  check_state(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
 // --- UNIQUE_PTR<T> ---
 template <typename Ctx, typename T, typename Ptr>
 void convert_endian_and_ptr(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
-- 
2.43.0


From 8139d869c53ad2b018764a7f6e78b2c37ccfb11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 014/108] fix: file::content returns the whole file on every
 read

---
 include/cista/targets/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..d676164 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -250,6 +250,7 @@ struct file {
   }
 
   buffer content() {
+    verify(!std::fseek(f_, 0L, SEEK_SET), "fseek error");
     auto b = buffer(size());
     verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(), "read error");
     return b;
-- 
2.43.0


From dbf5b6d9a37d9816c30c5a70050e16609ee8fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 015/108] fix: file::checksum equals the checksum of the buffer
 for every hash function

---
 include/cista/hash.h         |  8 ++++++++
 include/cista/targets/file.h | 38 +++++++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index 04b647e..09077c6 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -5,6 +5,14 @@
 
 namespace cista {
 
+// Whether hash(b, hash(a)) is the hash of a followed by b.
+#if defined(CISTA_XXH3) || defined(CISTA_WYHASH) || \
+    defined(CISTA_WYHASH_FASTEST)
+constexpr auto const HASH_IS_INCREMENTAL = false;
+#else
+constexpr auto const HASH_IS_INCREMENTAL = true;
+#endif
+
 #if defined(CISTA_XXH3)
 
 #include "xxh3.h"
diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index d676164..995d634 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -112,7 +112,9 @@ struct file {
     constexpr auto const block_size = 512U * 1024U;  // 512kB
     auto c = BASE_HASH;
     char buf[block_size];
-    chunk(block_size, size_ - static_cast<std::size_t>(start),
+    auto const total = size_ - static_cast<std::size_t>(start);
+    auto all = HASH_IS_INCREMENTAL ? buffer{} : buffer{total};
+    chunk(block_size, total,
           [&](auto const from, auto const size) {
             OVERLAPPED overlapped = {0};
             overlapped.Offset = static_cast<DWORD>(start + from);
@@ -124,9 +126,16 @@ struct file {
                             &overlapped),
                    "checksum read error");
             verify(bytes_read == size, "checksum read error bytes read");
-            c = hash(std::string_view{buf, size}, c);
+            if constexpr (HASH_IS_INCREMENTAL) {
+              c = hash(std::string_view{buf, size}, c);
+            } else {
+              std::memcpy(all.data() + from, buf, size);
+            }
           });
-    return c;
+    return HASH_IS_INCREMENTAL
+               ? c
+               : hash(std::string_view{
+                     reinterpret_cast<char const*>(all.data()), all.size()});
   }
 
   template <typename T>
@@ -261,14 +270,21 @@ struct file {
         static_cast<std::size_t>(512U * 1024U);  // 512kB
     verify(size_ >= static_cast<std::size_t>(start), "invalid checksum offset");
     verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), "fseek error");
-    auto c = BASE_HASH;
-    char buf[block_size];
-    chunk(block_size, size_ - static_cast<std::size_t>(start),
-          [&](auto const, auto const s) {
-            verify(std::fread(buf, 1U, s, f_) == s, "invalid read");
-            c = hash(std::string_view{buf, s}, c);
-          });
-    return c;
+    auto const total = size_ - static_cast<std::size_t>(start);
+    if constexpr (HASH_IS_INCREMENTAL) {
+      auto c = BASE_HASH;
+      char buf[block_size];
+      chunk(block_size, total, [&](auto const, auto const s) {
+        verify(std::fread(buf, 1U, s, f_) == s, "invalid read");
+        c = hash(std::string_view{buf, s}, c);
+      });
+      return c;
+    } else {
+      auto b = buffer{total};
+      verify(std::fread(b.data(), 1U, total, f_) == total, "invalid read");
+      return hash(std::string_view{reinterpret_cast<char const*>(b.data()),
+                                   b.size()});
+    }
   }
 
   template <typename T>
-- 
2.43.0


From 14a69f510e01ec54bc277b61a1cc2015bc56f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 016/108] fix: checking a hostile offset pointer does not
 overflow

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 5c35593..b5eca5c 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -611,7 +611,7 @@ struct deserialization_context {
   template <typename T>
   void check_ptr(offset_ptr<T> const& el,
                  std::size_t const size = type_size<T>()) const {
-    if (el != nullptr) {
+    if (el.offset_ != NULLPTR_OFFSET) {
       checked_addition(el.offset_, reinterpret_cast<offset_t>(&el));
       check_ptr(el.get(), size);
     }
-- 
2.43.0


From 9cf068cb9317575af68e1a4367723a5599aabdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 017/108] fix: deserialize rejects hash tables on which lookups
 misbehave

---
 include/cista/serialization.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index b5eca5c..c66e2ff 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -993,8 +993,15 @@ void check_state(Ctx const& c,
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "hash storage: self-allocated");
 
+  c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
+            "hash storage: capacity=2^n-1");
   c.require(el->ctrl_[el->capacity_] == Type::END,
             "hash storage: end ctrl byte");
+  for (auto i = typename Type::size_type{0U}; i != Type::WIDTH; ++i) {
+    c.require(el->ctrl_[el->capacity_ + 1U + i] ==
+                  (i < el->capacity_ ? el->ctrl_[i] : Type::EMPTY),
+              "hash storage: cloned ctrl bytes");
+  }
   c.require(std::all_of(ptr_cast(el->ctrl_),
                         ptr_cast(el->ctrl_) + el->capacity_ + 1U + Type::WIDTH,
                         [](typename Type::ctrl_t const ctrl) {
@@ -1021,7 +1028,7 @@ void check_state(Ctx const& c,
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
   c.require(Type::capacity_to_growth(el->capacity_) ==
-                total_full + total_deleted + el->growth_left_,
+                checked_addition(total_full, total_deleted, el->growth_left_),
             "hash storage: growth left");
 }
 
-- 
2.43.0


From 1d8563904bde5bc8b2366fcd65335a51a022d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 018/108] fix: rehashing a hash table without storage does
 nothing

---
 include/cista/containers/hash_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 753c675..7663221 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -646,7 +646,11 @@ struct hash_storage {
     self_allocated_ = false;
   }
 
-  void rehash() { resize(capacity_); }
+  void rehash() {
+    if (capacity_ != 0U) {
+      resize(capacity_);
+    }
+  }
 
   iterator iterator_at(size_type const i) noexcept {
     return {ctrl_ + i, entries_ + i};
-- 
2.43.0


From ee57f792ce4d06502c6fa6cceb4783a92917c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 019/108] fix: cstring can be constructed from a pointer and a
 length

---
 include/cista/containers/cstring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..7548656 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -45,6 +45,12 @@ struct generic_cstring {
   }
   generic_cstring(char const* s, owning_t const) { set_owning(s); }
   generic_cstring(char const* s, non_owning_t const) { set_non_owning(s); }
+  generic_cstring(char const* s, msize_t const len, owning_t const) {
+    set_owning(s, len);
+  }
+  generic_cstring(char const* s, msize_t const len, non_owning_t const) {
+    set_non_owning(s, len);
+  }
 
   char* begin() noexcept { return data(); }
   char* end() noexcept { return data() + size(); }
-- 
2.43.0


From d6f1329e3c416a21fd88b7ccfd326a6374a81be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 020/108] fix: assigning a string view to itself keeps short
 contents

---
 include/cista/containers/string.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..0598fed 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -526,11 +526,15 @@ struct basic_string_view : public generic_string<Ptr> {
     base::set_non_owning(o.data(), o.size());
   }
   basic_string_view& operator=(basic_string_view const& o) {
-    base::set_non_owning(o.data(), o.size());
+    if (&o != this) {
+      base::set_non_owning(o.data(), o.size());
+    }
     return *this;
   }
   basic_string_view& operator=(basic_string_view&& o) {
-    base::set_non_owning(o.data(), o.size());
+    if (&o != this) {
+      base::set_non_owning(o.data(), o.size());
+    }
     return *this;
   }
 
-- 
2.43.0


From ade7b3b6a807aa9007f8e576f5ca5342034a1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 021/108] fix: assigning a cstring to itself keeps its contents

---
 include/cista/containers/cstring.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 7548656..b7a3ffd 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -378,7 +378,9 @@ struct basic_cstring : public generic_cstring<Ptr> {
   basic_cstring(basic_cstring&& o) { base::move_from(std::move(o)); }
 
   basic_cstring& operator=(basic_cstring const& o) {
-    base::set_owning(o.data(), o.size());
+    if (&o != this) {
+      base::set_owning(o.data(), o.size());
+    }
     return *this;
   }
 
@@ -426,11 +428,15 @@ struct basic_cstring_view : public generic_cstring<Ptr> {
     base::set_non_owning(o.data(), o.size());
   }
   basic_cstring_view& operator=(basic_cstring_view const& o) {
-    base::set_non_owning(o.data(), o.size());
+    if (&o != this) {
+      base::set_non_owning(o.data(), o.size());
+    }
     return *this;
   }
   basic_cstring_view& operator=(basic_cstring_view&& o) {
-    base::set_non_owning(o.data(), o.size());
+    if (&o != this) {
+      base::set_non_owning(o.data(), o.size());
+    }
     return *this;
   }
 
-- 
2.43.0


From dfc6df80565fbc2c94fd8a3863c9bdf298d53ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 022/108] fix: move assignment of cstrings frees the old
 contents

---
 include/cista/containers/cstring.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index b7a3ffd..7659d2f 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -123,6 +123,10 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
+    if (&s == this) {
+      return;
+    }
+    reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
       std::memset(static_cast<void*>(&s), 0, sizeof(*this));
-- 
2.43.0


From e81a7220b079987f626604944913dd402d547457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 023/108] fix: serialize writes a null pointer for empty heap
 strings

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index c66e2ff..54d35af 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -221,7 +221,7 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
   }
 
   auto const start =
-      (origin->h_.ptr_ == nullptr)
+      origin->empty()
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
                     origin->size() * sizeof(typename Type::CharT),
-- 
2.43.0


From 0939d1661d52390a65c3506d20187ff648b0f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 024/108] fix: assigning an lvalue to a variant that holds the
 same alternative assigns it

---
 include/cista/containers/variant.h | 897 +++++++++++++++--------------
 1 file changed, 449 insertions(+), 448 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..5a3fb1c 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,448 +1,449 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *(new (&storage_)
+                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = I;
+    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From 446d9def29ad67b1799d249f2beaf55220ea859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 025/108] fix: empty variants can be copied, moved, assigned,
 swapped, compared and hashed

---
 include/cista/containers/variant.h | 38 +++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5a3fb1c..267fbaa 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,12 +82,18 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
@@ -95,9 +101,19 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
   variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
@@ -132,42 +148,42 @@ struct variant {
   constexpr operator bool() const noexcept { return valid(); }
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
+    return a.idx_ == b.idx_ && a.valid()
                ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
-               : false;
+               : a.idx_ == b.idx_;
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
+    return a.idx_ == b.idx_ && a.valid()
                ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
-               : true;
+               : a.idx_ != b.idx_;
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
+    return a.idx_ == b.idx_ && a.valid()
                ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
                : a.idx_ < b.idx_;
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
+    return a.idx_ == b.idx_ && a.valid()
                ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
                : a.idx_ > b.idx_;
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
+    return a.idx_ == b.idx_ && a.valid()
                ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
                : a.idx_ <= b.idx_;
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
+    return a.idx_ == b.idx_ && a.valid()
                ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
                : a.idx_ >= b.idx_;
@@ -194,6 +210,9 @@ struct variant {
   constexpr std::size_t index() const noexcept { return idx_; }
 
   void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
     if (idx_ == o.idx_) {
       apply(
           [](auto&& a, auto&& b) {
@@ -346,6 +365,9 @@ struct variant {
   }
 
   hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
     return apply([&](auto&& val) {
       auto const idx = index();
       auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-- 
2.43.0


From 883a5f22d6f9aadfffe0d7becae01c377c89cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 026/108] fix: a variant is empty after the construction of an
 alternative threw

---
 include/cista/containers/variant.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 267fbaa..dea3c9b 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -132,8 +132,9 @@ struct variant {
       return *this;
     }
     destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    idx_ = NO_VALUE;
     new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
     return *this;
   }
 #if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
@@ -193,18 +194,22 @@ struct variant {
   Arg& emplace(CtorArgs&&... ctor_args) {
     static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
     destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_)
+                     std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
     idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    return el;
   }
 
   template <std::size_t I, typename... CtorArgs>
   type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
     static_assert(I < sizeof...(T));
     destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
         std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return el;
   }
 
   constexpr std::size_t index() const noexcept { return idx_; }
-- 
2.43.0


From 9bc545afaa2036acb06a7a25b8267e5c8b6136ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 027/108] fix: variants can have more than 15 alternatives

---
 include/cista/containers/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index dea3c9b..afeda51 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -349,7 +349,8 @@ struct variant {
     }
 
     if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
     }
 
 #ifndef _MSC_VER
-- 
2.43.0


From 78b7506805399570a2de7b856b0a8e2a4c7afb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 028/108] fix: assigning a variant keeps the index of a
 repeated alternative type

---
 include/cista/containers/variant.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index afeda51..460a799 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -101,21 +101,30 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (this == &o) {
+      return *this;
+    }
     if (!o.valid()) {
       destruct();
       idx_ = NO_VALUE;
       return *this;
     }
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+    o.apply([&](auto&& el) -> variant& { return *this = el; });
+    idx_ = o.idx_;
+    return *this;
   }
   variant& operator=(variant&& o) {
+    if (this == &o) {
+      return *this;
+    }
     if (!o.valid()) {
       destruct();
       idx_ = NO_VALUE;
       return *this;
     }
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
+    o.apply([&](auto&& el) -> variant& { return *this = std::move(el); });
+    idx_ = o.idx_;
+    return *this;
   }
 
   template <typename Arg,
-- 
2.43.0


From 13b0fe8e8d9872360ff03ee4c418dd3d5d9da063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 029/108] fix: bits beyond the size of a bitset are never set,
 so equal bitsets have equal hashes

---
 include/cista/containers/bitset.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitset.h b/include/cista/containers/bitset.h
index bb0447a..31802f9 100644
--- a/include/cista/containers/bitset.h
+++ b/include/cista/containers/bitset.h
@@ -29,6 +29,7 @@ struct bitset {
     for (auto& b : ret.blocks_) {
       b = std::numeric_limits<block_t>::max();
     }
+    ret.sanitize();
     return ret;
   }
 
@@ -86,7 +87,11 @@ struct bitset {
 
   bool none() const noexcept { return !any(); }
 
-  block_t sanitized_last_block() const noexcept {
+  constexpr void sanitize() noexcept {
+    blocks_[num_blocks - 1U] = sanitized_last_block();
+  }
+
+  constexpr block_t sanitized_last_block() const noexcept {
     if constexpr ((Size % bits_per_block) != 0U) {
       return blocks_[num_blocks - 1U] &
              ~((~block_t{0U}) << (Size % bits_per_block));
@@ -195,6 +200,7 @@ struct bitset {
     for (auto& b : copy.blocks_) {
       b = ~b;
     }
+    copy.sanitize();
     return copy;
   }
 
@@ -267,6 +273,7 @@ struct bitset {
 
     if constexpr (num_blocks == 1U) {
       blocks_[0U] <<= shift;
+      sanitize();
       return *this;
     } else {
       if (shift == 0U) {
@@ -293,6 +300,7 @@ struct bitset {
         blocks_[i] = 0U;
       }
 
+      sanitize();
       return *this;
     }
   }
-- 
2.43.0


From ac51aab98f7e85fcd87cbbf956e30ba273d29a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 030/108] fix: bitvec::reset and shifts by the size or more
 clear the bits and keep the storage

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ea043b6..4e52fae 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From 1b30b4ff799773bba4c42222f08393dd7c642e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 031/108] fix: bits beyond the size of a bitvec are never set,
 so equal bitvecs have equal hashes

---
 include/cista/containers/bitvec.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index 4e52fae..e7a460d 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -41,6 +41,7 @@ struct basic_bitvec {
     for (auto& b : ret.blocks_) {
       b = std::numeric_limits<block_t>::max();
     }
+    ret.sanitize();
     return ret;
   }
 
@@ -61,6 +62,7 @@ struct basic_bitvec {
     for (auto& b : blocks_) {
       b = ~block_t{0};
     }
+    sanitize();
   }
 
   void resize(size_type const new_size) {
@@ -74,6 +76,7 @@ struct basic_bitvec {
     }
     blocks_.resize(num_blocks(new_size));
     size_ = new_size;
+    sanitize();
   }
 
   void set(std::string_view s) {
@@ -246,6 +249,12 @@ struct basic_bitvec {
 
   bool none() const noexcept { return !any(); }
 
+  void sanitize() noexcept {
+    if (!empty()) {
+      blocks_[blocks_.size() - 1] = sanitized_last_block();
+    }
+  }
+
   block_t sanitized_last_block() const noexcept {
     if ((size_ % bits_per_block) != 0) {
       return blocks_[blocks_.size() - 1] &
@@ -357,6 +366,7 @@ struct basic_bitvec {
     for (auto& b : copy.blocks_) {
       b = ~b;
     }
+    copy.sanitize();
     return copy;
   }
 
@@ -432,6 +442,7 @@ struct basic_bitvec {
 
     if (blocks_.size() == 1U) {
       blocks_[0] <<= shift;
+      sanitize();
       return *this;
     } else {
       if (shift == 0U) {
@@ -458,6 +469,7 @@ struct basic_bitvec {
         blocks_[i] = 0U;
       }
 
+      sanitize();
       return *this;
     }
   }
-- 
2.43.0


From cfde78dd72f124f5876f9e0674fad8c39a4670ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 032/108] fix: bitvec::next_set_bit does not return a bit
 beyond the size

---
 include/cista/containers/bitvec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index e7a460d..b2ded45 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -175,7 +175,9 @@ struct basic_bitvec {
     }
 
     auto const first_block_idx = i / bits_per_block;
-    auto const first_block = blocks_[first_block_idx];
+    auto const first_block = first_block_idx + 1U == blocks_.size()
+                                 ? sanitized_last_block()
+                                 : blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
       auto const n = std::min(size(), bits_per_block);
-- 
2.43.0


From efc5ccb7420a8950a277dc20f0e03cb355bc886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 033/108] fix: vector::insert(pos, count, value) is not
 ambiguous for unsigned elements

---
 include/cista/containers/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index a575885..95586bc 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -293,7 +293,8 @@ struct basic_vector {
     return pos;
   }
 
-  template <class It>
+  template <class It, typename = typename std::iterator_traits<
+                          It>::iterator_category>
   T* insert(T* pos, It first, It last) {
     return insert(pos, first, last,
                   typename std::iterator_traits<It>::iterator_category());
-- 
2.43.0


From 21385bca031819b8e06fcf6bb95f4704f971c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 034/108] fix: nvec::size and nvec::at address and check every
 dimension

---
 include/cista/containers/nvec.h | 62 +++++++++------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..e5a2c20 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -486,55 +486,37 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    verify(to_idx(first) < size(), "nvec::size: index out of range");
+    return get_size<N - sizeof...(Indices) - 1U>(
+        get_index<N - 1U>(to_idx(first), rest...));
   }
 
   template <typename... Indices>
   bucket_t at(Key const first, Indices... rest) {
-    constexpr auto const I = sizeof...(Indices);
-    static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    static_assert(sizeof...(Indices) == N - 1U);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_index<N - 1U>(to_idx(first), rest...)};
   }
 
   template <typename... Indices>
   const_bucket_t at(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    static_assert(sizeof...(Indices) == N - 1U);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_index<N - 1U>(to_idx(first), rest...)};
   }
 
   auto cista_members() noexcept { return std::tie(index_, data_); }
 
-  template <typename... Rest>
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
-  }
-
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i) {
-    return {&data_, &index_[0], bucket_start + i};
-  }
-
-  template <typename... Rest>
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+  template <std::size_t L>
+  index_value_type get_index(index_value_type const i) const {
+    return i;
   }
 
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i) const {
-    return {&data_, &index_[0], bucket_start + i};
+  template <std::size_t L, typename... Rest>
+  index_value_type get_index(index_value_type const i, index_value_type const j,
+                             Rest... rest) const {
+    verify(j < get_size<L>(i), "nvec::at: index out of range");
+    return get_index<L - 1U>(index_[L][i] + j, rest...);
   }
 
   template <std::size_t L, typename Container>
@@ -552,16 +534,6 @@ struct basic_nvec {
     }
   }
 
-  template <std::size_t L, typename... Rest>
-  size_type get_size(index_value_type const i, index_value_type const j,
-                     Rest... rest) const {
-    if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
-    } else {
-      return get_size<L>(index_[L][i + j], rest...);
-    }
-  }
-
   template <std::size_t L>
   size_type get_size(index_value_type const i) const {
     return index_[L][i + 1] - index_[L][i];
-- 
2.43.0


From 30136f226ac21ce10939e62982655202df37f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 035/108] fix: const_bucket::at of paged_vecvec compiles

---
 include/cista/containers/paged_vecvec.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..863256a 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -50,11 +50,6 @@ struct paged_vecvec {
       return *(begin() + i);
     }
 
-    value_type& at(std::size_t const i) {
-      verify(i < size(), "paged_vecvec: const_bucket::at: index out of range");
-      return *(begin() + i);
-    }
-
     value_type const& front() const {
       assert(!empty());
       return (*this)[0];
-- 
2.43.0


From 76d1908971b44e427375a8f02240b022a0e6002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 036/108] fix: rows of a flat_matrix are iterable

---
 include/cista/containers/flat_matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..616e6ad 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -18,16 +18,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -51,10 +51,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
-- 
2.43.0


From 99228918a8d95f692ffbcdaa6ea35f794e4e012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 037/108] fix: vecvec::at rejects the index that equals the
 size

---
 include/cista/containers/vecvec.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..1333cd4 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -334,14 +334,12 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
-- 
2.43.0


From 69e1d45e356d15f10c055aaabc2c58f94ffdbb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 038/108] fix: the distance of bucket iterators can be negative

---
 include/cista/containers/nvec.h         | 6 ++++--
 include/cista/containers/paged_vecvec.h | 6 ++++--
 include/cista/containers/vecvec.h       | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index e5a2c20..1352138 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -111,7 +111,8 @@ struct const_bucket final {
                                    const_bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
@@ -247,7 +248,8 @@ struct bucket final {
   friend difference_type operator-(bucket const& a, bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 863256a..59f6b68 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -105,7 +105,8 @@ struct paged_vecvec {
     friend difference_type operator-(const_bucket const& a,
                                      const_bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -245,7 +246,8 @@ struct paged_vecvec {
     }
     friend difference_type operator-(bucket const& a, bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 1333cd4..a659973 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -170,7 +170,8 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT friend difference_type operator-(bucket const& a,
                                                        bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
@@ -304,7 +305,8 @@ struct basic_vecvec {
     friend CISTA_CUDA_COMPAT difference_type operator-(const_bucket const& a,
                                                        const_bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
-- 
2.43.0


From 879e3c406d6831e63a5661e9e366feeff9776d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 039/108] fix: shrinking a vecvec removes the elements of the
 removed buckets

---
 include/cista/containers/vecvec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index a659973..42dd67d 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -354,7 +354,7 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT index_value_type size() const {
     return empty() ? 0U : bucket_starts_.size() - 1;
   }
-  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.empty(); }
+  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.size() < 2U; }
 
   void clear() {
     bucket_starts_.clear();
@@ -404,6 +404,10 @@ struct basic_vecvec {
 
   void resize(std::size_t const new_size) {
     auto const old_size = bucket_starts_.size();
+    if (new_size < size()) {
+      data_.erase(std::next(std::begin(data_), bucket_starts_[new_size]),
+                  std::end(data_));
+    }
     bucket_starts_.resize(
         static_cast<typename IndexVec::size_type>(new_size + 1U));
     for (auto i = old_size; i < new_size + 1U; ++i) {
-- 
2.43.0


From 755a5f6713683aa76c452e78f4cd40897719ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 040/108] fix: an empty paged_vecvec is iterable

---
 include/cista/containers/paged_vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 59f6b68..b76623b 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -294,9 +294,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
-- 
2.43.0


From e81681f28acedb1623877d5456c940b81cccdd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 041/108] fix: pages larger than the largest page size are
 rejected

---
 include/cista/containers/paged.h        | 4 +++-
 include/cista/containers/paged_vecvec.h | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..ce6b8f5 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -38,6 +38,8 @@ struct paged {
   using page_size_type = PageSizeType;
   using page_t = page<SizeType, PageSizeType>;
 
+  static constexpr auto const max_page_size = MaxPageSize;
+
   static_assert(sizeof(value_type) * MinPageSize >= sizeof(page_t));
   static_assert(std::is_trivially_copyable_v<value_type>);
 
@@ -61,9 +63,9 @@ struct paged {
   }
 
   page_t create_page(PageSizeType const size) {
+    verify(size <= MaxPageSize, "paged::create_page: size > max capacity");
     auto const capacity = next_power_of_two(std::max(MinPageSize, size));
     auto const i = free_list_index(capacity);
-    verify(i < free_list_.size(), "paged::create_page: size > max capacity");
     if (!free_list_[i].empty()) {
       auto const start = free_list_[i].pop(*this);
       return {size, capacity, start};
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index b76623b..3fabf25 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -308,6 +308,8 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
+    verify(bucket.size() <= Paged::max_page_size,
+           "paged_vecvec::emplace_back: size > max page size");
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
@@ -332,6 +334,8 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
+    verify(bucket.size() <= Paged::max_page_size,
+           "paged_vecvec::insert: size > max page size");
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
-- 
2.43.0


From 74bd8586b85f8b1e26eeb0fcd0d4c37f984390be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 042/108] fix: inserting into a paged_vecvec bucket returns the
 inserted element

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 3fabf25..0ea69fa 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -162,7 +162,8 @@ struct paged_vecvec {
       auto const old_offset = std::distance(begin(), it);
       auto const old_size = size();
       push_back(data_value_type{el});
-      return std::rotate(begin() + old_offset, begin() + old_size, end());
+      std::rotate(begin() + old_offset, begin() + old_size, end());
+      return begin() + old_offset;
     }
 
     template <typename T = std::decay_t<data_value_type>,
-- 
2.43.0


From 1038ce0e6aab116992d2e032c6923eb01a91bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 043/108] fix: appending an element of a paged_vecvec to a
 bucket copies it first

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 0ea69fa..d0ad7e8 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -152,9 +152,10 @@ struct paged_vecvec {
     }
 
     void push_back(data_value_type const& x) {
+      auto const copy = x;
       auto& p = pv_->page(i_);
       p = pv_->paged_.resize_page(p, p.size_ + 1U);
-      (*this)[size() - 1U] = x;
+      (*this)[size() - 1U] = copy;
     }
 
     template <typename Arg>
-- 
2.43.0


From d0ce4526df19b601f964426d500f872827e5ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 044/108] fix: fws_multimap iterators subtract distances and
 support operator[]

---
 include/cista/containers/fws_multimap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..06c731d 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,14 +91,14 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
     return index_ - o.index_;
   }
 
-  value_type& operator[](int const n) const { return {map_, index_ + n}; }
+  value_type operator[](int const n) const { return map_[index_ + n]; }
 
   bool operator<(fws_multimap_iterator const& o) const {
     return index_ < o.index_;
-- 
2.43.0


From 609b05306e3c3871f8ac6704c2619d0b76c6a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 045/108] fix: operator[] of const mutable_fws_multimap
 iterators compiles

---
 include/cista/containers/mutable_fws_multimap.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..f752635 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -341,12 +341,7 @@ struct dynamic_fws_multimap_base {
              static_cast<difference_type>(rhs.index_);
     }
 
-    value_type operator[](difference_type n) const {
-      return multimap_.at(access_t{index_ + n});
-    }
-
-    template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
-    value_type operator[](difference_type const n) {
+    value_type operator[](difference_type const n) const {
       return const_cast<dynamic_fws_multimap_base&>(multimap_)  // NOLINT
           .at(access_t{index_ + n});
     }
-- 
2.43.0


From 0302d0fd161971b8c28b09f6045aaa1e1def7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 046/108] fix: decrementing a mutable_fws_multimap iterator
 moves backwards

---
 include/cista/containers/mutable_fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index f752635..8bffc1f 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -318,7 +318,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
-- 
2.43.0


From 644e45311ea55942a53e0b203d45ef9bd09e981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 047/108] fix: inserting an element of a mutable_fws_multimap
 into a bucket copies it first

---
 include/cista/containers/mutable_fws_multimap.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 8bffc1f..84c263e 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -145,15 +145,14 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type const& val) {
-      auto insert_it = prepare_insert(it);
-      *insert_it = val;
-      return insert_it;
+      return insert(it, value_type{val});
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type&& val) {
+      auto tmp = std::move(val);
       auto insert_it = prepare_insert(it);
-      *insert_it = std::move(val);
+      *insert_it = std::move(tmp);
       return insert_it;
     }
 
@@ -595,8 +594,9 @@ struct dynamic_fws_multimap_base {
   }
 
   size_type push_back_entry(size_type const map_index, value_type const& val) {
+    auto copy = val;
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = val;
+    data_[data_index] = std::move(copy);
     ++element_count_;
     return data_index;
   }
@@ -604,8 +604,9 @@ struct dynamic_fws_multimap_base {
   template <typename... Args>
   size_type emplace_back_entry(size_type const i, Args&&... args) {
     auto const map_index = to_idx(i);
+    auto val = value_type{std::forward<Args>(args)...};
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = value_type{std::forward<Args>(args)...};
+    data_[data_index] = std::move(val);
     ++element_count_;
     return data_index;
   }
-- 
2.43.0


From 797b08ce1494a14d43a9eb62312bfb03173a38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 048/108] fix: mutable_fws_multimap::erase(key) updates the
 element count

---
 include/cista/containers/mutable_fws_multimap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 84c263e..f7ad8d1 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -425,6 +425,8 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
+      element_count_ -= index_[to_idx(i)].size_;
+      index_[to_idx(i)].size_ = 0U;
       release_bucket(index_[to_idx(i)]);
     }
   }
-- 
2.43.0


From e96d515a6d051d7d0046d6de11e8fdfb0f0ac61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 049/108] fix: mutable_fws_multimap bucket::erase returns the
 element after the erased ones

---
 include/cista/containers/mutable_fws_multimap.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index f7ad8d1..29802ac 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -204,6 +204,7 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator erase(iterator pos) {
+      auto const next = pos;
       auto last = std::prev(end());
       while (pos < last) {
         std::swap(*pos, *std::next(pos));
@@ -212,7 +213,7 @@ struct dynamic_fws_multimap_base {
       (*pos).~T();
       --get_index().size_;
       --mutable_mm().element_count_;
-      return end();
+      return next;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
@@ -226,7 +227,7 @@ struct dynamic_fws_multimap_base {
         get_index().size_ -= count;
         mutable_mm().element_count_ -= count;
       }
-      return end();
+      return first;
     }
 
   protected:
-- 
2.43.0


From 849836cee85c1fa52433aec470b24fd6516e6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 050/108] fix: rtree path hints beyond the hint array (tall
 trees) are not used

---
 include/cista/containers/rtree.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index de74b0b..4af003e 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -380,7 +380,7 @@ struct basic_rtree {
 
   std::uint32_t node_choose(node const& search_node, rect const& search_rect,
                             std::uint32_t const depth) {
-    auto const h = m_.path_hint_[depth];
+    auto const h = get_path_hint(depth);
     if (h < search_node.count_) {
       if (search_node.rects_[h].contains(search_rect)) {
         return h;
@@ -390,17 +390,28 @@ struct basic_rtree {
     // Take a quick look for the first node that contain the rect.
     for (auto i = 0U; i != search_node.count_; ++i) {
       if (search_node.rects_[i].contains(search_rect)) {
-        m_.path_hint_[depth] = i;
+        set_path_hint(depth, i);
         return i;
       }
     }
 
     // Fallback to using che "choose least enlargment" algorithm.
     auto const i = search_node.choose_least_enlargement(search_rect);
-    m_.path_hint_[depth] = i;
+    set_path_hint(depth, i);
     return i;
   }
 
+  // Trees can be taller than the number of path hints.
+  std::uint32_t get_path_hint(std::uint32_t const depth) const {
+    return depth < m_.path_hint_.size() ? m_.path_hint_[depth] : 0U;
+  }
+
+  void set_path_hint(std::uint32_t const depth, std::uint32_t const hint) {
+    if (depth < m_.path_hint_.size()) {
+      m_.path_hint_[depth] = hint;
+    }
+  }
+
   node& get_node(node_idx_t const node_id) { return nodes_[node_id]; }
   node const& get_node(node_idx_t const node_id) const {
     return nodes_[node_id];
@@ -502,7 +513,7 @@ struct basic_rtree {
       return;
     }
 
-    auto h = m_.path_hint_[depth];
+    auto h = get_path_hint(depth);
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -537,7 +548,7 @@ struct basic_rtree {
         shrunk = true;
         return;
       }
-      m_.path_hint_[depth] = h;
+      set_path_hint(depth, h);
       if (shrunk) {
         shrunk = !delete_node.rects_[h].equals(crect);
         if (shrunk) {
-- 
2.43.0


From 10ed0551c1b54800e7314b1558fb8971b52543e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 051/108] fix: rtree deletion does not search the hinted child
 twice (exponential in the height)

---
 include/cista/containers/rtree.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index 4af003e..cad8cec 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -515,8 +515,11 @@ struct basic_rtree {
 
     auto h = get_path_hint(depth);
     auto crect = rect{};
+    auto searched = delete_node.count_;
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
+        searched = h;
+        crect = delete_node.rects_[h];
         node_delete(delete_node.rects_[h], delete_node.children_[h], input_rect,
                     depth + 1, removed, shrunk, fn);
         if (removed) {
@@ -526,7 +529,7 @@ struct basic_rtree {
     }
     h = 0;
     for (; h < delete_node.count_; h++) {
-      if (!delete_node.rects_[h].contains(input_rect)) {
+      if (h == searched || !delete_node.rects_[h].contains(input_rect)) {
         continue;
       }
       crect = delete_node.rects_[h];
-- 
2.43.0


From c109fad2f02d55c4366aaa3391c16f3dbae6ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 052/108] fix: comparing optionals compares their values, not
 only whether they have one

---
 include/cista/containers/optional.h | 37 +++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index da40ff9..af3864f 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -102,4 +102,41 @@ struct optional {
   alignas(std::alignment_of_v<T>) unsigned char storage_[sizeof(T)];
 };
 
+template <typename T>
+auto operator==(optional<T> const& a, optional<T> const& b)
+    -> decltype(static_cast<bool>(a.value() == b.value())) {
+  return a.has_value() == b.has_value() &&
+         (!a.has_value() || a.value() == b.value());
+}
+
+template <typename T>
+auto operator!=(optional<T> const& a, optional<T> const& b)
+    -> decltype(static_cast<bool>(a.value() == b.value())) {
+  return !(a == b);
+}
+
+template <typename T>
+auto operator<(optional<T> const& a, optional<T> const& b)
+    -> decltype(static_cast<bool>(a.value() < b.value())) {
+  return b.has_value() && (!a.has_value() || a.value() < b.value());
+}
+
+template <typename T>
+auto operator>(optional<T> const& a, optional<T> const& b)
+    -> decltype(static_cast<bool>(a.value() < b.value())) {
+  return b < a;
+}
+
+template <typename T>
+auto operator<=(optional<T> const& a, optional<T> const& b)
+    -> decltype(static_cast<bool>(a.value() < b.value())) {
+  return !(b < a);
+}
+
+template <typename T>
+auto operator>=(optional<T> const& a, optional<T> const& b)
+    -> decltype(static_cast<bool>(a.value() < b.value())) {
+  return !(a < b);
+}
+
 }  // namespace cista
-- 
2.43.0


From b426133456307dda7769bb5812818ec900c57f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 053/108] fix: resetting a non-owning unique_ptr clears it,
 self-move keeps the object

---
 include/cista/containers/unique_ptr.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..64781cb 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,11 +28,13 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
-    reset();
-    el_ = o.el_;
-    self_allocated_ = o.self_allocated_;
-    o.el_ = nullptr;
-    o.self_allocated_ = false;
+    if (this != &o) {
+      reset();
+      el_ = o.el_;
+      self_allocated_ = o.self_allocated_;
+      o.el_ = nullptr;
+      o.self_allocated_ = false;
+    }
     return *this;
   }
 
@@ -47,9 +49,9 @@ struct basic_unique_ptr {
   void reset() {
     if (self_allocated_ && el_ != nullptr) {
       delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
     }
+    el_ = nullptr;
+    self_allocated_ = false;
   }
 
   explicit operator bool() const noexcept { return el_ != nullptr; }
-- 
2.43.0


From 1388d9749a220b3a68386c401b0c34d0d0e4ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 054/108] fix: hashing floating point numbers that do not fit
 an unsigned integer (FNV-1a)

---
 include/cista/hash.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index 09077c6..40a8b99 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <cinttypes>
+#include <cstring>
 #include <string_view>
+#include <type_traits>
 
 namespace cista {
 
@@ -124,6 +126,16 @@ template <typename... Args>
 constexpr hash_t hash_combine(hash_t h, Args... val) noexcept {
   constexpr hash_t fnv_prime = 1099511628211ULL;
   auto fnv = [&](auto arg) noexcept {
+    if constexpr (std::is_floating_point_v<decltype(arg)>) {
+      // Negative, too big and non-finite numbers have no integer value.
+      if (!(arg > -1 && arg < 18446744073709551616.0L)) {
+        auto bits = hash_t{0U};
+        auto const d = static_cast<double>(arg);
+        std::memcpy(&bits, &d, sizeof(bits));
+        h = (h ^ bits) * fnv_prime;
+        return;
+      }
+    }
     h = (h ^ static_cast<hash_t>(arg)) * fnv_prime;
   };
   ((fnv(val)), ...);
-- 
2.43.0


From 5dcde44b0c9800cffa8e311f3589df0ae5286f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 055/108] fix: the two floating point zeros have the same hash
 with every hash function

---
 include/cista/hashing.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 9607548..998cccb 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -107,7 +107,11 @@ struct hashing {
                  ? seed
                  : hash(std::string_view{&(*begin(el)), el.size()}, seed);
     } else if constexpr (std::is_scalar_v<Type>) {
-      return hash_combine(seed, el);
+      if constexpr (std::is_floating_point_v<Type>) {
+        return hash_combine(seed, el == Type{0} ? Type{0} : el);
+      } else {
+        return hash_combine(seed, el);
+      }
     } else if constexpr (has_std_hash_v<Type>) {
       return hash_combine(std::hash<Type>()(el), seed);
     } else if constexpr (is_iterable_v<Type>) {
-- 
2.43.0


From ea91c8ca8ce33eab52ed31ddc3d1b59fa1ccd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 056/108] fix: an empty C string has the hash of an empty
 string with every hash function

---
 include/cista/hashing.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 998cccb..7bde088 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -99,7 +99,8 @@ struct hashing {
     } else if constexpr (is_pointer_v<Type>) {
       return hash_combine(seed, reinterpret_cast<intptr_t>(ptr_cast(el)));
     } else if constexpr (is_char_array_v<Type>) {
-      return hash(std::string_view{el, sizeof(el) - 1U}, seed);
+      return sizeof(el) == 1U ? seed
+                              : hash(std::string_view{el, sizeof(el) - 1U}, seed);
     } else if constexpr (is_string_like_v<Type>) {
       using std::begin;
       using std::end;
@@ -207,7 +208,8 @@ struct hashing<std::variant<Args...>> {
 template <>
 struct hashing<char const*> {
   hash_t operator()(char const* el, hash_t const seed = BASE_HASH) {
-    return hash(std::string_view{el}, seed);
+    auto const s = std::string_view{el};
+    return s.empty() ? seed : hash(s, seed);
   }
 };
 
-- 
2.43.0


From bb8d8f13d1da210d382adfae3e2a31904516ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 057/108] fix: generic equality and hash of hash tables do not
 depend on the iteration order

---
 include/cista/containers/hash_storage.h |  2 ++
 include/cista/equal_to.h                | 25 ++++++++++++++++++++++++-
 include/cista/hashing.h                 |  6 ++++++
 include/cista/is_iterable.h             | 12 ++++++++++++
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 7663221..fef11cc 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -43,6 +43,8 @@ struct hash_storage {
       decay_t<decltype(std::declval<GetKey>().operator()(std::declval<T>()))>;
   using mapped_type =
       decay_t<decltype(std::declval<GetValue>().operator()(std::declval<T>()))>;
+  using hasher = Hash;
+  using key_equal = Eq;
   using group_t = std::uint64_t;
   using h2_t = std::uint8_t;
   static constexpr size_type const WIDTH = 8U;
diff --git a/include/cista/equal_to.h b/include/cista/equal_to.h
index b8210ef..7a75a9d 100644
--- a/include/cista/equal_to.h
+++ b/include/cista/equal_to.h
@@ -20,6 +20,26 @@ constexpr bool tuple_equal_impl(F&& is_equal, Tuple&& a, Tuple&& b,
           ...);
 }
 
+template <typename T, typename F>
+bool unordered_equal(T const& a, T const& b, F&& is_equal) {
+  if (a.size() != b.size()) {
+    return false;
+  }
+  for (auto const& el : a) {
+    if constexpr (std::is_same_v<typename T::key_type, decay_t<decltype(el)>>) {
+      if (b.find(el) == b.end()) {
+        return false;
+      }
+    } else {
+      auto const it = b.find(el.first);
+      if (it == b.end() || !is_equal(el.second, it->second)) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 }  // namespace detail
 
 template <class F, class Tuple>
@@ -50,7 +70,10 @@ struct equal_to {
   constexpr bool operator()(T const& a, T1 const& b) const {
     using Type = decay_t<T>;
     using Type1 = decay_t<T1>;
-    if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
+    if constexpr (is_unordered_v<Type> && std::is_same_v<Type, Type1>) {
+      return detail::unordered_equal(
+          a, b, [](auto&& x, auto&& y) { return equal_to<decltype(x)>{}(x, y); });
+    } else if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
       using std::begin;
       using std::end;
       auto const eq = std::equal(
diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 7bde088..c9c2070 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -115,6 +115,12 @@ struct hashing {
       }
     } else if constexpr (has_std_hash_v<Type>) {
       return hash_combine(std::hash<Type>()(el), seed);
+    } else if constexpr (is_unordered_v<Type>) {
+      auto h = hash_t{0U};
+      for (auto const& v : el) {
+        h += hashing<std::decay_t<decltype(v)>>()(v);
+      }
+      return el.empty() ? seed : hash_combine(seed, h);
     } else if constexpr (is_iterable_v<Type>) {
       auto h = seed;
       for (auto const& v : el) {
diff --git a/include/cista/is_iterable.h b/include/cista/is_iterable.h
index 89461d4..017cd30 100644
--- a/include/cista/is_iterable.h
+++ b/include/cista/is_iterable.h
@@ -29,10 +29,22 @@ struct it_value<T, std::enable_if_t<is_iterable<T>::value>> {
   using type = decay_t<decltype(*begin(std::declval<T>()))>;
 };
 
+// Containers where the iteration order is not part of the value.
+template <typename T, typename = void>
+struct is_unordered : std::false_type {};
+
+template <typename T>
+struct is_unordered<
+    T, std::void_t<typename T::hasher, typename T::key_type,
+                   decltype(begin(std::declval<T>()))>> : std::true_type {};
+
 }  // namespace detail
 
 using detail::is_iterable;
 
+template <typename T>
+constexpr bool is_unordered_v = detail::is_unordered<T>::value;
+
 template <typename T>
 constexpr bool is_iterable_v = is_iterable<T>::value;
 
-- 
2.43.0


From 0314777888302e9e50d88f6197fb578416f8eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 058/108] fix: moving a file object over an open one closes the
 latter

The handle of the overwritten file object was leaked.
---
 include/cista/targets/file.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 995d634..512f7b2 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -236,10 +236,15 @@ struct file {
   }
 
   file& operator=(file&& o) {
-    f_ = o.f_;
-    size_ = o.size_;
-    o.f_ = nullptr;
-    o.size_ = 0U;
+    if (this != &o) {
+      if (f_ != nullptr) {
+        std::fclose(f_);
+      }
+      f_ = o.f_;
+      size_ = o.size_;
+      o.f_ = nullptr;
+      o.size_ = 0U;
+    }
     return *this;
   }
 
-- 
2.43.0


From 18b4168ef98bb58730e7e128f71935e6dfc73cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 059/108] fix: moving a mapping over an open one closes the
 latter

Move assignment leaked the old mapping and left its file with the size
of the mapping instead of the logical size.
---
 include/cista/mmap.h | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..37c4884 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -37,16 +37,7 @@ struct mmap {
         used_size_{f_.size()},
         addr_{size_ == 0U ? nullptr : map()} {}
 
-  ~mmap() {
-    if (addr_ != nullptr) {
-      sync();
-      size_ = used_size_;
-      unmap();
-      if (size_ != f_.size()) {
-        resize_file();
-      }
-    }
-  }
+  ~mmap() { close(); }
 
   mmap(mmap const&) = delete;
   mmap& operator=(mmap const&) = delete;
@@ -64,15 +55,18 @@ struct mmap {
   }
 
   mmap& operator=(mmap&& o) {
-    f_ = std::move(o.f_);
-    prot_ = o.prot_;
-    size_ = o.size_;
-    used_size_ = o.used_size_;
-    addr_ = o.addr_;
+    if (this != &o) {
+      close();
+      f_ = std::move(o.f_);
+      prot_ = o.prot_;
+      size_ = o.size_;
+      used_size_ = o.used_size_;
+      addr_ = o.addr_;
 #ifdef _WIN32
-    file_mapping_ = o.file_mapping_;
+      file_mapping_ = o.file_mapping_;
 #endif
-    o.addr_ = nullptr;
+      o.addr_ = nullptr;
+    }
     return *this;
   }
 
@@ -126,6 +120,17 @@ struct mmap {
   }
 
 private:
+  void close() {
+    if (addr_ != nullptr) {
+      sync();
+      size_ = used_size_;
+      unmap();
+      if (size_ != f_.size()) {
+        resize_file();
+      }
+    }
+  }
+
   void unmap() {
 #ifdef _WIN32
     if (addr_ != nullptr) {
-- 
2.43.0


From da231845333cacf01ebaadd3126cc5d8136a84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 060/108] fix: a default constructed mapping is empty

Its members were left uninitialized, so that destroying it unmapped an
arbitrary address.
---
 include/cista/mmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index 37c4884..19636c5 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -210,12 +210,12 @@ private:
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::READ};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
-  HANDLE file_mapping_;
+  HANDLE file_mapping_{nullptr};
 #endif
 };
 
-- 
2.43.0


From 1b32539a2735445abbff15c11ea3d40cdb905ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 061/108] fix: reserving space in a mapped vector does not
 change its contents

reserve() set the logical size of the mapping: reserving more than the
size made the file end with elements nobody added, reserving less cut
elements off.
---
 include/cista/containers/mmap_vec.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 8fcbc61..6e6fb96 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -34,7 +34,7 @@ struct basic_mmap_vec {
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
     new (data() + used_size_) T{std::forward<Args>(el)...};
     T* ptr = data() + used_size_;
     ++used_size_;
@@ -72,7 +72,7 @@ struct basic_mmap_vec {
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.resize(size * sizeof(T)); }
+  void reserve(size_type const size) { mmap_.reserve(size * sizeof(T)); }
 
   void resize(size_type const size) {
     mmap_.resize(size * sizeof(T));
@@ -93,7 +93,7 @@ struct basic_mmap_vec {
                    static_cast<diff_t>(std::numeric_limits<size_type>::max()),
            "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    mmap_.resize(sizeof(T) * static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
     auto copy_target = data();
@@ -109,7 +109,7 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
     new (data() + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
@@ -122,7 +122,7 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      mmap_.resize(sizeof(T) * (used_size_ + 1U));
       new (data() + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -139,7 +139,7 @@ struct basic_mmap_vec {
 
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    mmap_.resize(sizeof(T) * (used_size_ + new_count));
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-- 
2.43.0


From e374430f733224c546deb8d7f686d5bb044c482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 062/108] fix: a failed push_back leaves a mapped vector as it
 was

push_back() to a read-only mapping throws, but the vector had one more
element afterwards, beyond the end of the mapping.
---
 include/cista/containers/mmap_vec.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 6e6fb96..a07a49f 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -27,9 +27,10 @@ struct basic_mmap_vec {
         used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
 
   void push_back(T const& t) {
+    auto const el = t;  // may be an element of this vector
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
+    new (data() + used_size_) T{el};
     ++used_size_;
-    mmap_.resize(sizeof(T) * used_size_);
-    (*this)[Key{used_size_ - 1U}] = t;
   }
 
   template <typename... Args>
-- 
2.43.0


From c614f268abeb76d30bb4d01cf577541cbd6d8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 063/108] fix: insert into a mapped vector returns the first
 inserted element

Like in std::vector; it was the element after the last inserted one.
---
 include/cista/containers/mmap_vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index a07a49f..4e64499 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -114,7 +114,8 @@ struct basic_mmap_vec {
     new (data() + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -128,7 +129,8 @@ struct basic_mmap_vec {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From 8185665270631df264aeb534d5f1e42221dd0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 064/108] fix: resetting a memory holder destroys its value
 once and empties it

reset() ran the destructor of a value owned by pointer, which was then
destroyed a second time by the pointer, dereferenced the null pointer of
an empty holder, and kept a pointer to the memory it had released.
---
 include/cista/memory_holder.h | 110 ++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index 840c375..6c24c0a 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -1,52 +1,58 @@
-#pragma once
-
-#include <variant>
-
-#include "cista/buffer.h"
-#include "cista/containers/unique_ptr.h"
-#include "cista/mmap.h"
-#include "cista/targets/buf.h"
-
-namespace cista {
-
-using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
-
-template <typename T>
-struct wrapped {
-  wrapped() = default;
-  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
-    el_.self_allocated_ = false;
-  }
-  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
-
-  void reset() {
-    el_->~T();
-    if (std::holds_alternative<buffer>(mem_)) {
-      std::get<buffer>(mem_) = buffer{};
-    } else if (std::holds_alternative<byte_buf>(mem_)) {
-      std::get<byte_buf>(mem_) = byte_buf{};
-    }
-  }
-
-  friend bool operator==(wrapped const& x, std::nullptr_t) {
-    return x.el_ == nullptr;
-  }
-
-  operator bool() const { return el_.get() != nullptr; }
-  T* get() const noexcept { return el_.get(); }
-  T* operator->() noexcept { return el_.get(); }
-  T const* operator->() const noexcept { return el_.get(); }
-  T& operator*() noexcept { return *el_; }
-  T const& operator*() const noexcept { return *el_; }
-
-  memory_holder mem_;
-  raw::unique_ptr<T> el_;
-};
-
-template <typename T>
-wrapped(memory_holder, T*) -> wrapped<T>;
-
-template <typename T>
-wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
-
-}  // namespace cista
+#pragma once
+
+#include <variant>
+
+#include "cista/buffer.h"
+#include "cista/containers/unique_ptr.h"
+#include "cista/mmap.h"
+#include "cista/targets/buf.h"
+
+namespace cista {
+
+using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
+
+template <typename T>
+struct wrapped {
+  wrapped() = default;
+  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
+    el_.self_allocated_ = false;
+  }
+  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
+
+  void reset() {
+    if (el_ == nullptr) {
+      return;
+    }
+    if (!el_.self_allocated_) {
+      el_->~T();
+    }
+    el_.reset();
+    if (std::holds_alternative<buffer>(mem_)) {
+      std::get<buffer>(mem_) = buffer{};
+    } else if (std::holds_alternative<byte_buf>(mem_)) {
+      std::get<byte_buf>(mem_) = byte_buf{};
+    }
+  }
+
+  friend bool operator==(wrapped const& x, std::nullptr_t) {
+    return x.el_ == nullptr;
+  }
+
+  operator bool() const { return el_.get() != nullptr; }
+  T* get() const noexcept { return el_.get(); }
+  T* operator->() noexcept { return el_.get(); }
+  T const* operator->() const noexcept { return el_.get(); }
+  T& operator*() noexcept { return *el_; }
+  T const& operator*() const noexcept { return *el_; }
+
+  memory_holder mem_;
+  raw::unique_ptr<T> el_;
+};
+
+template <typename T>
+wrapped(memory_holder, T*) -> wrapped<T>;
+
+template <typename T>
+wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
+
+}  // namespace cista
-- 
2.43.0


From df6488e4049f56f03ca523de2026c5077c00299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 065/108] fix: offset_ptr post increment and decrement change
 the pointer

They returned the changed value and left the pointer as it was.
---
 include/cista/containers/offset_ptr.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..9a8f909 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,17 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto const old = *this;
+    ++*this;
+    return old;
+  }
+
+  offset_ptr operator--(int) noexcept {
+    auto const old = *this;
+    --*this;
+    return old;
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From 90e40db8d5d7a12ea69dee1d12e5785790437ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 066/108] fix: comparing two offset_ptr<void> compares the
 pointers

Both were converted to bool, so that any two non-null pointers were
equal.
---
 include/cista/containers/offset_ptr.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index 9a8f909..12eb036 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -150,7 +150,7 @@ struct offset_ptr<T, std::enable_if_t<std::is_same_v<void, T>>> {
                         : static_cast<offset_t>(to_offset(p) - to_offset(this));
   }
 
-  operator bool() const noexcept { return offset_ != NULLPTR_OFFSET; }
+  explicit operator bool() const noexcept { return offset_ != NULLPTR_OFFSET; }
   explicit operator void*() const noexcept { return get(); }
   explicit operator void const*() const noexcept { return get(); }
   T* get() const noexcept {
@@ -161,6 +161,13 @@ struct offset_ptr<T, std::enable_if_t<std::is_same_v<void, T>>> {
     return ptr;
   }
 
+  friend bool operator==(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() == b.get();
+  }
+  friend bool operator!=(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() != b.get();
+  }
+
   friend bool operator==(std::nullptr_t, offset_ptr const& o) noexcept {
     return o.offset_ == NULLPTR_OFFSET;
   }
-- 
2.43.0


From a79ee5bda84bddc59839e21d1355e166bf228f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 067/108] fix: the difference of two offset pointers is their
 distance

It did not compile because the result was taken for a pointer.
---
 include/cista/containers/offset_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index 12eb036..e32efd3 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -80,7 +80,7 @@ struct offset_ptr {
   }
 
   template <typename Int>
-  T* operator-(Int const i) const noexcept {
+  auto operator-(Int const i) const noexcept {
     return get() - i;
   }
 
-- 
2.43.0


From a947715259653259a42a425951a089a25cf2c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 068/108] fix: constant offset pointers can be moved by a
 strong offset

---
 include/cista/containers/offset_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index e32efd3..a3e6beb 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -85,12 +85,12 @@ struct offset_ptr {
   }
 
   template <typename X, typename Tag>
-  constexpr T* operator+(strong<X, Tag> const& s) {
+  constexpr T* operator+(strong<X, Tag> const& s) const {
     return get() + s.v_;
   }
 
   template <typename X, typename Tag>
-  constexpr T* operator-(strong<X, Tag> const& s) {
+  constexpr T* operator-(strong<X, Tag> const& s) const {
     return get() - s.v_;
   }
 
-- 
2.43.0


From aa8a6619fbe2dd7b9f1ea6d188967da4d01e4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 069/108] fix: atomic maximum stores the greater value

It only did something if the stored value was the greater one.
---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 5d1855b..731857f 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -47,7 +47,7 @@ inline std::int16_t fetch_max(std::int16_t& block, std::int16_t const val) {
   // UB due to aliasing but `std::atomic_ref` is not there yet.
   auto const a = reinterpret_cast<std::atomic_int16_t*>(&block);
   auto old = a->load();
-  if (old > val) {
+  if (old < val) {
     while (!a->compare_exchange_weak(old, std::max(old, val),
                                      std::memory_order_release,
                                      std::memory_order_relaxed)) {
-- 
2.43.0


From b21c04e51b2fbd6198f514f21f3e489600ca9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 070/108] fix: atomic or / and return the previous value with
 C++17, too

Without std::atomic_ref they returned the new value.
---
 include/cista/atomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 731857f..95fcc25 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -16,7 +16,7 @@ inline std::uint64_t fetch_or(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_or(mask);
 #else
-  return __atomic_or_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_or(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
@@ -26,7 +26,7 @@ inline std::uint64_t fetch_and(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_and(mask);
 #else
-  return __atomic_and_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From 63c278309ade5620fc033528c39e40f202f9770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 071/108] fix: bits can be claimed from bit vectors with strong
 keys

get_next() did not compile for them.
---
 include/cista/containers/bitvec.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index b2ded45..ae78920 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -224,11 +224,12 @@ struct basic_bitvec {
   std::optional<Key> get_next(std::atomic_size_t& next) const {
     while (true) {
       auto expected = next.load();
-      auto idx = next_set_bit(Key{static_cast<base_t<Key>>(expected)});
+      auto idx = next_set_bit(static_cast<size_type>(expected));
       if (!idx.has_value()) {
         return std::nullopt;
       }
-      if (next.compare_exchange_weak(expected, *idx + 1U)) {
+      if (next.compare_exchange_weak(
+              expected, static_cast<std::size_t>(to_idx(*idx)) + 1U)) {
         return idx;
       }
     }
-- 
2.43.0


From 93f13c694687dac15c0f09e6a3e0ded2a6558a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 072/108] fix: aligned allocator reports sizes that cannot be
 allocated

The size computation wrapped around for large element counts, yielding less
memory than requested. The maximum size was limited to 4 GB.
---
 include/cista/aligned_allocator.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cista/aligned_allocator.h b/include/cista/aligned_allocator.h
index 84cf347..ce3e22f 100644
--- a/include/cista/aligned_allocator.h
+++ b/include/cista/aligned_allocator.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cinttypes>
+#include <limits>
+#include <new>
 #include <stdexcept>
 
 #include "cista/aligned_alloc.h"
@@ -32,6 +34,9 @@ struct aligned_allocator {
   const_pointer adress(const_reference r) const noexcept { return &r; }
 
   pointer allocate(size_type const n) const {
+    if (n > max_size()) {
+      throw_exception(std::bad_alloc{});
+    }
     auto const ptr =
         static_cast<pointer>(CISTA_ALIGNED_ALLOC(N, n * sizeof(value_type)));
     if (ptr == nullptr) {
@@ -49,7 +54,9 @@ struct aligned_allocator {
   void destroy(pointer p) const { p->~value_type(); }
 
   size_type max_size() const noexcept {
-    return size_type(~0U) / sizeof(value_type);
+    return static_cast<size_type>(
+               std::numeric_limits<difference_type>::max()) /
+           sizeof(value_type);
   }
 
   template <typename T2>
-- 
2.43.0


From 6b155b30d41b99133c8c022fb3c664154b585946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 073/108] fix: strong types can be shifted by strong values

---
 include/cista/strong.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cista/strong.h b/include/cista/strong.h
index 93f2e9b..0efa806 100644
--- a/include/cista/strong.h
+++ b/include/cista/strong.h
@@ -104,8 +104,12 @@ struct strong {
   constexpr strong operator<<(T const& i) const {
     return strong{static_cast<value_t>(v_ << i)};
   }
-  constexpr strong operator>>(strong const& o) const { return v_ >> o.v_; }
-  constexpr strong operator<<(strong const& o) const { return v_ << o.v_; }
+  constexpr strong operator>>(strong const& o) const {
+    return strong{static_cast<value_t>(v_ >> o.v_)};
+  }
+  constexpr strong operator<<(strong const& o) const {
+    return strong{static_cast<value_t>(v_ << o.v_)};
+  }
 
   constexpr strong& operator|=(strong const& o) {
     v_ |= o.v_;
-- 
2.43.0


From 67cbee5a49de8d467e16e44a9886e58891ceab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 074/108] fix: the index of a variant with more than 255
 alternatives is byte swapped when read

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 54d35af..ccc985c 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1057,7 +1057,7 @@ void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
 }
 
 // --- VARIANT<T...> ---
-template <typename Ctx, typename Fn, typename... T>
+template <typename Ctx, typename... T>
 void convert_endian_and_ptr(Ctx const& c, variant<T...>* el) {
   c.convert_endian(el->idx_);
 }
-- 
2.43.0


From 414e67723685b72e674761a43e8584634a23bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 075/108] fix: vecvec, nvec: emplace_back of an lvalue
 container moved its elements out

Elements of containers passed as lvalue are copied now (moved as before
if they cannot be copied or if the container is an rvalue).
---
 include/cista/containers/nvec.h   | 17 +++++++++++++----
 include/cista/containers/vecvec.h | 11 ++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 1352138..0f69644 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -476,7 +476,7 @@ struct basic_nvec {
         i.push_back(0U);
       }
     }
-    add<N - 1>(bucket);
+    add<N - 1>(std::forward<Container>(bucket));
   }
 
   iterator operator[](Key const k) { return begin() + to_idx(k); }
@@ -525,13 +525,22 @@ struct basic_nvec {
   void add(Container&& c) {
     if constexpr (L == 0) {
       index_[0].push_back(static_cast<size_type>(data_.size() + c.size()));
-      data_.insert(std::end(data_), std::make_move_iterator(std::begin(c)),
-                   std::make_move_iterator(std::end(c)));
+      if constexpr (std::is_lvalue_reference_v<Container> &&
+                    std::is_copy_constructible_v<data_value_type>) {
+        data_.insert(std::end(data_), std::begin(c), std::end(c));
+      } else {
+        data_.insert(std::end(data_), std::make_move_iterator(std::begin(c)),
+                     std::make_move_iterator(std::end(c)));
+      }
     } else {
       index_[L].push_back(
           static_cast<size_type>(index_[L - 1].size() + c.size() - 1U));
       for (auto&& x : c) {
-        add<L - 1>(x);
+        if constexpr (std::is_lvalue_reference_v<Container>) {
+          add<L - 1>(x);
+        } else {
+          add<L - 1>(std::move(x));
+        }
       }
     }
   }
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 42dd67d..bfe7fc8 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -368,9 +368,14 @@ struct basic_vecvec {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
-    data_.insert(std::end(data_),  //
-                 std::make_move_iterator(std::begin(bucket)),
-                 std::make_move_iterator(std::end(bucket)));
+    if constexpr (std::is_lvalue_reference_v<Container> &&
+                  std::is_copy_constructible_v<data_value_type>) {
+      data_.insert(std::end(data_), std::begin(bucket), std::end(bucket));
+    } else {
+      data_.insert(std::end(data_),  //
+                   std::make_move_iterator(std::begin(bucket)),
+                   std::make_move_iterator(std::end(bucket)));
+    }
     bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
   }
 
-- 
2.43.0


From 8b29dbf0590083da41f31caef5464e43cc77a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 076/108] fix: string: erasing nothing from an empty string
 passed null pointers to memmove and memset

---
 include/cista/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 0598fed..422fa10 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -356,6 +356,9 @@ struct generic_string {
       set_owning(view());
     }
     auto const size_before = size();
+    if (size_before == 0U) {
+      return *this;
+    }
     std::memmove(data() + pos, data() + pos + n,
                  (size_before - (pos + n)) * sizeof(CharT));
     std::memset(data() + size_before - n, 0U, n * sizeof(CharT));
-- 
2.43.0


From 8d0a983df9eccfb122044ab61c4bfab8c27af175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 077/108] fix: mmap: closing unmapped only the used part of the
 mapping

---
 include/cista/mmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index 19636c5..d3f4226 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -123,8 +123,8 @@ private:
   void close() {
     if (addr_ != nullptr) {
       sync();
-      size_ = used_size_;
       unmap();
+      size_ = used_size_;
       if (size_ != f_.size()) {
         resize_file();
       }
-- 
2.43.0


From 8683f516c7fb88100a24d29ae8e521e94b7bc2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:27 +0000
Subject: [PATCH 078/108] fix: hash tables: insertions and erasures grew the
 table without bound

---
 include/cista/containers/hash_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index fef11cc..5e1857b 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -579,7 +579,11 @@ struct hash_storage {
   }
 
   void rehash_and_grow_if_necessary() {
-    resize(capacity_ == 0U ? 1U : capacity_ * 2U + 1U);
+    if (capacity_ != 0U && size_ <= capacity_to_growth(capacity_) / 2U) {
+      rehash();  // More than half of the slots are taken by erased entries.
+    } else {
+      resize(capacity_ == 0U ? 1U : capacity_ * 2U + 1U);
+    }
   }
 
   void reset_growth_left() noexcept {
-- 
2.43.0


From 12829e329cb407edfb51289992e431feb550b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:27 +0000
Subject: [PATCH 079/108] fix: type hash: vectors with different size types had
 the same hash

---
 include/cista/type_hash/static_type_hash.h | 3 +++
 include/cista/type_hash/type_hash.h        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e396a3b..ab9a99c 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -175,6 +175,9 @@ constexpr auto static_type_hash(
     basic_vector<T, Ptr, Indexed, TemplateSizeType> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = h.combine(sizeof(TemplateSizeType));
+  }
   return static_type_hash(null<T>(), h);
 }
 
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 886026b..831a813 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -93,6 +93,9 @@ template <typename T, template <typename> typename Ptr, bool Indexed,
 hash_t type_hash(basic_vector<T, Ptr, Indexed, TemplateSizeType> const&,
                  hash_t h, std::map<hash_t, unsigned>& done) noexcept {
   h = hash_combine(h, hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = hash_combine(h, sizeof(TemplateSizeType));
+  }
   return type_hash(T{}, h, done);
 }
 
-- 
2.43.0


From 9c79cb8ad7e346bcc229a35a6d3860bc5c8071d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:27 +0000
Subject: [PATCH 080/108] fix: type hash: strings with different character
 types had the same hash

---
 include/cista/type_hash/static_type_hash.h | 18 +++++++++++++++---
 include/cista/type_hash/type_hash.h        | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index ab9a99c..8dfc9d3 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -216,19 +216,31 @@ constexpr auto static_type_hash(tuple<T...> const*,
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(generic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  h = h.combine(hash("string"));
+  if constexpr (sizeof(typename generic_string<Ptr>::CharT) != sizeof(char)) {
+    h = h.combine(sizeof(typename generic_string<Ptr>::CharT));
+  }
+  return h;
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  h = h.combine(hash("string"));
+  if constexpr (sizeof(typename basic_string<Ptr>::CharT) != sizeof(char)) {
+    h = h.combine(sizeof(typename basic_string<Ptr>::CharT));
+  }
+  return h;
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string_view<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  h = h.combine(hash("string"));
+  if constexpr (sizeof(typename basic_string_view<Ptr>::CharT) != sizeof(char)) {
+    h = h.combine(sizeof(typename basic_string_view<Ptr>::CharT));
+  }
+  return h;
 }
 
 template <typename T, std::size_t NMaxTypes>
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 831a813..40efcd7 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -133,19 +133,31 @@ hash_t type_hash(tuple<T...> const&, hash_t h,
 template <typename Ptr>
 hash_t type_hash(generic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  h = hash_combine(h, hash("string"));
+  if constexpr (sizeof(typename generic_string<Ptr>::CharT) != sizeof(char)) {
+    h = hash_combine(h, sizeof(typename generic_string<Ptr>::CharT));
+  }
+  return h;
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  h = hash_combine(h, hash("string"));
+  if constexpr (sizeof(typename basic_string<Ptr>::CharT) != sizeof(char)) {
+    h = hash_combine(h, sizeof(typename basic_string<Ptr>::CharT));
+  }
+  return h;
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string_view<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  h = hash_combine(h, hash("string"));
+  if constexpr (sizeof(typename basic_string_view<Ptr>::CharT) != sizeof(char)) {
+    h = hash_combine(h, sizeof(typename basic_string_view<Ptr>::CharT));
+  }
+  return h;
 }
 
 template <typename T>
-- 
2.43.0


From c39be2023693f0647face68191f3f6aa8efd59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:27 +0000
Subject: [PATCH 081/108] fix: static type hash: durations of any period and
 time points of any clock had the same hash

---
 include/cista/type_hash/static_type_hash.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index 8dfc9d3..3a4d633 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -140,8 +140,7 @@ constexpr auto static_type_hash(std::chrono::duration<Rep, Period> const*,
                                 hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("duration"));
   h = static_type_hash(null<Rep>(), h);
-  h = static_type_hash(null<Period>(), h);
-  return h;
+  return h.combine(static_type2str_hash<Period>());
 }
 
 template <typename A, typename B, std::size_t NMaxTypes>
@@ -158,8 +157,7 @@ constexpr auto static_type_hash(std::chrono::time_point<Clock, Duration> const*,
                                 hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("timepoint"));
   h = static_type_hash(null<Duration>(), h);
-  h = static_type_hash(null<Clock>(), h);
-  return h;
+  return h.combine(static_type2str_hash<Clock>());
 }
 
 template <typename T, std::size_t Size, std::size_t NMaxTypes>
-- 
2.43.0


From 60291cc17fcd9ad4477832cb92de10b84077771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 082/108] fix: uniter: includes of files from elsewhere were
 dropped

---
 tools/uniter/uniter.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tools/uniter/uniter.cc b/tools/uniter/uniter.cc
index 63cb908..0f7ea0d 100644
--- a/tools/uniter/uniter.cc
+++ b/tools/uniter/uniter.cc
@@ -22,12 +22,10 @@ void write_file(std::string const& include_path, std::string const& path,
             line.substr(include_start_len, include_end - include_start_len);
 
         auto const path = include_path + "/" + include_file;
-        if (included.insert(path).second) {
-          try {
-            write_file(include_path, path, included);
-          } catch (std::exception const& e) {
-            std::cout << "// " << path << ": " << e.what() << "\n";
-          }
+        if (!std::ifstream{path.c_str()}.good()) {
+          std::cout << line << "\n";  // not one of our files
+        } else if (included.insert(path).second) {
+          write_file(include_path, path, included);
         }
       } else if (starts_with(line, "#pragma once")) {
         // ignore
-- 
2.43.0


From ce58c7e57993125e3fb2e9cfb8e1829299d6b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 083/108] fix: uniter: a file that is also included by another
 one was written twice

---
 tools/uniter/uniter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/uniter/uniter.cc b/tools/uniter/uniter.cc
index 0f7ea0d..d3f66fb 100644
--- a/tools/uniter/uniter.cc
+++ b/tools/uniter/uniter.cc
@@ -60,6 +60,8 @@ int main(int argc, char const** argv) {
   std::cout << "#pragma once\n\n";
   std::set<std::string> included;
   for (int i = 3; i < argc; ++i) {
-    write_file(include_path, argv[i], included);
+    if (included.insert(argv[i]).second) {
+      write_file(include_path, argv[i], included);
+    }
   }
 }
\ No newline at end of file
-- 
2.43.0


From 4f30f3d29b51607a47257eca2c57ca59464e72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 084/108] fix: type hash of time points depended on the
 compiler

---
 include/cista/type_hash/type_name.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/type_hash/type_name.h b/include/cista/type_hash/type_name.h
index 6b27bb6..220c74d 100644
--- a/include/cista/type_hash/type_name.h
+++ b/include/cista/type_hash/type_name.h
@@ -27,6 +27,7 @@ inline void canonicalize_type_name(std::string& s) {
   remove_all(s, "{anonymous}::");  // GCC
   remove_all(s, "(anonymous namespace)::");  // Clang
   remove_all(s, "`anonymous-namespace'::");  // MSVC
+  remove_all(s, "_V2::");  // GCC "std::chrono::_V2::system_clock"
   remove_all(s, "struct");  // MSVC "struct my_struct" vs "my_struct"
   remove_all(s, "const");  // MSVC "char const*"" vs "const char*"
   remove_all(s, " ");  // MSVC
-- 
2.43.0


From 3356e536f345732e29c238e7c92cd2aeeaeb6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:44 +0000
Subject: [PATCH 085/108] fix: line endings of variant.h and memory_holder.h
 are those they had

---
 include/cista/containers/variant.h | 972 ++++++++++++++---------------
 include/cista/memory_holder.h      | 116 ++--
 2 files changed, 544 insertions(+), 544 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 460a799..5c2bad6 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,486 +1,486 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    if (this == &o) {
-      return *this;
-    }
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    o.apply([&](auto&& el) -> variant& { return *this = el; });
-    idx_ = o.idx_;
-    return *this;
-  }
-  variant& operator=(variant&& o) {
-    if (this == &o) {
-      return *this;
-    }
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    o.apply([&](auto&& el) -> variant& { return *this = std::move(el); });
-    idx_ = o.idx_;
-    return *this;
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
-                                     std::decay_t<Arg>>) {
-          el = std::forward<Arg>(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = NO_VALUE;
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_ && a.valid()
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : a.idx_ == b.idx_;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_ && a.valid()
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : a.idx_ != b.idx_;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_ && a.valid()
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_ && a.valid()
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_ && a.valid()
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_ && a.valid()
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = NO_VALUE;
-    auto& el = *(new (&storage_)
-                     std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return el;
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = NO_VALUE;
-    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-    idx_ = I;
-    return el;
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (!valid() && !o.valid()) {
-      return;
-    }
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), idx,
-                               std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    if (!valid()) {
-      return hashing<std::size_t>{}(index(), BASE_HASH);
-    }
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    o.apply([&](auto&& el) -> variant& { return *this = el; });
+    idx_ = o.idx_;
+    return *this;
+  }
+  variant& operator=(variant&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    o.apply([&](auto&& el) -> variant& { return *this = std::move(el); });
+    idx_ = o.idx_;
+    return *this;
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = NO_VALUE;
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_ && a.valid()
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : a.idx_ == b.idx_;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_ && a.valid()
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : a.idx_ != b.idx_;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_ && a.valid()
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_ && a.valid()
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_ && a.valid()
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_ && a.valid()
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_)
+                     std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return el;
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return el;
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index 6c24c0a..973e57e 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -1,58 +1,58 @@
-#pragma once
-
-#include <variant>
-
-#include "cista/buffer.h"
-#include "cista/containers/unique_ptr.h"
-#include "cista/mmap.h"
-#include "cista/targets/buf.h"
-
-namespace cista {
-
-using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
-
-template <typename T>
-struct wrapped {
-  wrapped() = default;
-  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
-    el_.self_allocated_ = false;
-  }
-  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
-
-  void reset() {
-    if (el_ == nullptr) {
-      return;
-    }
-    if (!el_.self_allocated_) {
-      el_->~T();
-    }
-    el_.reset();
-    if (std::holds_alternative<buffer>(mem_)) {
-      std::get<buffer>(mem_) = buffer{};
-    } else if (std::holds_alternative<byte_buf>(mem_)) {
-      std::get<byte_buf>(mem_) = byte_buf{};
-    }
-  }
-
-  friend bool operator==(wrapped const& x, std::nullptr_t) {
-    return x.el_ == nullptr;
-  }
-
-  operator bool() const { return el_.get() != nullptr; }
-  T* get() const noexcept { return el_.get(); }
-  T* operator->() noexcept { return el_.get(); }
-  T const* operator->() const noexcept { return el_.get(); }
-  T& operator*() noexcept { return *el_; }
-  T const& operator*() const noexcept { return *el_; }
-
-  memory_holder mem_;
-  raw::unique_ptr<T> el_;
-};
-
-template <typename T>
-wrapped(memory_holder, T*) -> wrapped<T>;
-
-template <typename T>
-wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
-
-}  // namespace cista
+#pragma once
+
+#include <variant>
+
+#include "cista/buffer.h"
+#include "cista/containers/unique_ptr.h"
+#include "cista/mmap.h"
+#include "cista/targets/buf.h"
+
+namespace cista {
+
+using memory_holder = std::variant<buf<mmap>, buffer, byte_buf>;
+
+template <typename T>
+struct wrapped {
+  wrapped() = default;
+  wrapped(memory_holder mem, T* el) : mem_{std::move(mem)}, el_{el} {
+    el_.self_allocated_ = false;
+  }
+  explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
+
+  void reset() {
+    if (el_ == nullptr) {
+      return;
+    }
+    if (!el_.self_allocated_) {
+      el_->~T();
+    }
+    el_.reset();
+    if (std::holds_alternative<buffer>(mem_)) {
+      std::get<buffer>(mem_) = buffer{};
+    } else if (std::holds_alternative<byte_buf>(mem_)) {
+      std::get<byte_buf>(mem_) = byte_buf{};
+    }
+  }
+
+  friend bool operator==(wrapped const& x, std::nullptr_t) {
+    return x.el_ == nullptr;
+  }
+
+  operator bool() const { return el_.get() != nullptr; }
+  T* get() const noexcept { return el_.get(); }
+  T* operator->() noexcept { return el_.get(); }
+  T const* operator->() const noexcept { return el_.get(); }
+  T& operator*() noexcept { return *el_; }
+  T const& operator*() const noexcept { return *el_; }
+
+  memory_holder mem_;
+  raw::unique_ptr<T> el_;
+};
+
+template <typename T>
+wrapped(memory_holder, T*) -> wrapped<T>;
+
+template <typename T>
+wrapped(memory_holder, raw::unique_ptr<T>) -> wrapped<T>;
+
+}  // namespace cista
-- 
2.43.0


From 4c150dc25da156d939943e1384b82f04a4a5bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:13 +0000
Subject: [PATCH 086/108] fix: vector leaked when the construction of an
 element failed

---
 include/cista/containers/vector.h | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 95586bc..0227567 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -41,25 +41,28 @@ struct basic_vector {
   basic_vector() noexcept = default;
 
   explicit basic_vector(size_type const size,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector{} {
     CISTA_UNUSED_PARAM(alloc)
     resize(size);
   }
 
   explicit basic_vector(size_type const size, T init,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector{} {
     CISTA_UNUSED_PARAM(alloc)
     resize(size, std::move(init));
   }
 
   basic_vector(std::initializer_list<T> init,
-               Allocator const& alloc = Allocator{}) {
+               Allocator const& alloc = Allocator{})
+      : basic_vector{} {
     CISTA_UNUSED_PARAM(alloc)
     set(init.begin(), init.end());
   }
 
   template <typename It>
-  basic_vector(It begin_it, It end_it) {
+  basic_vector(It begin_it, It end_it) : basic_vector{} {
     set(begin_it, end_it);
   }
 
@@ -72,7 +75,8 @@ struct basic_vector {
     o.reset();
   }
 
-  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{}) {
+  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{})
+      : basic_vector{} {
     CISTA_UNUSED_PARAM(alloc)
     set(o);
   }
@@ -178,13 +182,11 @@ struct basic_vector {
     clear();
     reserve(static_cast<size_type>(range_size));
 
-    auto copy_source = begin_it;
-    auto copy_target = el_;
-    for (; copy_source != end_it; ++copy_source, ++copy_target) {
-      new (copy_target) T{std::forward<decltype(*copy_source)>(*copy_source)};
+    for (auto copy_source = begin_it; copy_source != end_it; ++copy_source) {
+      new (el_ + used_size_)
+          T{std::forward<decltype(*copy_source)>(*copy_source)};
+      ++used_size_;
     }
-
-    used_size_ = static_cast<size_type>(range_size);
   }
 
   void set(basic_vector const& arr) {
@@ -323,8 +325,8 @@ struct basic_vector {
 
   void resize(size_type const size) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{};
+    for (; used_size_ < size; ++used_size_) {
+      new (el_ + used_size_) T{};
     }
     destroy_from(size);
     used_size_ = size;
@@ -332,8 +334,8 @@ struct basic_vector {
 
   void resize(size_type const size, T init) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{init};
+    for (; used_size_ < size; ++used_size_) {
+      new (el_ + used_size_) T{init};
     }
     destroy_from(size);
     used_size_ = size;
-- 
2.43.0


From 462ce60787df40d45d47bdef7f32741801ba66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 087/108] fix: vector range insertion leaked when the copy of
 an element failed

---
 include/cista/containers/vector.h | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 0227567..570ba05 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -269,30 +269,16 @@ struct basic_vector {
     }
 
     auto const pos_idx = pos - begin();
-    auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
-    pos = begin() + pos_idx;
-
-    for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-         !(src_last == pos - 1); --src_last, --dest_last) {
-      if (dest_last >= end()) {
-        new (dest_last) T(std::move(*src_last));
-      } else {
-        *dest_last = std::move(*src_last);
-      }
-    }
+    auto const old_size = used_size_;
+    reserve(used_size_ + static_cast<size_type>(std::distance(first, last)));
 
-    for (auto insert_ptr = pos; !(first == last); ++first, ++insert_ptr) {
-      if (insert_ptr >= end()) {
-        new (insert_ptr) T(std::forward<decltype(*first)>(*first));
-      } else {
-        *insert_ptr = std::forward<decltype(*first)>(*first);
-      }
+    for (; !(first == last); ++first) {
+      new (el_ + used_size_) T(std::forward<decltype(*first)>(*first));
+      ++used_size_;
     }
 
-    used_size_ += new_count;
-
-    return pos;
+    std::rotate(begin() + pos_idx, begin() + old_size, end());
+    return begin() + pos_idx;
   }
 
   template <class It, typename = typename std::iterator_traits<
-- 
2.43.0


From 1ae697c84f34704604239e84c95490edf1c598d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 088/108] fix: hash tables lost their elements when growing
 failed

---
 include/cista/containers/hash_storage.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 5e1857b..234619a 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -595,15 +595,18 @@ struct hash_storage {
     ctrl_[capacity_] = END;
   }
 
-  void initialize_entries() {
-    self_allocated_ = true;
+  void initialize_entries(size_type const new_capacity) {
     auto const size = static_cast<size_type>(
-        capacity_ * sizeof(T) + (capacity_ + 1U + WIDTH) * sizeof(ctrl_t));
-    entries_ = reinterpret_cast<T*>(
+        new_capacity * sizeof(T) +
+        (new_capacity + 1U + WIDTH) * sizeof(ctrl_t));
+    auto const mem = reinterpret_cast<T*>(
         CISTA_ALIGNED_ALLOC(ALIGNMENT, static_cast<std::size_t>(size)));
-    if (entries_ == nullptr) {
+    if (mem == nullptr) {
       throw_exception(std::bad_alloc{});
     }
+    entries_ = mem;
+    capacity_ = new_capacity;
+    self_allocated_ = true;
 #if defined(CISTA_ZERO_OUT)
     std::memset(entries_, 0, size);
 #endif
@@ -620,8 +623,7 @@ struct hash_storage {
     auto const old_capacity = capacity_;
     auto const old_self_allocated = self_allocated_;
 
-    capacity_ = new_capacity;
-    initialize_entries();
+    initialize_entries(new_capacity);
 
     for (size_type i = 0U; i != old_capacity; ++i) {
       if (is_full(old_ctrl[i])) {
-- 
2.43.0


From e3cf08ce5bbe62ce2da66af75ef914ddf82aad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 089/108] fix: hash map access left a broken entry when its
 construction failed

---
 include/cista/containers/hash_storage.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 234619a..bfa59aa 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -318,11 +318,13 @@ struct hash_storage {
   // --- operator[]
   template <typename Key>
   mapped_type& bracket_operator_impl(Key&& key) {
-    auto const res = find_or_prepare_insert(std::forward<Key>(key));
-    if (res.second) {
-      new (entries_ + res.first) T{static_cast<key_type>(key), mapped_type{}};
+    if (auto const it = find_impl(key); it != end()) {
+      return GetValue{}(*it);
     }
-    return GetValue{}(entries_[res.first]);
+    auto entry = T{static_cast<key_type>(key), mapped_type{}};
+    auto const i = prepare_insert(compute_hash(key));
+    new (entries_ + i) T{std::move(entry)};
+    return GetValue{}(entries_[i]);
   }
 
   template <typename Key>
-- 
2.43.0


From 9092c15a49753286358665cd97f7c5e5d79c929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 090/108] fix: copies of hash tables leaked when an element
 could not be copied

---
 include/cista/containers/hash_storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index bfa59aa..fa8fbf4 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -260,7 +260,7 @@ struct hash_storage {
 
   constexpr hash_storage() = default;
 
-  hash_storage(std::initializer_list<T> init) {
+  hash_storage(std::initializer_list<T> init) : hash_storage{} {
     insert(init.begin(), init.end());
   }
 
@@ -274,7 +274,7 @@ struct hash_storage {
     other.reset();
   }
 
-  hash_storage(hash_storage const& other) {
+  hash_storage(hash_storage const& other) : hash_storage{} {
     if (other.size() != 0U) {
       for (const auto& v : other) {
         emplace(v);
-- 
2.43.0


From cfc516c07340b5ffd04277f4b54b811dca56aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 091/108] fix: strings lost their content when an assignment
 failed

---
 include/cista/containers/string.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 422fa10..e8880cd 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -96,24 +96,27 @@ struct generic_string {
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
   void set_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
-    s_.is_short_ = (len <= short_length_limit);
-    if (s_.is_short_) {
+    if (len <= short_length_limit) {
+      reset();
+      s_.is_short_ = true;
       std::memcpy(s_.s_, str, len * sizeof(CharT));
       for (auto i = len; i < short_length_limit; ++i) {
         s_.s_[i] = 0;
       }
     } else {
-      h_.ptr_ = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
-      if (h_.ptr_ == nullptr) {
+      auto const mem = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
+      if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
+      std::memcpy(mem, str, len * sizeof(CharT));
+      reset();
+      h_.ptr_ = mem;
       h_.size_ = len;
       h_.self_allocated_ = true;
-      std::memcpy(data(), str, len * sizeof(CharT));
     }
   }
 
-- 
2.43.0


From e7f1539b5d2bf057d6ffa3c7f8d7fc52c2ad2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 092/108] fix: C strings lost their content when an assignment
 failed

---
 include/cista/containers/cstring.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 7659d2f..a97325f 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -90,16 +90,16 @@ struct generic_cstring {
 
   void set_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
-    reset();
     if (len == 0U) {
-      return;
-    }
-    s_.remaining_ = static_cast<int8_t>(
-        std::max(static_cast<int32_t>(short_length_limit - len), -1));
-    if (is_short()) {
+      reset();
+    } else if (len <= short_length_limit) {
+      reset();
+      s_.remaining_ = static_cast<int8_t>(short_length_limit - len);
       std::memcpy(s_.s_, str, len);
     } else {
-      h_ = heap(len, owning);
+      auto const h = heap(len, owning);
+      reset();
+      h_ = h;
       std::memcpy(data(), str, len);
     }
   }
-- 
2.43.0


From d9f43fb8881138b652e23fa0160b93828078d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 093/108] fix: bit vectors were broken after an assignment that
 failed

---
 include/cista/containers/bitvec.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ae78920..76b5b32 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -27,6 +27,16 @@ struct basic_bitvec {
       static_cast<size_type>(sizeof(block_t) * 8);
 
   constexpr basic_bitvec() noexcept {}
+  basic_bitvec(basic_bitvec const&) = default;
+  basic_bitvec(basic_bitvec&&) = default;
+  basic_bitvec& operator=(basic_bitvec&&) = default;
+  basic_bitvec& operator=(basic_bitvec const& o) {
+    blocks_ = o.blocks_;  // keeps its size if this fails
+    size_ = o.size_;
+    return *this;
+  }
+  ~basic_bitvec() = default;
+
   basic_bitvec(std::string_view s) { set(s); }
   basic_bitvec(size_type const size) { resize(size); }
   constexpr basic_bitvec(Vec&& v)
-- 
2.43.0


From ca5a3145676b604e37c6da2e57a2c3c28b0ff858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 094/108] fix: nested vectors were broken after a bucket could
 not be added

---
 include/cista/containers/vecvec.h | 33 +++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index bfe7fc8..038b3a6 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -328,6 +328,33 @@ struct basic_vecvec {
   using iterator = bucket;
   using const_iterator = const_bucket;
 
+  // Takes back a bucket that could not be added completely.
+  struct undo_add {
+    explicit undo_add(basic_vecvec& v)
+        : v_{v}, n_starts_{v.bucket_starts_.size()}, n_data_{v.data_.size()} {}
+    ~undo_add() {
+      if (done_) {
+        return;
+      }
+      if (v_.bucket_starts_.size() > n_starts_) {
+        v_.bucket_starts_.resize(n_starts_);
+      }
+      if (v_.data_.size() > n_data_) {
+        if constexpr (std::is_default_constructible_v<data_value_type>) {
+          v_.data_.resize(n_data_);
+        } else {
+          v_.data_.erase(std::next(std::begin(v_.data_), n_data_),
+                         std::end(v_.data_));
+        }
+      }
+    }
+
+    basic_vecvec& v_;
+    decltype(std::declval<IndexVec&>().size()) n_starts_;
+    decltype(std::declval<DataVec&>().size()) n_data_;
+    bool done_{false};
+  };
+
   CISTA_CUDA_COMPAT bucket operator[](Key const i) {
     return bucket{this, to_idx(i)};
   }
@@ -365,6 +392,7 @@ struct basic_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
+    auto undo = undo_add{*this};
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
@@ -377,20 +405,24 @@ struct basic_vecvec {
                    std::make_move_iterator(std::end(bucket)));
     }
     bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    undo.done_ = true;
   }
 
   bucket add_back_sized(std::size_t const bucket_size) {
+    auto undo = undo_add{*this};
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
     data_.resize(data_.size() + bucket_size);
     bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    undo.done_ = true;
     return at(Key{size() - 1U});
   }
 
   template <typename X>
   std::enable_if_t<std::is_convertible_v<std::decay_t<X>, data_value_type>>
   emplace_back(std::initializer_list<X>&& x) {
+    auto undo = undo_add{*this};
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
@@ -399,6 +431,7 @@ struct basic_vecvec {
     data_.insert(std::end(data_),  //
                  std::make_move_iterator(std::begin(x)),
                  std::make_move_iterator(std::end(x)));
+    undo.done_ = true;
   }
 
   template <typename T = data_value_type,
-- 
2.43.0


From f74e4df1e6e615b730568f8b5629a7a2950b9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 095/108] fix: multi-dimensional vectors were broken after an
 element could not be added

---
 include/cista/containers/nvec.h | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 0f69644..3b2ae51 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -457,6 +457,38 @@ struct basic_nvec {
   using const_reference = const_iterator;
   using value_type = iterator;
 
+  // Takes back an element that could not be added completely.
+  struct undo_add {
+    explicit undo_add(basic_nvec& v) : v_{v}, n_data_{v.data_.size()} {
+      for (auto i = std::size_t{0U}; i != N; ++i) {
+        n_index_[i] = v.index_[i].size();
+      }
+    }
+    ~undo_add() {
+      if (done_) {
+        return;
+      }
+      for (auto i = std::size_t{0U}; i != N; ++i) {
+        if (v_.index_[i].size() > n_index_[i]) {
+          v_.index_[i].resize(n_index_[i]);
+        }
+      }
+      if (v_.data_.size() > n_data_) {
+        if constexpr (std::is_default_constructible_v<data_value_type>) {
+          v_.data_.resize(n_data_);
+        } else {
+          v_.data_.erase(std::next(std::begin(v_.data_), n_data_),
+                         std::end(v_.data_));
+        }
+      }
+    }
+
+    basic_nvec& v_;
+    decltype(std::declval<DataVec&>().size()) n_data_;
+    decltype(std::declval<IndexVec&>().size()) n_index_[N];
+    bool done_{false};
+  };
+
   iterator begin() { return {&data_, &index_.back(), 0U}; }
   iterator end() { return {&data_, &index_.back(), size()}; }
 
@@ -471,12 +503,14 @@ struct basic_nvec {
 
   template <typename Container>
   void emplace_back(Container&& bucket) {
+    auto undo = undo_add{*this};
     if (index_[0].size() == 0U) {
       for (auto& i : index_) {
         i.push_back(0U);
       }
     }
     add<N - 1>(std::forward<Container>(bucket));
+    undo.done_ = true;
   }
 
   iterator operator[](Key const k) { return begin() + to_idx(k); }
-- 
2.43.0


From f9182d4c183f3831abb88d1d579874d10a99b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 096/108] fix: mapped memory was lost when making it larger
 failed

---
 include/cista/mmap.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index d3f4226..aff9dcc 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -203,10 +203,25 @@ private:
       return;
     }
 
+#ifdef _WIN32
     unmap();
     size_ = new_size;
     resize_file();
     addr_ = map();
+#else
+    // The old mapping is kept until nothing can fail anymore.
+    verify(::ftruncate(f_.fd(), static_cast<off_t>(new_size)) == 0,
+           "resize error");
+    auto const new_addr = ::mmap(nullptr, new_size, PROT_READ | PROT_WRITE,
+                                 MAP_SHARED, f_.fd(), OFFSET);
+    if (new_addr == MAP_FAILED) {
+      resize_file();
+    }
+    verify(new_addr != MAP_FAILED, "map error");
+    unmap();
+    size_ = new_size;
+    addr_ = new_addr;
+#endif
   }
 
   file f_;
-- 
2.43.0


From 5e7c5fa604569c0c78f0f44295feaf95bab0e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 097/108] fix: a file whose size cannot be read stayed open

---
 include/cista/targets/file.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 512f7b2..2d235b0 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -214,10 +214,11 @@ namespace cista {
 struct file {
   file() = default;
 
-  file(char const* path, char const* mode)
-      : f_{std::fopen(path, mode)}, size_{size()} {
+  file(char const* path, char const* mode) : file{} {
+    f_ = std::fopen(path, mode);
     verify_str(f_ != nullptr, std::string{"unable to open file: "} + path +
                                   " [mode=" + mode + "]");
+    size_ = size();
   }
 
   ~file() {
-- 
2.43.0


From e7cc2396b602ead9c24007d4b54a405db33aa42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 098/108] fix: the end of a file could be lost without an error

---
 include/cista/targets/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 2d235b0..311eab7 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -299,6 +299,7 @@ struct file {
     verify(std::fwrite(reinterpret_cast<std::uint8_t const*>(&val), 1U,
                        serialized_size<T>(), f_) == serialized_size<T>(),
            "write error");
+    verify(!std::fflush(f_), "write error");
   }
 
   offset_t write(void const* ptr, std::size_t const size,
@@ -319,6 +320,7 @@ struct file {
     }
     verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
     verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
+    verify(!std::fflush(f_), "write error");
     size_ = curr_offset + size;
     return static_cast<offset_t>(curr_offset);
   }
-- 
2.43.0


From 96b9a070c2691f7f40a83d48ada37e270f040a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 099/108] fix: adding an element of a vector to it read freed
 memory

---
 include/cista/containers/vector.h | 66 +++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 570ba05..e6d375b 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -219,9 +219,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (el_ + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg&&>(el));
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
     return begin() + old_offset;
@@ -232,10 +230,26 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + count);
-    for (auto i = size_type{0U}; i < count; ++i) {
-      new (el_ + used_size_) T{value};
-      ++used_size_;
+    if (count > allocated_size_ - used_size_) {
+      grow(used_size_ + count, [&](T* mem) {
+        auto i = size_type{0U};
+        try {
+          for (; i < count; ++i) {
+            new (mem + used_size_ + i) T{value};
+          }
+        } catch (...) {
+          while (i != 0U) {
+            mem[used_size_ + --i].~T();
+          }
+          throw;
+        }
+      });
+      used_size_ += count;
+    } else {
+      for (auto i = size_type{0U}; i < count; ++i) {
+        new (el_ + used_size_) T{value};
+        ++used_size_;
+      }
     }
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
@@ -289,21 +303,33 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(el);
+    if (used_size_ == allocated_size_) {
+      grow(used_size_ + 1U, [&](T* mem) { new (mem + used_size_) T(el); });
+    } else {
+      new (el_ + used_size_) T(el);
+    }
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(std::move(el));
+    if (used_size_ == allocated_size_) {
+      grow(used_size_ + 1U,
+           [&](T* mem) { new (mem + used_size_) T(std::move(el)); });
+    } else {
+      new (el_ + used_size_) T(std::move(el));
+    }
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T{std::forward<Args>(el)...};
+    if (used_size_ == allocated_size_) {
+      grow(used_size_ + 1U, [&](T* mem) {
+        new (mem + used_size_) T{std::forward<Args>(el)...};
+      });
+    } else {
+      new (el_ + used_size_) T{std::forward<Args>(el)...};
+    }
     T* ptr = el_ + used_size_;
     ++used_size_;
     return *ptr;
@@ -348,6 +374,13 @@ struct basic_vector {
   }
 
   void reserve(size_type new_size) {
+    grow(new_size, [](T*) {});
+  }
+
+  // Calls construct(storage) after new storage was allocated but before the
+  // elements are moved there: what it constructs can refer to them.
+  template <typename Fn>
+  void grow(size_type new_size, Fn&& construct) {
     new_size = std::max(allocated_size_, new_size);
 
     if (allocated_size_ >= new_size) {
@@ -364,6 +397,13 @@ struct basic_vector {
       throw_exception(std::bad_alloc());
     }
 
+    try {
+      construct(mem_buf);
+    } catch (...) {
+      std::free(mem_buf);  // NOLINT
+      throw;
+    }
+
     if (size() != 0) {
       try {
         auto move_target = mem_buf;
-- 
2.43.0


From f2275b0079f41235c5d7b8b75fc487e0521918e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:55 +0000
Subject: [PATCH 100/108] fix: appending a bucket of a nested vector to it read
 freed memory

---
 include/cista/containers/nvec.h   | 2 ++
 include/cista/containers/vecvec.h | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 3b2ae51..d1483d7 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -559,6 +559,8 @@ struct basic_nvec {
   void add(Container&& c) {
     if constexpr (L == 0) {
       index_[0].push_back(static_cast<size_type>(data_.size() + c.size()));
+      // The bucket can be one of this: no reallocation while reading it.
+      data_.reserve(static_cast<size_type>(data_.size() + c.size()));
       if constexpr (std::is_lvalue_reference_v<Container> &&
                     std::is_copy_constructible_v<data_value_type>) {
         data_.insert(std::end(data_), std::begin(c), std::end(c));
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 038b3a6..a3ba54b 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -396,6 +396,15 @@ struct basic_vecvec {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
+    if constexpr (std::is_base_of_v<
+                      std::forward_iterator_tag,
+                      typename std::iterator_traits<decltype(std::begin(
+                          bucket))>::iterator_category>) {
+      // The bucket can be one of this: no reallocation while reading it.
+      data_.reserve(static_cast<typename DataVec::size_type>(
+          data_.size() + static_cast<std::size_t>(std::distance(
+                             std::begin(bucket), std::end(bucket)))));
+    }
     if constexpr (std::is_lvalue_reference_v<Container> &&
                   std::is_copy_constructible_v<data_value_type>) {
       data_.insert(std::end(data_), std::begin(bucket), std::end(bucket));
-- 
2.43.0


From 0f362372f516552e4931db87a78271c1987e82ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:33 +0000
Subject: [PATCH 101/108] fix: std::visit of a temporary variant returned
 nothing

---
 include/cista/containers/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5c2bad6..2e8daee 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -478,7 +478,7 @@ namespace std {
 
 template <typename Visitor, typename... T>
 constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
+  return v.apply(vis);
 }
 
 using cista::get;
-- 
2.43.0


From eee5ec449ee0c1be64d9f286ab8ad090599eeceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:51 +0000
Subject: [PATCH 102/108] fix: strings with zeros were cut, parts of a string
 could not be assigned to it

---
 include/cista/containers/cstring.h | 10 ++++++----
 include/cista/containers/string.h  | 20 +++++++++++++-------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index a97325f..0545c31 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -93,14 +93,15 @@ struct generic_cstring {
     if (len == 0U) {
       reset();
     } else if (len <= short_length_limit) {
+      char content[short_length_limit];  // str can be part of this string
+      std::memcpy(content, str, len);
       reset();
       s_.remaining_ = static_cast<int8_t>(short_length_limit - len);
-      std::memcpy(s_.s_, str, len);
+      std::memcpy(s_.s_, content, len);
     } else {
-      auto const h = heap(len, owning);
+      auto const h = heap(str, len, owning);
       reset();
       h_ = h;
-      std::memcpy(data(), str, len);
     }
   }
 
@@ -320,11 +321,12 @@ struct generic_cstring {
                             // offset of stack::remaining_ below.
 
     heap() = default;
-    heap(msize_t len, owning_t) {
+    heap(char const* str, msize_t len, owning_t) {
       char* mem = static_cast<char*>(std::malloc(len + 1));
       if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
+      std::memcpy(mem, str, len);
       mem[len] = '\0';
       ptr_ = mem;
       size_ = len;
diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index e8880cd..3e77ecb 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -95,18 +95,23 @@ struct generic_string {
 
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
+  // The first zero is the end of an inline string: it cannot contain one.
+  static bool fits_inline(CharT const* str, msize_t const len) noexcept {
+    return len <= short_length_limit &&
+           std::char_traits<CharT>::find(str, len, CharT(0)) == nullptr;
+  }
+
   void set_owning(CharT const* str, msize_t const len) {
     if (str == nullptr || len == 0U) {
       reset();
       return;
     }
-    if (len <= short_length_limit) {
+    if (fits_inline(str, len)) {
+      CharT content[short_length_limit]{0};  // str can be part of this string
+      std::memcpy(content, str, len * sizeof(CharT));
       reset();
       s_.is_short_ = true;
-      std::memcpy(s_.s_, str, len * sizeof(CharT));
-      for (auto i = len; i < short_length_limit; ++i) {
-        s_.s_[i] = 0;
-      }
+      std::memcpy(s_.s_, content, sizeof(content));
     } else {
       auto const mem = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
       if (mem == nullptr) {
@@ -131,15 +136,16 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
 
-    if (len <= short_length_limit) {
+    if (fits_inline(str, len)) {
       return set_owning(str, len);
     }
 
+    reset();
     h_.is_short_ = false;
     h_.self_allocated_ = false;
     h_.ptr_ = str;
-- 
2.43.0


From f6fd9a8f6f03686cf71dae69cd4ff6ee923fb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 103/108] fix: adding an element of a mapped vector to it read
 unmapped memory

---
 include/cista/containers/mmap_vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 4e64499..5bf2ed4 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -35,8 +35,9 @@ struct basic_mmap_vec {
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
+    auto const x = T{std::forward<Args>(el)...};  // may use elements of this
     mmap_.resize(sizeof(T) * (used_size_ + 1U));
-    new (data() + used_size_) T{std::forward<Args>(el)...};
+    new (data() + used_size_) T{x};
     T* ptr = data() + used_size_;
     ++used_size_;
     return *ptr;
@@ -110,8 +111,9 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
+    auto const x = T{std::forward<Arg&&>(el)};  // may be an element of this
     mmap_.resize(sizeof(T) * (used_size_ + 1U));
-    new (data() + used_size_) T{std::forward<Arg&&>(el)};
+    new (data() + used_size_) T{x};
     ++used_size_;
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
-- 
2.43.0


From dfcd9038fefa2962e3e78ce7e4695e5a51ecf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:59 +0000
Subject: [PATCH 104/108] fix: copy_from of strings lost the content when
 copying itself or failing

---
 include/cista/containers/cstring.h | 5 ++++-
 include/cista/containers/string.h  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 0545c31..b8f580c 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -138,8 +138,11 @@ struct generic_cstring {
   }
 
   void copy_from(generic_cstring const& s) {
-    reset();
+    if (&s == this) {
+      return;
+    }
     if (s.is_short()) {
+      reset();
       std::memcpy(static_cast<void*>(this), &s, sizeof(s));
     } else if (s.h_.self_allocated_) {
       set_owning(s.data(), s.size());
diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 3e77ecb..01051b1 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -173,8 +173,8 @@ struct generic_string {
     if (&s == this) {
       return;
     }
-    reset();
     if (s.is_short()) {
+      reset();
       std::memcpy(static_cast<void*>(this), &s, sizeof(s));
     } else if (s.h_.self_allocated_) {
       set_owning(s.data(), s.size());
-- 
2.43.0


From b6937b13d69abf9454414ab1e8b98cfb85be6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:36 +0000
Subject: [PATCH 105/108] fix: matrices of more entries than can be counted, or
 after a failed resize

---
 include/cista/containers/flat_matrix.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 616e6ad..1023e8f 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <cinttypes>
+#include <limits>
 
 #include "cista/containers/vector.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -94,9 +96,18 @@ struct base_flat_matrix {
   }
 
   void resize(size_type const n_rows, size_t const n_columns) {
+    entries_.resize(n_entries(n_rows, n_columns));
     n_rows_ = n_rows;
-    n_columns_ = n_columns;
-    entries_.resize(n_rows * n_columns);
+    n_columns_ = static_cast<size_type>(n_columns);
+  }
+
+  static size_type n_entries(size_t const n_rows, size_t const n_columns) {
+    constexpr auto const kMax =
+        static_cast<size_t>(std::numeric_limits<size_type>::max());
+    verify(n_columns <= kMax &&
+               (n_columns == 0U || n_rows <= kMax / n_columns),
+           "matrix: too many entries");
+    return static_cast<size_type>(n_rows * n_columns);
   }
 
   void reset(value_type const& t) {
@@ -117,7 +128,7 @@ inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
   auto v = vector<T>{};
-  v.resize(n_rows * n_columns, init);
+  v.resize(flat_matrix<T>::n_entries(n_rows, n_columns), init);
   return {n_rows, n_columns, std::move(v)};
 }
 
@@ -133,7 +144,7 @@ inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
   auto v = vector<T>{};
-  v.resize(n_rows * n_columns, init);
+  v.resize(flat_matrix<T>::n_entries(n_rows, n_columns), init);
   return {n_rows, n_columns, std::move(v)};
 }
 
-- 
2.43.0


From 8302b26ee280444152158ee07a3f1ec4df6dcc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:51 +0000
Subject: [PATCH 106/108] fix: vecvec and nvec with more elements than their
 index type can count

---
 include/cista/containers/nvec.h   | 12 +++++++++---
 include/cista/containers/vecvec.h | 20 ++++++++++++++++----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index d1483d7..3a4194f 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -509,6 +509,7 @@ struct basic_nvec {
         i.push_back(0U);
       }
     }
+    to_index(index_[N - 1].size());
     add<N - 1>(std::forward<Container>(bucket));
     undo.done_ = true;
   }
@@ -555,10 +556,16 @@ struct basic_nvec {
     return get_index<L - 1U>(index_[L][i] + j, rest...);
   }
 
+  static index_value_type to_index(std::size_t const i) {
+    auto const index = static_cast<index_value_type>(i);
+    verify(static_cast<std::size_t>(index) == i, "nvec: index type too small");
+    return index;
+  }
+
   template <std::size_t L, typename Container>
   void add(Container&& c) {
     if constexpr (L == 0) {
-      index_[0].push_back(static_cast<size_type>(data_.size() + c.size()));
+      index_[0].push_back(to_index(data_.size() + c.size()));
       // The bucket can be one of this: no reallocation while reading it.
       data_.reserve(static_cast<size_type>(data_.size() + c.size()));
       if constexpr (std::is_lvalue_reference_v<Container> &&
@@ -569,8 +576,7 @@ struct basic_nvec {
                      std::make_move_iterator(std::end(c)));
       }
     } else {
-      index_[L].push_back(
-          static_cast<size_type>(index_[L - 1].size() + c.size() - 1U));
+      index_[L].push_back(to_index(index_[L - 1].size() + c.size() - 1U));
       for (auto&& x : c) {
         if constexpr (std::is_lvalue_reference_v<Container>) {
           add<L - 1>(x);
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index a3ba54b..55345df 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -70,6 +70,7 @@ struct basic_vecvec {
 
     template <typename Args>
     void push_back(Args&& args) {
+      to_index(map_->data_.size() + std::size_t{1U});
       map_->data_.insert(std::next(std::begin(map_->data_), bucket_end_idx()),
                          std::forward<Args>(args));
       for (auto i = i_ + 1; i != map_->bucket_starts_.size(); ++i) {
@@ -80,6 +81,7 @@ struct basic_vecvec {
     void grow(std::size_t const n, value_type const& value = value_type{}) {
       verify(n >= size(), "bucket::grow: new size < old size");
       auto const growth = n - size();
+      to_index(map_->data_.size() + growth);
 
       map_->data_.insert(
           std::next(std::begin(map_->data_), bucket_end_idx()),
@@ -328,6 +330,13 @@ struct basic_vecvec {
   using iterator = bucket;
   using const_iterator = const_bucket;
 
+  static index_value_type to_index(std::size_t const i) {
+    auto const index = static_cast<index_value_type>(i);
+    verify(static_cast<std::size_t>(to_idx(index)) == i,
+           "basic_vecvec: index type too small");
+    return index;
+  }
+
   // Takes back a bucket that could not be added completely.
   struct undo_add {
     explicit undo_add(basic_vecvec& v)
@@ -413,7 +422,8 @@ struct basic_vecvec {
                    std::make_move_iterator(std::begin(bucket)),
                    std::make_move_iterator(std::end(bucket)));
     }
-    bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    to_index(bucket_starts_.size());
+    bucket_starts_.emplace_back(to_index(data_.size()));
     undo.done_ = true;
   }
 
@@ -423,7 +433,8 @@ struct basic_vecvec {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
     data_.resize(data_.size() + bucket_size);
-    bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    to_index(bucket_starts_.size());
+    bucket_starts_.emplace_back(to_index(data_.size()));
     undo.done_ = true;
     return at(Key{size() - 1U});
   }
@@ -435,8 +446,8 @@ struct basic_vecvec {
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
-    bucket_starts_.emplace_back(
-        static_cast<index_value_type>(data_.size() + x.size()));
+    to_index(bucket_starts_.size());
+    bucket_starts_.emplace_back(to_index(data_.size() + x.size()));
     data_.insert(std::end(data_),  //
                  std::make_move_iterator(std::begin(x)),
                  std::make_move_iterator(std::end(x)));
@@ -450,6 +461,7 @@ struct basic_vecvec {
   }
 
   void resize(std::size_t const new_size) {
+    to_index(new_size);
     auto const old_size = bucket_starts_.size();
     if (new_size < size()) {
       data_.erase(std::next(std::begin(data_), bucket_starts_[new_size]),
-- 
2.43.0


From 8e90830ffa73eb41ffcc1602f8ab2af309c50046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:24 +0000
Subject: [PATCH 107/108] fix: vectors with more elements than their size type
 can count

---
 include/cista/containers/vector.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index e6d375b..5e3ae04 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -231,7 +231,7 @@ struct basic_vector {
     auto const old_size = used_size_;
 
     if (count > allocated_size_ - used_size_) {
-      grow(used_size_ + count, [&](T* mem) {
+      grow(size_plus(count), [&](T* mem) {
         auto i = size_type{0U};
         try {
           for (; i < count; ++i) {
@@ -262,7 +262,7 @@ struct basic_vector {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      reserve(size_plus(1U));
       new (el_ + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -284,7 +284,7 @@ struct basic_vector {
 
     auto const pos_idx = pos - begin();
     auto const old_size = used_size_;
-    reserve(used_size_ + static_cast<size_type>(std::distance(first, last)));
+    reserve(size_plus(static_cast<std::size_t>(std::distance(first, last))));
 
     for (; !(first == last); ++first) {
       new (el_ + used_size_) T(std::forward<decltype(*first)>(*first));
@@ -304,7 +304,7 @@ struct basic_vector {
 
   void push_back(T const& el) {
     if (used_size_ == allocated_size_) {
-      grow(used_size_ + 1U, [&](T* mem) { new (mem + used_size_) T(el); });
+      grow(size_plus(1U), [&](T* mem) { new (mem + used_size_) T(el); });
     } else {
       new (el_ + used_size_) T(el);
     }
@@ -313,7 +313,7 @@ struct basic_vector {
 
   void push_back(T&& el) {
     if (used_size_ == allocated_size_) {
-      grow(used_size_ + 1U,
+      grow(size_plus(1U),
            [&](T* mem) { new (mem + used_size_) T(std::move(el)); });
     } else {
       new (el_ + used_size_) T(std::move(el));
@@ -324,7 +324,7 @@ struct basic_vector {
   template <typename... Args>
   T& emplace_back(Args&&... el) {
     if (used_size_ == allocated_size_) {
-      grow(used_size_ + 1U, [&](T* mem) {
+      grow(size_plus(1U), [&](T* mem) {
         new (mem + used_size_) T{std::forward<Args>(el)...};
       });
     } else {
@@ -373,6 +373,13 @@ struct basic_vector {
     used_size_ = 0;
   }
 
+  size_type size_plus(std::size_t const n) const {
+    verify(n <= static_cast<std::size_t>(std::numeric_limits<size_type>::max() -
+                                         used_size_),
+           "cista::vector: too many elements");
+    return static_cast<size_type>(used_size_ + n);
+  }
+
   void reserve(size_type new_size) {
     grow(new_size, [](T*) {});
   }
-- 
2.43.0


From 6bad2897cdad895517eb1a567daee5bb028a4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:54 +0000
Subject: [PATCH 108/108] fix: strings of more characters than the length can
 hold

---
 include/cista/containers/cstring.h | 19 +++++++++++++------
 include/cista/containers/string.h  | 29 +++++++++++++++++++----------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index b8f580c..b1bc734 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -4,6 +4,7 @@
 #include <cinttypes>
 #include <cstring>
 
+#include <limits>
 #include <ostream>
 #include <string>
 #include <string_view>
@@ -11,6 +12,7 @@
 #include "cista/containers/ptr.h"
 #include "cista/exception.h"
 #include "cista/type_traits.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -25,8 +27,13 @@ struct generic_cstring {
   using msize_t = std::uint32_t;
   using value_type = char;
 
-  static msize_t mstrlen(char const* s) noexcept {
-    return static_cast<msize_t>(std::strlen(s));
+  static msize_t to_msize(std::size_t const n) {
+    verify(n <= std::numeric_limits<msize_t>::max(), "cstring: too long");
+    return static_cast<msize_t>(n);
+  }
+
+  static msize_t mstrlen(char const* s) {
+    return to_msize(std::strlen(s));
   }
 
   static constexpr struct owning_t {
@@ -74,11 +81,11 @@ struct generic_cstring {
   }
 
   void set_owning(std::string const& s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(std::string_view s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(char const* str) {
@@ -106,11 +113,11 @@ struct generic_cstring {
   }
 
   void set_non_owning(std::string const& v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(std::string_view v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(char const* str) {
diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 01051b1..cf1d411 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -3,6 +3,7 @@
 #include <cinttypes>
 #include <cstring>
 
+#include <limits>
 #include <ostream>
 #include <string>
 #include <string_view>
@@ -10,6 +11,7 @@
 #include "cista/containers/ptr.h"
 #include "cista/exception.h"
 #include "cista/type_traits.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -19,8 +21,13 @@ struct generic_string {
   using msize_t = std::uint32_t;
   using value_type = CharT;
 
-  static msize_t mstrlen(CharT const* s) noexcept {
-    return static_cast<msize_t>(std::char_traits<CharT>::length(s));
+  static msize_t to_msize(std::size_t const n) {
+    verify(n <= std::numeric_limits<msize_t>::max(), "string: too long");
+    return static_cast<msize_t>(n);
+  }
+
+  static msize_t mstrlen(CharT const* s) {
+    return to_msize(std::char_traits<CharT>::length(s));
   }
 
   static constexpr struct owning_t {
@@ -84,11 +91,11 @@ struct generic_string {
   }
 
   void set_owning(std::basic_string<CharT> const& s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(std::basic_string_view<CharT> s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(CharT const* str) { set_owning(str, mstrlen(str)); }
@@ -126,11 +133,11 @@ struct generic_string {
   }
 
   void set_non_owning(std::basic_string<CharT> const& v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(std::basic_string_view<CharT> v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
@@ -382,10 +389,11 @@ struct generic_string {
   }
   constexpr bool starts_with(
       std::basic_string_view<CharT> const& sv) const noexcept {
-    return starts_with(sv.data(), static_cast<msize_t>(sv.size()));
+    return sv.size() <= size() &&
+           starts_with(sv.data(), static_cast<msize_t>(sv.size()));
   }
   constexpr bool starts_with(CharT const* s) const noexcept {
-    return starts_with(s, mstrlen(s));
+    return starts_with(std::basic_string_view<CharT>{s});
   }
   constexpr bool starts_with(CharT const* s, msize_t size_s) const noexcept {
     if (size_s > size()) {
@@ -411,10 +419,11 @@ struct generic_string {
   }
   constexpr bool ends_with(
       std::basic_string_view<CharT> const& sv) const noexcept {
-    return ends_with(sv.data(), static_cast<msize_t>(sv.size()));
+    return sv.size() <= size() &&
+           ends_with(sv.data(), static_cast<msize_t>(sv.size()));
   }
   constexpr bool ends_with(CharT const* s) const noexcept {
-    return ends_with(s, mstrlen(s));
+    return ends_with(std::basic_string_view<CharT>{s});
   }
   constexpr bool ends_with(CharT const* s, msize_t size_s) const noexcept {
     if (size_s > size()) {
-- 
2.43.0

