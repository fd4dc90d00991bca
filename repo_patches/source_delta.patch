From 02b3f2eb5cbcf002b3648ca08e8cdff071b8d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:56 +0000
Subject: [PATCH 01/32] fix: do not index the base64 decode table with a
 sign-extended char

A char input byte >= 0x80 was widened through its sign to size_t and indexed far outside the 256-entry table.
---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 3515df2..1d2c026 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -150,7 +150,7 @@ private:
   template <typename Byte>
   static std::size_t s(Byte byte) noexcept
   {
-    return static_cast<std::size_t>(byte);
+    return static_cast<std::size_t>(static_cast<std::uint8_t>(byte));
   }
 
   state state_ = state::s0;
-- 
2.43.0


From b2be52348fcd8d78377dbe2c58d7013ca758dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 02/32] fix: reset optional<T&> when assigned from an empty
 optional<U>

---
 include/fitoria/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index c8e9db1..cd3b97d 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -773,6 +773,8 @@ public:
 
     if (other) {
       this->valptr_ = std::addressof(*other);
+    } else {
+      this->valptr_ = nullptr;
     }
 
     return *this;
-- 
2.43.0


From 4c55f58d6c0096b77445a64b98fbed9296d089b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 03/32] fix: do not dereference empty optionals in operator<=>

---
 include/fitoria/core/optional.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index cd3b97d..1786908 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1016,7 +1016,11 @@ template <typename T, std::three_way_comparable_with<T> U>
 constexpr std::compare_three_way_result_t<T, U>
 operator<=>(const optional<T>& lhs, const optional<U>& rhs)
 {
-  return *lhs <=> *rhs;
+  if (lhs && rhs) {
+    return *lhs <=> *rhs;
+  }
+
+  return lhs.has_value() <=> rhs.has_value();
 }
 
 template <typename T>
-- 
2.43.0


From a56b070a4fa67516ca68c14815a28a3bbfb294c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 04/32] fix: construct the error when expected<T&, E> is
 assigned an unexpected lvalue

---
 include/fitoria/core/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 9ed1d42..8229999 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1856,6 +1856,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
-- 
2.43.0


From 82ab18f8e86220c048fa13b8f239f4214d9ae79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 05/32] fix: construct the error when expected<T&, E> is
 assigned an unexpected rvalue

---
 include/fitoria/core/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 8229999..5a987e3 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1870,6 +1870,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
-- 
2.43.0


From 834dd02f68fccb738af56f710b54cce87bd66dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 06/32] fix: do not default expected's assignment for elements
 with non-trivial construction

---
 include/fitoria/core/expected.hpp | 40 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 5a987e3..49384da 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -429,7 +429,9 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!(std::is_trivially_copy_assignable_v<T>
+    requires(!(std::is_trivially_copy_constructible_v<T>
+               && std::is_trivially_copy_assignable_v<T>
+               && std::is_trivially_copy_constructible_v<E>
                && std::is_trivially_copy_assignable_v<E>)
              && std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>
@@ -456,7 +458,9 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<T>
+    requires(std::is_trivially_copy_constructible_v<T>
+             && std::is_trivially_copy_assignable_v<T>
+             && std::is_trivially_copy_constructible_v<E>
              && std::is_trivially_copy_assignable_v<E>)
   = default;
 
@@ -465,7 +469,9 @@ public:
       && std::is_nothrow_move_assignable_v<T>
       && std::is_nothrow_move_constructible_v<E>
       && std::is_nothrow_move_assignable_v<E>)
-    requires(!(std::is_trivially_move_assignable_v<T>
+    requires(!(std::is_trivially_move_constructible_v<T>
+               && std::is_trivially_move_assignable_v<T>
+               && std::is_trivially_move_constructible_v<E>
                && std::is_trivially_move_assignable_v<E>)
              && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>
@@ -492,7 +498,9 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<T>
+    requires(std::is_trivially_move_constructible_v<T>
+             && std::is_trivially_move_assignable_v<T>
+             && std::is_trivially_move_constructible_v<E>
              && std::is_trivially_move_assignable_v<E>)
   = default;
 
@@ -1181,7 +1189,8 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!std::is_trivially_copy_assignable_v<E>
+    requires(!(std::is_trivially_copy_constructible_v<E>
+               && std::is_trivially_copy_assignable_v<E>)
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>)
   {
     if (has_value()) {
@@ -1202,13 +1211,15 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<E>)
+    requires(std::is_trivially_copy_constructible_v<E>
+             && std::is_trivially_copy_assignable_v<E>)
   = default;
 
   constexpr expected&
   operator=(expected&& other) noexcept(std::is_nothrow_move_constructible_v<E>
                                        && std::is_nothrow_move_assignable_v<E>)
-    requires(!std::is_trivially_move_assignable_v<E>
+    requires(!(std::is_trivially_move_constructible_v<E>
+               && std::is_trivially_move_assignable_v<E>)
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>)
   {
     if (has_value()) {
@@ -1229,7 +1240,8 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<E>)
+    requires(std::is_trivially_move_constructible_v<E>
+             && std::is_trivially_move_assignable_v<E>)
   = default;
 
   template <typename G>
@@ -1776,7 +1788,8 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!std::is_trivially_copy_assignable_v<E>
+    requires(!(std::is_trivially_copy_constructible_v<E>
+               && std::is_trivially_copy_assignable_v<E>)
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>)
   {
     if (has_value()) {
@@ -1800,13 +1813,15 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<E>)
+    requires(std::is_trivially_copy_constructible_v<E>
+             && std::is_trivially_copy_assignable_v<E>)
   = default;
 
   constexpr expected&
   operator=(expected&& other) noexcept(std::is_nothrow_move_constructible_v<E>
                                        && std::is_nothrow_move_assignable_v<E>)
-    requires(!std::is_trivially_move_assignable_v<E>
+    requires(!(std::is_trivially_move_constructible_v<E>
+               && std::is_trivially_move_assignable_v<E>)
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>)
   {
     if (has_value()) {
@@ -1830,7 +1845,8 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<E>)
+    requires(std::is_trivially_move_constructible_v<E>
+             && std::is_trivially_move_assignable_v<E>)
   = default;
 
   template <typename U = T>
-- 
2.43.0


From d69bb3b1886ac0bbc9f2098e41f36fca73b10f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 07/32] fix: pass characters to <cctype> functions as unsigned
 char

---
 include/fitoria/core/detail/from_string_impl.hpp |  2 +-
 include/fitoria/core/strings.hpp                 | 11 +++++++----
 include/fitoria/log/level.hpp                    |  2 +-
 include/fitoria/mime/mime_view.hpp               |  6 +++---
 include/fitoria/mime/name_view.hpp               |  2 +-
 5 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/fitoria/core/detail/from_string_impl.hpp b/include/fitoria/core/detail/from_string_impl.hpp
index 02f82a2..cd74cb2 100644
--- a/include/fitoria/core/detail/from_string_impl.hpp
+++ b/include/fitoria/core/detail/from_string_impl.hpp
@@ -53,7 +53,7 @@ inline auto is_floating_point_like(std::string_view s) noexcept -> bool
 
   int dots = 0;
   for (auto c : s) {
-    if (std::isdigit(c)) {
+    if (std::isdigit(static_cast<unsigned char>(c))) {
       continue;
     }
     if (c == '.') {
diff --git a/include/fitoria/core/strings.hpp b/include/fitoria/core/strings.hpp
index 6a22cd1..2a06df5 100644
--- a/include/fitoria/core/strings.hpp
+++ b/include/fitoria/core/strings.hpp
@@ -22,7 +22,8 @@ inline auto cmp_eq_ci(std::string_view lhs, std::string_view rhs) -> bool
 {
   return std::equal(
       lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), [](auto l, auto r) {
-        return std::tolower(l) == std::tolower(r);
+        return std::tolower(static_cast<unsigned char>(l))
+            == std::tolower(static_cast<unsigned char>(r));
       });
 }
 
@@ -45,7 +46,8 @@ inline auto cmp_tw_ci(std::string_view lhs,
       return std::strong_ordering::greater;
     }
 
-    if (auto result = std::tolower(*lfirst) <=> std::tolower(*rfirst);
+    if (auto result = std::tolower(static_cast<unsigned char>(*lfirst))
+            <=> std::tolower(static_cast<unsigned char>(*rfirst));
         result != std::strong_ordering::equal) {
       return result;
     }
@@ -58,14 +60,15 @@ inline auto cmp_tw_ci(std::string_view lhs,
 #else
   return std::lexicographical_compare_three_way(
       lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), [](auto l, auto r) {
-        return std::tolower(l) <=> std::tolower(r);
+        return std::tolower(static_cast<unsigned char>(l))
+            <=> std::tolower(static_cast<unsigned char>(r));
       });
 #endif
 }
 
 inline bool is_space(char c)
 {
-  return static_cast<bool>(std::isspace(c));
+  return static_cast<bool>(std::isspace(static_cast<unsigned char>(c)));
 }
 
 template <std::invocable<char> Predicate>
diff --git a/include/fitoria/log/level.hpp b/include/fitoria/log/level.hpp
index 2ceb1f7..e0f23b5 100644
--- a/include/fitoria/log/level.hpp
+++ b/include/fitoria/log/level.hpp
@@ -60,7 +60,7 @@ inline level to_level(std::string_view sv)
 {
   std::string lower(sv.size(), '\0');
   std::transform(sv.begin(), sv.end(), lower.begin(), [](char c) {
-    return static_cast<char>(std::tolower(c));
+    return static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
   });
   if (lower == "trace") {
     return level::trace;
diff --git a/include/fitoria/mime/mime_view.hpp b/include/fitoria/mime/mime_view.hpp
index 40aa08a..ce8ce57 100644
--- a/include/fitoria/mime/mime_view.hpp
+++ b/include/fitoria/mime/mime_view.hpp
@@ -334,14 +334,14 @@ private:
 
   static auto is_valid_name(std::string_view str) noexcept -> bool
   {
-    if (str.empty() || !std::isalnum(str[0])) {
+    if (str.empty() || !std::isalnum(static_cast<unsigned char>(str[0]))) {
       return false;
     }
     str.remove_prefix(1);
 
     return std::all_of(str.begin(), str.end(), [](char c) {
-      return std::isalnum(c) || c == '!' || c == '#' || c == '$' || c == '&'
-          || c == '-' || c == '^' || c == '_';
+      return std::isalnum(static_cast<unsigned char>(c)) || c == '!' || c == '#'
+          || c == '$' || c == '&' || c == '-' || c == '^' || c == '_';
     });
   }
 
diff --git a/include/fitoria/mime/name_view.hpp b/include/fitoria/mime/name_view.hpp
index b20dc38..7566f42 100644
--- a/include/fitoria/mime/name_view.hpp
+++ b/include/fitoria/mime/name_view.hpp
@@ -64,7 +64,7 @@ public:
     result.resize(impl_.size());
     std::transform(
         impl_.begin(), impl_.end(), result.begin(), [](auto c) -> char {
-          return static_cast<char>(std::tolower(c));
+          return static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
         });
 
     return result;
-- 
2.43.0


From e975bf3efe4fa5d0d9f0653b5efa504c512b2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 08/32] fix: range::parse accepts only sub-ranges that lie
 inside the representation

A suffix longer than the representation, a start past its end and an end of
2^64-1 made the offset or the length wrap around.
---
 include/fitoria/http/header/range.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..361d3dc 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,8 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <algorithm>
+#include <cstdint>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -164,9 +166,12 @@ public:
     }
 
     if (unit[1].starts_with("-")) {
-      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1));
+          suffix && *suffix > 0 && total_length > 0) {
+        // a suffix longer than the representation selects all of it
+        const auto length = std::min<std::uint64_t>(*suffix, total_length);
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
@@ -189,12 +194,12 @@ private:
     for (auto& token : tokens) {
       if (auto subrange = split_of(token, "-"); subrange.size() == 2) {
         auto start = from_string<std::uint64_t>(subrange[0]);
-        if (subrange[1].empty() && start) {
+        if (subrange[1].empty() && start && *start < total_length) {
           subranges.push_back(subrange_t { *start, total_length - *start });
           continue;
         }
         auto end = from_string<std::uint64_t>(subrange[1]);
-        if (start && end && *start <= *end) {
+        if (start && end && *start <= *end && *end < total_length) {
           subranges.push_back(subrange_t { *start, *end - *start + 1 });
           continue;
         }
-- 
2.43.0


From 5475dc81d010e6d983fe8fd87c4812a9b4faa610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 09/32] fix: entity_tag::parse accepts obs-text and rejects
 DEL, as RFC 9110 defines etagc

---
 include/fitoria/http/header/entity_tag.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..abf00ef 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,9 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    // etagc = %x21 / %x23-7E / obs-text (%x80-FF)
+    const auto u = static_cast<unsigned char>(c);
+    return u >= 0x21 && u != 0x7f && c != '\"';
   }
 
   bool strong_;
-- 
2.43.0


From a2900870cd9ebdc3fca092834256ab5bca3608fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 10/32] fix: path_parser: only compare a parameter's name with
 the names of other parameters

A wildcard whose name equals the literal text before it ("abc#abc") was
rejected as a duplicate.
---
 include/fitoria/web/path_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/path_parser.hpp b/include/fitoria/web/path_parser.hpp
index 63a009c..3177f3a 100644
--- a/include/fitoria/web/path_parser.hpp
+++ b/include/fitoria/web/path_parser.hpp
@@ -138,7 +138,7 @@ private:
                                             std::string value)
   {
     for (auto& token : tokens_) {
-      if (value == token.value) {
+      if (token.kind != path_token_kind::static_ && value == token.value) {
         return false;
       }
     }
-- 
2.43.0


From da8827b21fe05f423f55a9fe8d5a239ba2706c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 11/32] fix: web::error: do not use 0, the value of 'no error',
 for route_already_exists

---
 include/fitoria/web/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/error.hpp b/include/fitoria/web/error.hpp
index e3e29b6..9879bfa 100644
--- a/include/fitoria/web/error.hpp
+++ b/include/fitoria/web/error.hpp
@@ -18,7 +18,7 @@ FITORIA_NAMESPACE_BEGIN
 namespace web {
 
 enum class error {
-  route_already_exists,
+  route_already_exists = 1,
   route_not_exists,
   unexpected_content_type,
   extractor_field_name_not_found,
-- 
2.43.0


From 1775a7883e0a3477fd60c1fa2a22d2da106eb4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 12/32] fix: query_map::set updates the value of a name that is
 already present

---
 include/fitoria/web/query_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/query_map.hpp b/include/fitoria/web/query_map.hpp
index 0c7950f..a33c9ce 100644
--- a/include/fitoria/web/query_map.hpp
+++ b/include/fitoria/web/query_map.hpp
@@ -122,7 +122,7 @@ public:
   /// @endverbatim
   void set(std::string name, std::string value)
   {
-    map_.insert({ std::move(name), std::move(value) });
+    map_.insert_or_assign(std::move(name), std::move(value));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 9e78cdf4c76bfdc0bc5cb3aac7381026d3800037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 13/32] fix: state_storage::copy_insert_front no longer writes
 into a shared map

---
 include/fitoria/web/state_storage.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 56dbb80..03859a0 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -49,13 +49,11 @@ public:
   auto copy_insert_front(std::type_index ti,
                          std::any obj) const -> state_storage
   {
-    auto copy = *this;
-    if (copy.maps_.empty()) {
-      copy.maps_.push_back(std::make_shared<state_map>());
-    }
-    (*copy.maps_.front())[ti] = std::move(obj);
+    // the maps are shared between copies, never write into an existing one
+    auto map = std::make_shared<state_map>();
+    (*map)[ti] = std::move(obj);
 
-    return copy;
+    return copy_prepend(std::move(map));
   }
 
   template <typename T>
-- 
2.43.0


From b33889624869c9b187e4e06671fd3ceaea017475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 14/32] fix: path_matcher takes static text literally and
 matches any parameter text

---
 include/fitoria/web/path_matcher.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..c79b27e 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -78,12 +78,19 @@ private:
     std::string regex;
     for (auto& token : tokens) {
       if (token.kind == path_token_kind::static_) {
-        regex += token.value;
+        // the characters must not be interpreted as regex syntax
+        for (auto c : token.value) {
+          if (std::string_view(".*+?^${}()|[]\\").find(c)
+              != std::string_view::npos) {
+            regex += '\\';
+          }
+          regex += c;
+        }
       } else if (token.kind == path_token_kind::param) {
         // {name} => (?<name>pattern)
         regex += "(?<";
         regex += token.value;
-        regex += ">[^{}/]+)";
+        regex += ">[^/]+)";
       } else if (token.kind == path_token_kind::wildcard) {
         // {name} => (?<name>pattern)
         regex += "(?<";
-- 
2.43.0


From b57e509463c9f87cca98ecead9cd4f92c94ff9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 15/32] fix: router no longer shadows routes that share an
 inserted prefix

---
 include/fitoria/web/router.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..04ef4b0 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -75,18 +75,21 @@ public:
         }
       }
 
-      for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+      // every node sharing the new prefix must be moved below it, or the ones
+      // left behind are shadowed
+      auto parent = node(token);
+      for (auto it = statics_.begin(); it != statics_.end();) {
+        if (it->prefix_.starts_with(token)) {
+          it->prefix_.erase(0, token.size());
+          parent.statics_.push_back(std::move(*it));
+          it = statics_.erase(it);
+        } else {
+          ++it;
         }
       }
 
-      return statics_.emplace_back(token).try_insert(std::move(route),
-                                                     token_index + 1);
+      statics_.push_back(std::move(parent));
+      return statics_.back().try_insert(std::move(route), token_index + 1);
     }
 
     auto try_insert_param(route_type route,
-- 
2.43.0


From 697d6ec8c252ce1741667900a723e3405d5c2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 16/32] fix: router parameters no longer match an empty segment

---
 include/fitoria/web/router.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index 04ef4b0..82c827f 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -149,7 +149,8 @@ public:
     auto try_find_param(http::verb method, std::string_view path) const
         -> expected<const route_type&, std::error_code>
     {
-      if (params_) {
+      // a parameter never matches an empty segment
+      if (params_ && !path.starts_with('/')) {
         if (auto pos = path.find('/'); pos != std::string_view::npos) {
           return params_->try_find(method, path.substr(pos));
         }
-- 
2.43.0


From 4ad7ab9cf7f0284f9fc789d1ff1b83df77bdb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 17/32] fix: http_server answers a refused upgrade instead of
 accepting the handshake

---
 include/fitoria/web/http_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a119e23..a60dcfc 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -480,7 +480,8 @@ private:
                   .set_body("request target is invalid");
       }
 
-      if (upgrade) {
+      if (upgrade
+          && res.status().value() == http::status::switching_protocols) {
         auto& ws = *std::any_cast<websocket>(
             &(*session_state)[std::type_index(typeid(websocket))]);
         ws.set_response(std::move(res));
-- 
2.43.0


From 46f9bf06b4d9a8a799113553edc4b1d1ee0a3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 18/32] fix: http_server does not parse an unread request body
 as the next request

---
 include/fitoria/web/http_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a60dcfc..32baa86 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -494,7 +494,8 @@ private:
         }
       }
 
-      if (!keep_alive) {
+      // a body that is left unread must not be parsed as the next request
+      if (!keep_alive || !parser->is_done()) {
         break;
       }
     }
-- 
2.43.0


From ba025764b2556fa652d0b958934a963a056033d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 19/32] fix: websocket keeps the response to an unsupported
 version

---
 include/fitoria/web/websocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index e8753c2..9a3fa31 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -523,6 +523,7 @@ private:
       builder.set_header(http::field::sec_websocket_version, "13");
       impl_->set_response(builder.set_body(
           make_error_code(ws::error::bad_sec_version).message()));
+      return;
     }
 
     builder.set_header(http::field::upgrade, "websocket");
-- 
2.43.0


From 541eb567882d7896dcdb654738188c777042472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 20/32] fix: websocket handshake decorator owns the response it
 reads

---
 include/fitoria/web/websocket.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 9a3fa31..a379b34 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -449,7 +449,8 @@ private:
         co_return unexpected { body.error() };
       }
       impl_->set_option(ws::stream_base::decorator(
-          [&res, body = std::move(body)](ws::response_type& r) {
+          [res = std::move(res),
+           body = std::move(body)](ws::response_type& r) mutable {
             for (auto& field : res.headers()) {
               r.set(field.name_string(), field.value());
             }
-- 
2.43.0


From 338bcf2639d351004325a2d32d171f6657c2554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 21/32] fix: dynamic_buffer::prepare resizes after moving the
 readable bytes to the front

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 0e98691..100a535 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -132,6 +132,7 @@ public:
       container_.resize(woffset_ + n);
     } else if (n <= (limit_ - size())) {
       compress();
+      container_.resize(woffset_ + n);
     } else {
       FITORIA_THROW_OR(std::length_error("dynamic_buffer too large"),
                        std::terminate());
-- 
2.43.0


From 9f05a4287b84ce17697490cfd4dc387bbc1d59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 22/32] fix: dynamic_buffer::consume and commit do not overflow
 for large sizes

---
 include/fitoria/core/dynamic_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 100a535..6294e40 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -114,7 +114,7 @@ public:
   /// @endverbatim
   void consume(std::size_t n)
   {
-    roffset_ = std::min(roffset_ + n, woffset_);
+    roffset_ += std::min(n, size());
     if (roffset_ == woffset_) {
       roffset_ = 0;
       woffset_ = 0;
@@ -148,7 +148,7 @@ public:
   /// @endverbatim
   void commit(std::size_t n)
   {
-    woffset_ = std::min(woffset_ + n, container_.size());
+    woffset_ += std::min(n, container_.size() - woffset_);
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 7f1e22c1323024d5a33f749f8923cd4d42bec446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 23/32] fix: async_write_chunks does not end the body at an
 empty chunk

---
 include/fitoria/web/async_write_chunks.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..10b7b4f 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,10 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      if (d->empty()) {
+        // a chunk without data would be the last chunk
+        continue;
+      }
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0


From 82d43f0429c65db12227ae1cbf8b1c42219d6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 24/32] fix: inflate streams stop at the end of the compressed
 data

Input that follows it made async_read_some() loop forever, and output that
exactly fills the buffer was reported as an error.
---
 .../web/middleware/detail/async_gzip_inflate_stream.hpp      | 5 +++--
 .../fitoria/web/middleware/detail/async_inflate_stream.hpp   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index c8e5e65..f16f1de 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -70,7 +70,8 @@ public:
       boost::system::error_code ec;
       inflater_.write(p, Flush::sync, ec);
 
-      if (ec == error::end_of_stream) {
+      const auto done = ec == error::end_of_stream || ec == error::need_buffers;
+      if (done) {
         ec = {};
       }
       if (ec) {
@@ -80,7 +81,7 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (done || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index c97fe43..a2e3d1a 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -67,7 +67,8 @@ public:
       boost::system::error_code ec;
       inflater_.write(p, Flush::sync, ec);
 
-      if (ec == error::end_of_stream) {
+      const auto done = ec == error::end_of_stream || ec == error::need_buffers;
+      if (done) {
         ec = {};
       }
       if (ec) {
@@ -77,7 +78,7 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (done || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
-- 
2.43.0


From 61912a6c2f773953627fe48cef798e9b73c02ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 25/32] fix: brotli inflate stream stops at the end of the
 compressed data

---
 .../web/middleware/detail/async_brotli_inflate_stream.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index db49e94..f5de6d2 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -130,6 +130,7 @@ public:
                             writable.size());
 
       auto ec = inflater_.write(p);
+      const auto done = !ec;
       if (ec == brotli_error::need_more_input
           || ec == brotli_error::need_more_output) {
         ec = {};
@@ -141,7 +142,7 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (done || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
-- 
2.43.0


From c520eb1a0b14e4e8d19a5345d338217eb52abcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 26/32] fix: deflate streams drain the compressor

Output that did not fit the buffer was dropped, along with the input that
had not been read yet.
---
 .../detail/async_deflate_stream.hpp           | 83 +++++++++++--------
 .../detail/async_gzip_deflate_stream.hpp      | 83 +++++++++++--------
 2 files changed, 100 insertions(+), 66 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
index dd75801..d07ed17 100644
--- a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
@@ -47,55 +47,72 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
+      for (;;) {
+        auto writable = buffer.prepare(65536);
+
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
+
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        const auto done = ec == error::end_of_stream;
+        if (done || (ec == error::need_buffers && p.avail_out == 0)) {
+          ec = {};
+        }
+        if (ec) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (done || p.avail_out > 0) {
+          break;
+        }
+      }
+      co_return buffer.release();
+    }
+
+    if (!*data) {
+      co_return unexpected { data->error() };
+    }
+    if ((*data)->empty()) {
+      co_return bytes();
+    }
+
+    auto readable = dynamic_buffer<bytes>(std::move(**data));
+    auto buffer = dynamic_buffer<bytes>();
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(readable.size(), std::size_t(65536)));
 
       auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
+      p.next_in = readable.cdata().data();
+      p.avail_in = readable.cdata().size();
       p.next_out = writable.data();
       p.avail_out = writable.size();
 
       boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
+      deflater_.write(p, Flush::none, ec);
 
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
+      if (ec == error::need_buffers && readable.size() == 0) {
         ec = {};
       }
+
       if (ec) {
         co_return unexpected { ec };
       }
 
+      readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
-      co_return buffer.release();
-    }
-
-    auto& readable = *data;
-    if (!readable) {
-      co_return unexpected { readable.error() };
-    }
-    if (readable->empty()) {
-      co_return bytes();
-    }
 
-    auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
-
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
-
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
-
-    if (ec) {
-      co_return unexpected { ec };
+      if (readable.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
-
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
diff --git a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
index 2f3b57b..6d355d5 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
@@ -50,55 +50,72 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
+      for (;;) {
+        auto writable = buffer.prepare(65536);
+
+        auto p = z_params();
+        p.next_in = nullptr;
+        p.avail_in = 0;
+        p.next_out = writable.data();
+        p.avail_out = writable.size();
+
+        boost::system::error_code ec;
+        deflater_.write(p, Flush::finish, ec);
+
+        const auto done = ec == error::end_of_stream;
+        if (done || (ec == error::need_buffers && p.avail_out == 0)) {
+          ec = {};
+        }
+        if (ec) {
+          co_return unexpected { ec };
+        }
+
+        buffer.commit(writable.size() - p.avail_out);
+
+        if (done || p.avail_out > 0) {
+          break;
+        }
+      }
+      co_return buffer.release();
+    }
+
+    if (!*data) {
+      co_return unexpected { data->error() };
+    }
+    if ((*data)->empty()) {
+      co_return bytes();
+    }
+
+    auto readable = dynamic_buffer<bytes>(std::move(**data));
+    auto buffer = dynamic_buffer<bytes>();
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(readable.size(), std::size_t(65536)));
 
       auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
+      p.next_in = readable.cdata().data();
+      p.avail_in = readable.cdata().size();
       p.next_out = writable.data();
       p.avail_out = writable.size();
 
       boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
+      deflater_.write(p, Flush::none, ec);
 
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
+      if (ec == error::need_buffers && readable.size() == 0) {
         ec = {};
       }
+
       if (ec) {
         co_return unexpected { ec };
       }
 
+      readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
-      co_return buffer.release();
-    }
-
-    auto& readable = *data;
-    if (!readable) {
-      co_return unexpected { readable.error() };
-    }
-    if (readable->empty()) {
-      co_return bytes();
-    }
 
-    auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
-
-    auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
-
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
-
-    if (ec) {
-      co_return unexpected { ec };
+      if (readable.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
-
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
-- 
2.43.0


From fec6f40e0727dd2c3313e893159b5dae023d14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 27/32] fix: brotli deflate stream drains the compressor

---
 .../detail/async_brotli_deflate_stream.hpp    | 48 ++++++++++++-------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 1d7e165..057046b 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -140,18 +140,22 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
+      for (;;) {
+        auto writable = buffer.prepare(65536);
 
-      auto p = broti_params(nullptr, 0, writable.data(), writable.size());
+        auto p = broti_params(nullptr, 0, writable.data(), writable.size());
 
-      auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        if (ec) {
+          co_return unexpected { ec };
+        }
 
-      FITORIA_ASSERT(ec != brotli_error::need_more_output);
-      if (ec) {
-        co_return unexpected { ec };
-      }
+        buffer.commit(writable.size() - p.avail_out);
 
-      buffer.commit(writable.size() - p.avail_out);
+        if (deflater_.is_done() || p.avail_out > 0) {
+          break;
+        }
+      }
       co_return buffer.release();
     }
 
@@ -163,21 +167,29 @@ public:
       co_return bytes();
     }
 
+    auto input = dynamic_buffer<bytes>(std::move(*readable));
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    for (;;) {
+      auto writable
+          = buffer.prepare(std::max(input.size(), std::size_t(65536)));
+
+      auto p = broti_params(input.cdata().data(),
+                            input.cdata().size(),
+                            writable.data(),
+                            writable.size());
 
-    auto p = broti_params(
-        readable->data(), readable->size(), writable.data(), writable.size());
+      auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      if (ec) {
+        co_return unexpected { ec };
+      }
 
-    auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      input.consume(input.size() - p.avail_in);
+      buffer.commit(writable.size() - p.avail_out);
 
-    FITORIA_ASSERT(ec != brotli_error::need_more_output);
-    if (ec) {
-      co_return unexpected { ec };
+      if (input.size() == 0 && p.avail_out > 0) {
+        break;
+      }
     }
-
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
-- 
2.43.0


From 126b1b023c30c36107347f43580a5e65c2e21582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 28/32] fix: move-assigning a gzip stream no longer leaks the
 state of the target

---
 .../web/middleware/detail/gzip_stream.hpp      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/gzip_stream.hpp b/include/fitoria/web/middleware/detail/gzip_stream.hpp
index 53812eb..4c8bce4 100644
--- a/include/fitoria/web/middleware/detail/gzip_stream.hpp
+++ b/include/fitoria/web/middleware/detail/gzip_stream.hpp
@@ -135,7 +135,14 @@ public:
 
   gzip_inflate_stream(gzip_inflate_stream&&) = default;
 
-  gzip_inflate_stream& operator=(gzip_inflate_stream&&) = default;
+  gzip_inflate_stream& operator=(gzip_inflate_stream&& other)
+  {
+    if (this != &other) {
+      std::swap(stream_, other.stream_);
+    }
+
+    return *this;
+  }
 
   void write(boost::beast::zlib::z_params& p,
              boost::beast::zlib::Flush flush,
@@ -182,7 +189,14 @@ public:
 
   gzip_deflate_stream(gzip_deflate_stream&&) = default;
 
-  gzip_deflate_stream& operator=(gzip_deflate_stream&&) = default;
+  gzip_deflate_stream& operator=(gzip_deflate_stream&& other)
+  {
+    if (this != &other) {
+      std::swap(stream_, other.stream_);
+    }
+
+    return *this;
+  }
 
   void write(boost::beast::zlib::z_params& p,
              boost::beast::zlib::Flush flush,
-- 
2.43.0


From 40c348f0b0d2e076b502e44ab007b798bd4c78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 29/32] fix: brotli streams include the buffer they use

---
 .../web/middleware/detail/async_brotli_deflate_stream.hpp        | 1 +
 .../web/middleware/detail/async_brotli_inflate_stream.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 057046b..f0e7ca9 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -13,6 +13,7 @@
 
 #if defined(FITORIA_HAS_BROTLI)
 
+#include <fitoria/core/dynamic_buffer.hpp>
 #include <fitoria/core/net.hpp>
 
 #include <fitoria/web/middleware/detail/brotli_error.hpp>
diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index f5de6d2..4d792ce 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -13,6 +13,7 @@
 
 #if defined(FITORIA_HAS_BROTLI)
 
+#include <fitoria/core/dynamic_buffer.hpp>
 #include <fitoria/core/net.hpp>
 
 #include <fitoria/web/middleware/detail/brotli_error.hpp>
-- 
2.43.0


From a961bb5cfc88969374befd15b4ce6c5a6c77af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 30/32] fix: nothing is read as a request after a websocket

---
 include/fitoria/web/http_server.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 32baa86..f117ede 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -488,10 +488,13 @@ private:
         if (auto result = co_await ws.run(parser->get()); !result) {
           co_return unexpected { result.error() };
         }
-      } else {
-        if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
-          co_return unexpected { exp.error() };
-        }
+
+        // the connection does not speak http anymore
+        break;
+      }
+
+      if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+        co_return unexpected { exp.error() };
       }
 
       // a body that is left unread must not be parsed as the next request
-- 
2.43.0


From e07f2897e09bfea30f6345bf97bbd4d8f5094f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 31/32] fix: request_builder::set_body and set_json build the
 request once

set_body(std::string_view) and set_json(const boost::json::value&) called
set_body(std::span), which already moves every part into the request it
returns, dropped that request and built another one out of the emptied
builder: the result had no path, headers, query or states, and reading its
body dereferenced a null stream.
---
 include/fitoria/web/request.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/request.hpp b/include/fitoria/web/request.hpp
index a9ae7d5..244635e 100644
--- a/include/fitoria/web/request.hpp
+++ b/include/fitoria/web/request.hpp
@@ -410,8 +410,7 @@ public:
   /// @endverbatim
   auto set_body(std::string_view sv) -> request
   {
-    set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
@@ -444,8 +443,7 @@ public:
   {
     auto str = boost::json::serialize(jv);
     set_header(http::field::content_type, mime::application_json());
-    set_body(std::as_bytes(std::span(str.begin(), str.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(str.begin(), str.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 50ea57b4bf65ea3f904d32ded725f1c45ebe171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 32/32] fix: the exception handler answers whatever is thrown

---
 include/fitoria/web/middleware/exception_handler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fitoria/web/middleware/exception_handler.hpp b/include/fitoria/web/middleware/exception_handler.hpp
index 9c97923..b58153e 100644
--- a/include/fitoria/web/middleware/exception_handler.hpp
+++ b/include/fitoria/web/middleware/exception_handler.hpp
@@ -38,6 +38,9 @@ public:
     } catch (const std::exception& ex) {
       log::error("[fitoria.middleware.exception_handler] exception: {}",
                  ex.what());
+    } catch (...) {
+      log::error(
+          "[fitoria.middleware.exception_handler] exception: unknown type");
     }
 
     co_return response::internal_server_error().build();
-- 
2.43.0

