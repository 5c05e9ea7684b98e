From f46c3665d08ae10d55a1068f632e9ce1bdf01894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 01/12] fix: CBOR integers out of the range of the target type
 are rejected instead of wrapped or asserted

An encoded integer wider than the target aborted on an assertion in debug builds, a
positive value above the signed maximum wrapped to a negative one, a negative integer
was stored in an unsigned target modulo 2^N and one below INT64_MIN wrapped.
---
 src/cxon/lang/cbor/fundamental.hxx | 27 +++++++++++++++++++++++----
 src/cxon/lang/common/bio/io.hxx    |  3 ---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 3e5ff39..c1c54a4 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -8,6 +8,7 @@
 
 #include "cxon/lang/common/bio/bio.hxx"
 #include "cxon/lang/cbor/common/tag.hxx"
+#include <limits>
 
 namespace cxon { // nullptr_t
 
@@ -60,6 +61,9 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
+        template <typename T>
+            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
                 II const o = i;
@@ -79,15 +83,32 @@ namespace cxon { // numeric|character/read
                 }
             }
 
+        template <typename X, typename T, typename II, typename Cx>
+            inline bool read_positive_(T& t, II& i, II e, Cx& cx) {
+                using U = typename std::make_unsigned<T>::type;
+                II const o = i; U u;
+                if (!read_unsigned_<X>(u, i, e, cx))
+                    return false;
+                if (sizeof(T) != 1 && !is_quantum_<T>::value && u > U(std::numeric_limits<T>::max()))
+                    return bio::rewind(i, o), cx/cbor::read_error::integer_invalid;
+                return t = T(u), true;
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_signed_(T& t, II& i, II e, Cx& cx) {
-                return read_unsigned_<X>(t, i, e, cx) && (t = -1 - t, true);
+                using U = typename std::make_unsigned<T>::type;
+                II const o = i; U u;
+                if (!read_unsigned_<X>(u, i, e, cx))
+                    return false;
+                if (!std::is_signed<T>::value || u > U(std::numeric_limits<T>::max()))
+                    return bio::rewind(i, o), cx/cbor::read_error::integer_invalid;
+                return t = T(-1 - T(u)), true;
             }
 
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_integral_(T& t, II& i, II e, Cx& cx) {
                 switch (bio::peek(i, e) & X::mjr) {
-                    case 0x00:  return read_unsigned_<X>(t, i, e, cx);
+                    case 0x00:  return read_positive_<X>(t, i, e, cx);
                     case 0x20:  return read_signed_<X>(t, i, e, cx);
                     default:    return cx/cbor::read_error::integer_invalid;
                 }
@@ -183,8 +204,6 @@ namespace cxon { // numeric|character/write
         template <typename T>
             inline auto power_(T t) -> enable_if_t<sizeof(T) == 8, unsigned> { return !(t >> 32) ? !(t >> 16) ? !(t >> 8) ? 0 : 1 : 2 : 3; }
 
-        template <typename T>
-            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
         template <typename T>
             struct is_signed_   : bool_constant<std::is_signed<T>::value   && !is_quantum_<T>::value> {};
         template <typename T>
diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 04866e7..1f9b818 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -151,7 +151,6 @@ namespace cxon { namespace bio {
             inline bool be_to_i_(const buffer_<2, II>& bs, T& t) {
                 using R = std::uint_fast32_t;
                 R const x = (R(bs[1])<< 0) | (R(bs[0])<< 8) ;
-                CXON_ASSERT(sizeof(T) >= 2, "narrowing");
                 return sizeof(T) >= 2 && (t = T(x), true);
             }
         // coverity[ -tainted_data_return ]
@@ -161,7 +160,6 @@ namespace cxon { namespace bio {
                 using R = std::uint_fast32_t;
                 R const x = (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                             (R(bs[1])<<16) | (R(bs[0])<<24) ;
-                CXON_ASSERT(sizeof(T) >= 4, "narrowing");
                 return sizeof(T) >= 4 && (t = T(x), true);
             }
         // coverity[ -tainted_data_return ]
@@ -173,7 +171,6 @@ namespace cxon { namespace bio {
                             (R(bs[5])<<16) | (R(bs[4])<<24) |
                             (R(bs[3])<<32) | (R(bs[2])<<40) |
                             (R(bs[1])<<48) | (R(bs[0])<<56) ;
-                CXON_ASSERT(sizeof(T) >= 8, "narrowing"); // LCOV_EXCL_LINE
                 return sizeof(T) >= 8 && (t = T(x), true);
             }
 
-- 
2.43.0


From 9a5edd456eb9a1b569774ff74416594be1319507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 02/12] fix: CBOR float input of any width does not abort debug
 builds

Single precision values asserted on LP64 (sizeof(unsigned long) > sizeof(float)), double
precision ones whenever the target is float.
---
 src/cxon/lang/common/bio/io.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 1f9b818..566cf75 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -188,8 +188,7 @@ namespace cxon { namespace bio {
             }
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<4, II>& bs) {
-                using R = unsigned long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
+                using R = std::uint32_t;
                 union { R i; float f; } u;
                 u.i =   (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                         (R(bs[1])<<16) | (R(bs[0])<<24)
@@ -199,7 +198,6 @@ namespace cxon { namespace bio {
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<8, II>& bs) {
                 using R = unsigned long long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
                 union { R i; double f; } u;
                 u.i =   (R(bs[7])<< 0) | (R(bs[6])<< 8) |
                         (R(bs[5])<<16) | (R(bs[4])<<24) |
-- 
2.43.0


From 9d6f8e2e7047be306127f24fdd123eb12f485664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 03/12] fix: bounded output rejects a byte run of another
 character type instead of overrunning

range_container had append(const value_type*, size_t) only, so the CBOR writer, which pokes
unsigned char runs, fell back to unchecked push_back for char buffers and wrote past the end.
---
 src/cxon/lang/common/container.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 49f8018..145913c 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -356,9 +356,12 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic pop
 #                   endif
                 }
-            bool append(const value_type* t, std::size_t n) noexcept {
-                return append(t, t + n);
-            }
+            template <typename II>
+                auto append(II f, std::size_t n) noexcept
+                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                {
+                    return append(f, f + n);
+                }
 
             bool append(unsigned n, const value_type& t) noexcept {
                 return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&
-- 
2.43.0


From b882dafa1df7ebbbe708dcb7dfd018d836595235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 04/12] fix: string validation does not read past the end of an
 unterminated string

---
 src/cxon/lang/common/cio/string.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 50e37cc..c23d4d0 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -137,7 +137,7 @@ namespace cxon { namespace cio { namespace str {
                                         auto bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((bs = chr::utf8_check(i += bs, e)))
+                                        while ((i += bs) != e && (bs = chr::utf8_check(i, e)) != 0)
                                             ;
                                         --i;
                                     }
-- 
2.43.0


From 7b3f4506c1e3bb3bdd6f47d7da57f7d8fea784b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 05/12] fix: a truncated UTF-8 sequence is rejected without
 reading past the end of the input

---
 src/cxon/lang/common/cio/char.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a38592c..7a45a3f 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -154,11 +154,11 @@ namespace cxon { namespace cio { namespace chr {
         template <typename II>
             inline auto head_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return next(i, e); }
         template <typename II>
-            inline auto head_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline auto head_(II& i, II e) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return ++i != e ? *i : '\xFF'; }
         template <typename II>
             inline auto tail_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return i != e ? peek(++i, e) : '\xFF'; }
         template <typename II>
-            inline auto tail_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline auto tail_(II& i, II e) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return i != e && ++i != e ? *i : '\xFF'; }
 
 #       define CXON_EXPECT(c) if (!(c)) return cx/X::read_error::character_invalid, bad_utf32
 
-- 
2.43.0


From a4f09e40b934fed1c5b1097f01adf52e3215576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 06/12] fix: an unpaired low surrogate escape is rejected
 instead of producing ill-formed UTF-8

---
 src/cxon/lang/common/cio/char.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 7a45a3f..1dc2510 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -140,8 +140,9 @@ namespace cxon { namespace cio { namespace chr {
         inline char32_t esc_to_utf32(II& i, II e, Cx& cx) {
             char32_t const c32 = imp::esc_to_utf32_<X>(i, e);
                 if (c32 == bad_utf32) return cx/X::read_error::escape_invalid, bad_utf32;
-            if (c32 < 0xD800 || c32 > 0xDBFF) return c32;
+            if (c32 < 0xD800 || c32 > 0xDFFF) return c32;
             // surrogate
+                if (c32 > 0xDBFF) return cx/X::read_error::surrogate_invalid, bad_utf32;
                 if (peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
             char32_t const s32 = (++i, imp::esc_to_utf32_<X>(i, e));
                 if (s32 < 0xDC00 || s32 > 0xDFFF)
-- 
2.43.0


From 3d32af7bb8c4f711dc13ae958175315ae4993101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 07/12] fix: JSON white space is space, tab, newline and
 carriage return only (vertical tab and form feed were skipped)

---
 src/cxon/lang/common/cio/chcls.hxx | 2 +-
 src/cxon/lang/json/json.hxx        | 9 ---------
 2 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/cxon/lang/common/cio/chcls.hxx b/src/cxon/lang/common/cio/chcls.hxx
index b327420..f24f6ec 100644
--- a/src/cxon/lang/common/cio/chcls.hxx
+++ b/src/cxon/lang/common/cio/chcls.hxx
@@ -62,7 +62,7 @@ namespace cxon { namespace cio { namespace chr { // character classes
         struct is {
             static bool ctrl   (char c) noexcept { return (unsigned char)c < 0x20; }
             static bool real   (char c) noexcept { return (unsigned char)c > 0x1F; }
-            static bool space  (char c) noexcept { return CXSP & is_x_[(unsigned char)c]; }
+            static bool space  (char c) noexcept { return JSSP & is_x_[(unsigned char)c]; }
             static bool digit8 (char c) noexcept { return DGOC & is_x_[(unsigned char)c]; }
             static bool digit10(char c) noexcept { return DGDC & is_x_[(unsigned char)c]; }
             static bool digit16(char c) noexcept { return DGHX & is_x_[(unsigned char)c]; }
diff --git a/src/cxon/lang/json/json.hxx b/src/cxon/lang/json/json.hxx
index c9acc6d..74f213f 100644
--- a/src/cxon/lang/json/json.hxx
+++ b/src/cxon/lang/json/json.hxx
@@ -87,13 +87,4 @@ namespace cxon { namespace json { // named parameters
 
 }}
 
-namespace cxon { namespace cio { namespace chr { // character classes
-
-    template <typename X>
-        struct is<JSON<X>> : is<X> {
-            static bool space(char c) noexcept { return JSSP & is_x_[(unsigned char)c]; }
-        };
-
-}}}
-
 #endif // CXON_JSON_JSON_HXX_
-- 
2.43.0


From 10e1a113e1ed2f8fa68611df923bbe81d4cfaed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 08/12] fix: an invalid comment after a comment is an error
 instead of being skipped

---
 src/cxon/lang/common/cio/io.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index 5b00151..c2e94fe 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -130,7 +130,7 @@ namespace cxon { namespace cio { // input
                         default:
                             return false;
                     }
-                    consume_<X>(i, e);
+                    return consume_<X>(i, e);
                 }
                 return true;
             }
-- 
2.43.0


From 4f10e5d89cf6f4a8ecf8b4fe4ad0d099cc8416b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:45 +0000
Subject: [PATCH 09/12] fix: reading a character right at the end of the input
 is an error instead of reading past it

---
 src/cxon/lang/common/cio/char.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 1dc2510..457d1b3 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -167,7 +167,7 @@ namespace cxon { namespace cio { namespace chr {
                 inline auto utf8_to_utf32_(II& i, II e, Cx& cx)
                     -> enable_if_t< X::validate_string_encoding, char32_t>
                 {   static_assert(is_char_8<typename std::iterator_traits<II>::value_type>::value, "unexpected");
-                    CXON_ASSERT(i != e, "unexpected");
+                    CXON_EXPECT(i != e);
                     char32_t const  c0 = (unsigned char)*i;
                     char32_t        c1, c2, c3;
                     if (c0 <= 0x7F)
@@ -220,7 +220,7 @@ namespace cxon { namespace cio { namespace chr {
                 inline auto utf8_to_utf32_(II& i, II e, Cx& cx)
                     -> enable_if_t<!X::validate_string_encoding, char32_t>
                 {   static_assert(is_char_8<typename std::iterator_traits<II>::value_type>::value, "unexpected");
-                    CXON_ASSERT(i != e, "unexpected");
+                    CXON_EXPECT(i != e);
                     char32_t const  c0 = (unsigned char)*i;
                     char32_t        c1, c2, c3;
                     if ((c0 & 0x80) == 0)
-- 
2.43.0


From 6a0e37817466bd64e5bba9a9170998f13b767eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:27 +0000
Subject: [PATCH 10/12] fix: an unpaired high surrogate is a write error
 instead of a read past the end of the text

---
 src/cxon/lang/common/cio/char.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 457d1b3..eba2a82 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -576,7 +576,7 @@ namespace cxon { namespace cio { namespace chr {
             struct encode_<X, char16_t> {
                 template <typename O, typename Cx>
                     static bool value(O& o, char16_t c, Cx& cx) {
-                        CXON_ASSERT(c < 0xD800 || c > 0xDBFF, "unexpected surrogate");
+                        if (c >= 0xD800 && c <= 0xDBFF) return cx/X::write_error::argument_invalid; // unpaired surrogate
                         return encode_<X, char32_t>::value(o, c, cx);
                     }
                 template <typename O, typename Cx>
@@ -590,8 +590,9 @@ namespace cxon { namespace cio { namespace chr {
                         static bool value_(O& o, const char16_t*& i, const char16_t* e, Cx& cx) {
                             char32_t c32 = *i;
                                 if (c32 >= 0xD800 && c32 <= 0xDBFF) { // surrogate
-                                    ++i;                        CXON_ASSERT(i != e, "invalid surrogate");
-                                    char32_t const s32 = *i;    CXON_ASSERT(s32 >= 0xDC00 && s32 <= 0xDFFF, "invalid surrogate");
+                                    char32_t const s32 = i + 1 != e ? i[1] : 0;
+                                        if (s32 < 0xDC00 || s32 > 0xDFFF) return cx/X::write_error::argument_invalid;
+                                    ++i;
                                     c32 = char32_t(0x10000 + (((c32 - 0xD800) << 10) | (s32 - 0xDC00)));
                                 }
                             return encode_<X, char32_t>::value(o, c32, cx);
-- 
2.43.0


From c58aa745148dc06fba1bfcaf3099ddb388751806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:13 +0000
Subject: [PATCH 11/12] fix: copying a buffered output iterator does not
 deliver its pending bytes twice

---
 src/cxon/lang/common/cio/io.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index c2e94fe..71204d0 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -322,11 +322,12 @@ namespace cxon { namespace cio {
             static_assert(std::is_scalar<T>::value, "not implemented");
 
             buffered_back_insert_iterator(container_type& c, buffer_type& b) noexcept : c_(c), b_(b), s_() {}
+            buffered_back_insert_iterator(const buffered_back_insert_iterator& o) : c_(o.c_), b_(o.b_), s_() { if (o.s_) o.flush(); } // the buffer is shared
             ~buffered_back_insert_iterator() { if (s_) flush(); }
 
             buffered_back_insert_iterator& operator *()     noexcept    { return *this; }
             buffered_back_insert_iterator& operator ++()    noexcept    { return *this; }
-            buffered_back_insert_iterator  operator ++(int) noexcept    { return *this; }
+            buffered_back_insert_iterator& operator ++(int) noexcept    { return *this; }
             buffered_back_insert_iterator& operator =(T t)              { return append(t), *this; }
 
             void append(T t) {
@@ -356,14 +357,14 @@ namespace cxon { namespace cio {
                 std::fill_n(b_.data() + s_, n, t), s_ += n;
             }
 
-            void flush() {
+            void flush() const {
                 poke(c_, b_.data(), /*b_.data() + */s_), s_ = 0;
             }
 
             private:
                 container_type& c_;
                 buffer_type& b_;
-                typename buffer_type::size_type s_;
+                mutable typename buffer_type::size_type s_;
         };
     template <typename C, typename B>
         inline auto buffered_back_inserter(C& c, B& b) noexcept -> buffered_back_insert_iterator<C, B> {
-- 
2.43.0


From f0090d0e52da4a5f5ce8b1ec7e9e1333683bcb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:45 +0000
Subject: [PATCH 12/12] fix: skipping a value at the end of the input is an
 error instead of reading past it

---
 src/cxon/lang/common/cio/value.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 037578c..1b9e2be 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -35,6 +35,7 @@ namespace cxon { namespace cio { namespace val {
             struct value_ {
                 template <typename O, typename II>
                     static bool skip(O& o, II& i, II e) {
+                        if (i == e)                 return false;
                         if (*i == X::map::end)      return false;
                         CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                             if (*i == X::list::end) return false;
-- 
2.43.0

