From 02f922a5c1388519d228a9732c1b0ee816c71f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:38 +0000
Subject: [PATCH 01/48] fix: overflows<signed>("-") read one character past the
 end of the string

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..5e2f043 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1721,7 +1721,7 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
-        if(str.str[1] == '0')
+        if(str.len > 1 && str.str[1] == '0')
         {
             if(str.len == 2)
                 return false;
-- 
2.43.0


From 06640b5e2255a8ce17ec6d079cbf095fc283b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:29 +0000
Subject: [PATCH 02/48] fix: left/right-aligned to_chars() wrote past the end
 of buffers shorter than the width

---
 src/c4/format.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..2f1466c 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -545,10 +545,9 @@ template<class T>
 size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= buf.len || ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
-    buf.first(align.width).sub(ret).fill(align.pad);
-    to_chars(buf, align.val);
+    buf.range(ret, align.width).fill(align.pad);
     return align.width;
 }
 
@@ -557,11 +556,11 @@ template<class T>
 size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= buf.len || ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
+    memmove(buf.str + rem, buf.str, ret);
     buf.first(rem).fill(align.pad);
-    to_chars(buf.sub(rem), align.val);
     return align.width;
 }
 
-- 
2.43.0


From d3ce94033e72a8c0a0e4560acbc459218b5ff1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:07 +0000
Subject: [PATCH 03/48] fix: atof()/atod() gave wrong values for hexadecimal
 reals

scan_rhex() accumulated on top of the incoming value, dropped the +10 of
hex letters, took the exponent as a power of 16 and asserted on '0x'.
---
 src/c4/charconv.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 5e2f043..f60048e 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -9,6 +9,7 @@
 #include <inttypes.h>
 #include <type_traits>
 #include <climits>
+#include <cmath>
 #include <limits>
 #include <utility>
 
@@ -1964,11 +1965,9 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
-    C4_ASSERT(s.len > 0);
-    C4_ASSERT(s.str[0] != '-');
-    C4_ASSERT(s.str[0] != '+');
-    C4_ASSERT(!s.begins_with("0x"));
-    C4_ASSERT(!s.begins_with("0X"));
+    if(s.len == 0) // only the prefix was given
+        return false;
+    *val = T(0);
     size_t pos = 0;
     // integer part
     for( ; pos < s.len; ++pos)
@@ -1977,9 +1976,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         if(c >= '0' && c <= '9')
             *val = *val * T(16) + T(c - '0');
         else if(c >= 'a' && c <= 'f')
-            *val = *val * T(16) + T(c - 'a');
+            *val = *val * T(16) + T(10 + (c - 'a'));
         else if(c >= 'A' && c <= 'F')
-            *val = *val * T(16) + T(c - 'A');
+            *val = *val * T(16) + T(10 + (c - 'A'));
         else if(c == '.')
         {
             ++pos;
@@ -2004,9 +2003,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             if(c >= '0' && c <= '9')
                 *val += digit * T(c - '0');
             else if(c >= 'a' && c <= 'f')
-                *val += digit * T(c - 'a');
+                *val += digit * T(10 + (c - 'a'));
             else if(c >= 'A' && c <= 'F')
-                *val += digit * T(c - 'A');
+                *val += digit * T(10 + (c - 'A'));
             else if(c == 'p' || c == 'P')
             {
                 ++pos;
@@ -2026,10 +2025,10 @@ power:
             ++pos;
         if(C4_LIKELY(pos < s.len))
         {
-            int16_t powval = {};
+            int32_t powval = {};
             if(C4_LIKELY(atoi(s.sub(pos), &powval)))
             {
-                *val *= ipow<T, int16_t, 16>(powval);
+                *val = std::ldexp(*val, powval); // the exponent is a power of two
                 return true;
             }
         }
-- 
2.43.0


From ab64adc1451bb32537ef7806d3f35d2a1cd02bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:20 +0000
Subject: [PATCH 04/48] fix: hexadecimal output of negative reals put the sign
 after the 0x prefix

---
 src/c4/charconv.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index f60048e..eb52297 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1924,14 +1924,17 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 {
     std::to_chars_result result;
     size_t pos = 0;
-    if(formatting == FTOA_HEXA)
+    if(formatting == FTOA_HEXA && std::isfinite(v))
     {
-        if(buf.len > size_t(2))
-        {
-            buf.str[0] = '0';
-            buf.str[1] = 'x';
-        }
-        pos += size_t(2);
+        // the sign goes before the prefix
+        const bool isneg = std::signbit(v);
+        const csubstr prefix = isneg ? csubstr("-0x") : csubstr("0x");
+        if(buf.len <= prefix.len)
+            return prefix.len + static_cast<size_t>(std::numeric_limits<T>::max_digits10);
+        memcpy(buf.str, prefix.str, prefix.len);
+        pos = prefix.len;
+        if(isneg)
+            v = -v;
     }
     if(precision == -1)
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting);
-- 
2.43.0


From dc2031c64a399f24e5e985a76d5bb676b27f0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:42 +0000
Subject: [PATCH 05/48] fix: reading the first number of a string failed when
 it had a leading '+'

the span functions accept the '+', but atoi() asserts on it and atou(), atof() and atod() refuse it
---
 src/c4/charconv.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index eb52297..a2968e5 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1512,7 +1512,8 @@ C4_ALWAYS_INLINE size_t atoi_first(csubstr str, T * C4_RESTRICT v)
     csubstr trimmed = str.first_int_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atoi(trimmed, v))
+    // the span may have a leading '+', which atoi() does not accept
+    if(atoi(trimmed.sub(trimmed.str[0] == '+'), v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
@@ -1593,7 +1594,8 @@ C4_ALWAYS_INLINE size_t atou_first(csubstr str, T *v)
     csubstr trimmed = str.first_uint_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atou(trimmed, v))
+    // the span may have a leading '+', which atou() does not accept
+    if(atou(trimmed.sub(trimmed.str[0] == '+'), v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
@@ -2153,7 +2155,8 @@ inline size_t atof_first(csubstr str, float * C4_RESTRICT v) noexcept
     csubstr trimmed = str.first_real_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atof(trimmed, v))
+    // the span may have a leading '+', which atof() does not accept
+    if(atof(trimmed.sub(trimmed.str[0] == '+'), v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
@@ -2214,7 +2217,8 @@ inline size_t atod_first(csubstr str, double * C4_RESTRICT v) noexcept
     csubstr trimmed = str.first_real_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atod(trimmed, v))
+    // the span may have a leading '+', which atod() does not accept
+    if(atod(trimmed.sub(trimmed.str[0] == '+'), v))
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
-- 
2.43.0


From 2c4e76b98a69aa093630ecfe472031f6f120feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:42 +0000
Subject: [PATCH 06/48] fix: from_chars_first() of pointers returned 1 instead
 of the number of characters, even on failure

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index a2968e5..e253ef9 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2408,7 +2408,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
-- 
2.43.0


From 27771b900524d8f5979b8083b9298cea829a16d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:42 +0000
Subject: [PATCH 07/48] fix: from_chars_first(bool) failed unless the whole
 string was the value

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index e253ef9..a0e2ed7 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2497,9 +2497,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
-- 
2.43.0


From 8ec57a30108911b2541770db36f0f911660a8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:42 +0000
Subject: [PATCH 08/48] fix: from_chars_first(substr*) did not set the length
 of the string read, unlike from_chars()

---
 src/c4/charconv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index a0e2ed7..f153252 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2639,6 +2639,7 @@ inline size_t from_chars_first(csubstr buf, substr * C4_RESTRICT v) noexcept
     }
     if(C4_UNLIKELY(trimmed.len > v->len))
         return csubstr::npos;
+    v->len = trimmed.len;
     return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
-- 
2.43.0


From 735c8dca899b2eda31f07a744f293621e26e75cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:42 +0000
Subject: [PATCH 09/48] fix: from_chars_first(raw) returned 1 instead of the
 number of bytes read

---
 src/c4/format.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 2f1466c..a79e2f5 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -478,13 +478,17 @@ inline bool from_chars(csubstr buf, fmt::raw_wrapper r)
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper *r)
 {
-    return from_chars(buf, r);
+    if(!from_chars(buf, r))
+        return csubstr::npos;
+    // the data comes after the padding required by the alignment
+    const size_t misalignment = reinterpret_cast<uintptr_t>(buf.str) & (r->alignment - 1);
+    return (misalignment ? r->alignment - misalignment : 0) + r->len;
 }
 /** read a variable in raw binary format, using memcpy
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper r)
 {
-    return from_chars(buf, &r);
+    return from_chars_first(buf, &r);
 }
 
 
-- 
2.43.0


From 5c45eb70830a280d18b802adbcc580578394a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:26 +0000
Subject: [PATCH 10/48] fix: substr::count() of an empty string did not
 terminate

---
 src/c4/substr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..f27b562 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -578,6 +578,8 @@ public:
     inline size_t count(ro_substr c, size_t pos=0) const
     {
         C4_ASSERT(pos >= 0 && pos <= len);
+        if(c.len == 0)
+            return len - pos + 1; // the empty string occurs at every position
         size_t num = 0;
         pos = find(c, pos);
         while(pos != npos)
-- 
2.43.0


From c399915a5e46efc87cd735c21c2c9dea4e947ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 11/48] fix: substr::overlaps() was true for empty strings
 strictly inside the other string

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index f27b562..298c0a4 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -313,7 +313,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE bool overlaps(ro_substr const that) const noexcept
     {
         // thanks @timwynants
-        return that.str+that.len > str && that.str < str+len;
+        return len > 0 && that.len > 0 && that.str+that.len > str && that.str < str+len;
     }
 
 public:
-- 
2.43.0


From 11c8b8b62087df1154f9200e5fa0496233c16474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 12/48] fix: substr::replace_all() with pos==npos read and
 wrote out of bounds

---
 src/c4/substr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 298c0a4..58cb022 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2145,6 +2145,8 @@ public:
                 }                                                       \
                 sz += num;                                              \
             }
+        if(pos == npos)
+            pos = len;
         size_t sz = 0;
         size_t b = pos;
         _c4append(str, str + pos);
-- 
2.43.0


From 7575b9047f4446766ec25218ef113377ff739a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:41 +0000
Subject: [PATCH 13/48] fix: slices one past the end were not caught by the
 assertions of offs(), left_of() and right_of()

---
 src/c4/substr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 58cb022..798ecf5 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -368,7 +368,7 @@ public:
     {
         C4_ASSERT(left  >= 0 && left  <= len);
         C4_ASSERT(right >= 0 && right <= len);
-        C4_ASSERT(left  <= len - right + 1);
+        C4_ASSERT(left  <= len - right);
         return basic_substring(str + left, len - right - left);
     }
 
@@ -384,7 +384,7 @@ public:
     /** return [0, pos+include_pos[ . Same as .first(pos+1), but provided for compatibility with .right_of() */
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos == npos || pos + include_pos <= len);
         return (pos != npos) ?
             basic_substring(str, pos+include_pos) :
             *this;
@@ -393,7 +393,7 @@ public:
     /** return [pos+1, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos < len || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
@@ -402,7 +402,7 @@ public:
     /** return [pos+!include_pos, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos == npos || pos + !include_pos <= len);
         return (pos != npos) ?
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
-- 
2.43.0


From 4cccd6020c9aeb1c543761cf18ecdf6d541aa0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 14/48] fix: unformat() returned a size beyond the end of a
 text shorter than the format string

---
 src/c4/format.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index a79e2f5..1577aad 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -852,16 +852,17 @@ substr format_sub(substr buf, csubstr fmt, Args const& C4_RESTRICT ...args)
 
 /// @cond dev
 // terminates the variadic recursion
-inline size_t unformat(csubstr /*buf*/, csubstr fmt)
+inline size_t unformat(csubstr buf, csubstr fmt)
 {
-    return fmt.len;
+    return buf.len >= fmt.len ? fmt.len : csubstr::npos;
 }
 /// @endcond
 
 
 /** using a format string, deserialize the arguments from the given
  * buffer.
- * @return the number of characters read from the buffer, or npos if a conversion failed.
+ * @return the number of characters read from the buffer, or npos if a
+ * conversion failed or if the buffer ended before the format string.
  * @see c4::format(). c4::unformat() is the inverse function to format(). */
 template<class Arg, class... Args>
 size_t unformat(csubstr buf, csubstr fmt, Arg & C4_RESTRICT a, Args & C4_RESTRICT ...more)
-- 
2.43.0


From 76fc0a3e5b0cd0ded26eba6c69059effb57f1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:55 +0000
Subject: [PATCH 15/48] fix: cat_dump_resume() dumped arguments past the one
 which failed, and again when resuming

---
 src/c4/dump.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index c65623f..ad8b889 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -142,8 +142,10 @@ DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
-        size_t sz = dump<dumpfn>(buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        // after an argument fails, do not dump: only get the size
+        const bool dump_arg = currarg == results.lastok + 1 && buf.len > 0;
+        size_t sz = dump<dumpfn>(dump_arg ? buf : buf.first(0), a);  // yield to the specialized function
+        if(dump_arg && sz <= buf.len)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -156,8 +158,10 @@ DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults resul
 {
     if(C4_LIKELY(results.write_arg(currarg)))
     {
-        size_t sz = dump(dumpfn, buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        // after an argument fails, do not dump: only get the size
+        const bool dump_arg = currarg == results.lastok + 1 && buf.len > 0;
+        size_t sz = dump(dumpfn, dump_arg ? buf : buf.first(0), a);  // yield to the specialized function
+        if(dump_arg && sz <= buf.len)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
-- 
2.43.0


From 744ef7e01d3df311803c342e96e2a92f09e1007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 16/48] fix: catsep_dump_resume() lost the strings following an
 argument that did not fit

---
 src/c4/dump.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index ad8b889..1907221 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -284,7 +284,7 @@ void catsep_dump_resume_(size_t currarg, DumpResults *C4_RESTRICT results, subst
     {
         size_t sz = dump<dumpfn>(*buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len)) // strings are not dumped when the buffer is empty
             results->lastok = currarg;
         else
             buf->len = 0;
@@ -298,7 +298,7 @@ void catsep_dump_resume_(size_t currarg, DumperFn &&dumpfn, DumpResults *C4_REST
     {
         size_t sz = dump(dumpfn, *buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len)) // strings are not dumped when the buffer is empty
             results->lastok = currarg;
         else
             buf->len = 0;
-- 
2.43.0


From 798612d04698a10f347aa596860d3b26aa1190c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:04 +0000
Subject: [PATCH 17/48] fix: format_dump_resume() lost strings after an
 argument that did not fit, and repeated the tail of a complete dump

---
 src/c4/dump.hpp | 50 ++++++++++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index 1907221..c1042e3 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -457,7 +457,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -470,7 +470,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -486,29 +486,26 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    if(C4_UNLIKELY(pos == csubstr::npos))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
-        {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
-        }
-        if(C4_LIKELY(buf.len > 0))
+        if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
         {
             results.lastok = currarg;
-            dumpfn(fmt.first(pos));
+            dumpfn(fmt);
         }
+        return results;
+    }
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
+    {
+        results.lastok = currarg;
+        dumpfn(fmt.first(pos));
     }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump<dumpfn>(buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len)) // strings are not dumped when the buffer is empty
             results.lastok = currarg + 1;
         else
             buf.len = 0;
@@ -526,29 +523,26 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    if(C4_UNLIKELY(pos == csubstr::npos))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
-        {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
-        }
-        if(C4_LIKELY(buf.len > 0))
+        if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
         {
             results.lastok = currarg;
-            dumpfn(fmt.first(pos));
+            dumpfn(fmt);
         }
+        return results;
+    }
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
+    {
+        results.lastok = currarg;
+        dumpfn(fmt.first(pos));
     }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump(dumpfn, buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len)) // strings are not dumped when the buffer is empty
             results.lastok = currarg + 1;
         else
             buf.len = 0;
-- 
2.43.0


From ffb45763e62f4479dfe75a632be3891a343c689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:33 +0000
Subject: [PATCH 18/48] fix: base64_valid() accepted padding characters
 anywhere

---
 src/c4/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..11bca28 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,13 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
+    // padding is allowed only in the last two characters
+    for(size_t i = 0; i < 2 && encoded.ends_with('='); ++i)
+        encoded = encoded.first(encoded.len - 1);
     for(const char c : encoded)
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From a93665125540b3893640f6b81da937c393589b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:02 +0000
Subject: [PATCH 19/48] fix: assigning a blob to a cblob did not return a value

---
 src/c4/blob.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/blob.hpp b/src/c4/blob.hpp
index 76a1d9e..542e8f9 100644
--- a/src/c4/blob.hpp
+++ b/src/c4/blob.hpp
@@ -39,8 +39,8 @@ public:
 
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U> const& that) noexcept : buf(that.buf), len(that.len) {}
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U>     && that) noexcept : buf(that.buf), len(that.len) {}
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; }
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; return *this; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; return *this; }
 
     C4_ALWAYS_INLINE blob_(void       *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
     C4_ALWAYS_INLINE blob_(void const *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
-- 
2.43.0


From 5d2c2d302d794937700364972aab571618d839d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:03 +0000
Subject: [PATCH 20/48] fix: MemoryResourceLinear leaked its memory on
 release() and could not acquire() again

release() and acquire(size) called the virtual allocation functions, which
after construction dispatch to the linear resource itself.
---
 src/c4/memory_resource.cpp | 10 ++++++----
 src/c4/memory_resource.hpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 891c373..20c9b0a 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -166,7 +166,8 @@ void detail::_MemoryResourceSingleChunk::release()
 {
     if(m_mem && m_owner)
     {
-        impl_type::deallocate(m_mem, m_size);
+        // non-virtual call: the memory belongs to the underlying resource
+        impl_type::do_deallocate(m_mem, m_size, alignof(max_align_t));
     }
     m_mem = nullptr;
     m_size = 0;
@@ -176,16 +177,17 @@ void detail::_MemoryResourceSingleChunk::release()
 
 void detail::_MemoryResourceSingleChunk::acquire(size_t sz)
 {
-    clear();
+    release();
+    // non-virtual call: the memory is obtained from the underlying resource
+    m_mem = (char*) impl_type::do_allocate(sz, alignof(max_align_t), nullptr);
     m_owner = true;
-    m_mem = (char*) impl_type::allocate(sz, alignof(max_align_t));
     m_size = sz;
     m_pos = 0;
 }
 
 void detail::_MemoryResourceSingleChunk::acquire(void *mem, size_t sz)
 {
-    clear();
+    release();
     m_owner = false;
     m_mem = (char*) mem;
     m_size = sz;
diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0818f58..4b28367 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -288,7 +288,7 @@ public:
     char  *m_mem{nullptr};
     size_t m_size{0};
     size_t m_pos{0};
-    bool   m_owner;
+    bool   m_owner{false};
 
 public:
 
-- 
2.43.0


From 5b77bb592bd0637713448c4aa99d82a87c9da9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:06 +0000
Subject: [PATCH 21/48] fix: MemoryResourceLinear::reallocate() lost the
 contents of blocks which could not grow in place

Also, a huge size wrapped around and was accepted in place.
---
 src/c4/memory_resource.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 20c9b0a..b853be5 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -249,15 +249,20 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block, and it fits in size
-    else if(same_pos && cptr + newsz <= m_mem + m_size)
+    else if(same_pos && newsz - oldsz <= m_size - m_pos)
     {
         // if this is the MRA, we can safely shrink the position
         m_pos += newsz - oldsz;
         return ptr;
     }
     // we're growing the block or it doesn't fit -
-    // delegate any of these situations to do_deallocate()
-    return do_allocate(newsz, alignment, ptr);
+    // delegate any of these situations to do_allocate()
+    void *mem = do_allocate(newsz, alignment, ptr);
+    if(mem && oldsz)
+    {
+        ::memcpy(mem, ptr, oldsz);
+    }
+    return mem;
 }
 
 
-- 
2.43.0


From 1fd9a982731169f0f823fc83cb56646380ef0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:18 +0000
Subject: [PATCH 22/48] fix: ScopedMemoryResourceCounts(resource) left the
 counted resource installed as global on scope exit

---
 src/c4/memory_resource.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 4b28367..89a7d65 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -548,18 +548,19 @@ struct ScopedMemoryResource
 struct ScopedMemoryResourceCounts
 {
     MemoryResourceCounts mr;
+    MemoryResource *m_original;
 
-    ScopedMemoryResourceCounts() : mr()
+    ScopedMemoryResourceCounts() : mr(), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
-    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m)
+    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
     ~ScopedMemoryResourceCounts()
     {
-        set_memory_resource(mr.resource());
+        set_memory_resource(m_original);
     }
 };
 
-- 
2.43.0


From bf2be3d93ee557e3c33e70f9fd8ed778cc597b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:55 +0000
Subject: [PATCH 23/48] fix: SmallAllocator handed out overlapping blocks

The position in the small buffer was the number of live objects, so that a
container growing in the buffer (allocate larger, free smaller) got blocks
overlapping live ones. Also, the requested alignment was ignored, and
reallocate() did not compile, or lost the contents.
---
 src/c4/allocator.hpp | 68 ++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index e345966..2b054af 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -5,6 +5,7 @@
 #include "c4/ctor_dtor.hpp"
 
 #include <memory> // std::allocator_traits
+#include <string.h> // memcpy
 #include <type_traits>
 
 /** @file allocator.hpp Contains classes to make typeful allocations (note
@@ -272,7 +273,13 @@ class SmallAllocator : public detail::_AllocatorUtil<MemResProvider>
     using impl_type = detail::_AllocatorUtil<MemResProvider>;
 
     alignas(Alignment) char m_arr[N * sizeof(T)];
-    size_t m_num{0};
+    size_t m_num{0}; ///< number of objects currently allocated from m_arr
+    size_t m_pos{0}; ///< offset of the free space at the end of m_arr
+
+    bool _in_arr(void const* ptr) const
+    {
+        return (char const*)ptr >= m_arr && (char const*)ptr <= m_arr + sizeof(m_arr);
+    }
 
 public:
 
@@ -316,16 +323,14 @@ public:
     SmallAllocator() : impl_type() {} // VS demands this
 
     template<class U, size_t N2, size_t A2, class MP2>
-    SmallAllocator(SmallAllocator<U,N2,A2,MP2> const& that) : impl_type(that.resource())
-    {
-        C4_ASSERT(that.m_num == 0);
-    }
+    SmallAllocator(SmallAllocator<U,N2,A2,MP2> const& that) : impl_type(that.resource()) {}
 
-    SmallAllocator(SmallAllocator const&) = default;
-    SmallAllocator(SmallAllocator     &&) = default;
+    // the blocks in the small buffer remain with the original allocator
+    SmallAllocator(SmallAllocator const& that) : impl_type(that) {}
+    SmallAllocator(SmallAllocator     && that) : impl_type(that) {}
 
-    SmallAllocator& operator= (SmallAllocator const&) = default; // WTF? why? @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator
-    SmallAllocator& operator= (SmallAllocator     &&) = default;
+    SmallAllocator& operator= (SmallAllocator const& that) { impl_type::operator=(that); return *this; } // WTF? why? @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator
+    SmallAllocator& operator= (SmallAllocator     && that) { impl_type::operator=(that); return *this; }
 
     /** returns a default-constructed polymorphic allocator object
      * @see http://en.cppreference.com/w/cpp/memory/polymorphic_allocator/select_on_container_copy_construction      */
@@ -335,26 +340,37 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        void *vmem;
-        if(m_num + num_objs <= N)
+        size_t sz = num_objs * sizeof(T);
+        void *vmem = m_arr + m_pos;
+        size_t space = sizeof(m_arr) - m_pos;
+        if(std::align(alignment, sz, vmem, space))
         {
-            vmem = (m_arr + m_num * sizeof(T));
+            m_pos = static_cast<size_t>((char*)vmem - m_arr) + sz;
+            m_num += num_objs;
         }
         else
         {
-            vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
+            vmem = this->resource()->allocate(sz, alignment);
         }
-        m_num += num_objs;
         T *mem = static_cast<T*>(vmem);
         return mem;
     }
 
     void deallocate(T * ptr, size_t num_objs, size_t alignment=Alignment)
     {
-        C4_ASSERT(m_num >= num_objs);
-        m_num -= num_objs;
-        if((char*)ptr >= m_arr && (char*)ptr < m_arr + (N * sizeof(T)))
+        if(_in_arr(ptr))
         {
+            C4_ASSERT(m_num >= num_objs);
+            m_num -= num_objs;
+            // the space can only be reused when it is at the end
+            if(m_num == 0)
+            {
+                m_pos = 0;
+            }
+            else if((char*)(ptr + num_objs) == m_arr + m_pos)
+            {
+                m_pos -= num_objs * sizeof(T);
+            }
             return;
         }
         C4_ASSERT(this->resource() != nullptr);
@@ -366,18 +382,16 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        if(oldnum <= N && newnum <= N)
-        {
-            return m_arr;
-        }
-        else if(oldnum <= N && newnum > N)
-        {
-            return allocate(newnum, alignment);
-        }
-        else if(oldnum > N && newnum <= N)
+        if(_in_arr(ptr))
         {
+            T *mem = allocate(newnum, alignment);
+            size_t num = oldnum < newnum ? oldnum : newnum;
+            if(num)
+            {
+                ::memcpy((void*)mem, (void const*)ptr, num * sizeof(T));
+            }
             deallocate(ptr, oldnum, alignment);
-            return m_arr;
+            return mem;
         }
         void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
         T* mem = static_cast<T*>(vmem);
-- 
2.43.0


From 04143fd2dc5e2310319e5cee54d34143cb2973ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 24/48] fix: MemoryResourceCounts lost count of the block when
 its reallocation failed

---
 src/c4/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 89a7d65..b023c2e 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -513,8 +513,8 @@ protected:
 
     virtual void* do_reallocate(void* ptr, size_t oldsz, size_t newsz, size_t alignment) override
     {
-        m_counts.rem_counts(ptr, oldsz);
         void* nptr = m_resource->reallocate(ptr, oldsz, newsz, alignment);
+        m_counts.rem_counts(ptr, oldsz);
         m_counts.add_counts(nptr, newsz);
         return nptr;
     }
-- 
2.43.0


From 8b900a5118c45b8369ea4e8cad7f3bdf6d01f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 25/48] fix: equality of spans in C++11 ignored the size, and
 read past the end of the right-hand side

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 43bb633..294a7d5 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -211,7 +211,7 @@ inline constexpr bool operator==
 #if C4_CPP >= 14
     return std::equal(l.begin(), l.end(), r.begin(), r.end());
 #else
-    return l.same_span(r) || std::equal(l.begin(), l.end(), r.begin());
+    return static_cast<size_t>(l.size()) == static_cast<size_t>(r.size()) && std::equal(l.begin(), l.end(), r.begin());
 #endif
 }
 
-- 
2.43.0


From bfde75f9fc151fecaafd6478218cf4586e33865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 26/48] fix: rend() of mutable spans did not compile

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 294a7d5..76bb01c 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -83,7 +83,7 @@ public:
     C4_ALWAYS_INLINE const_reverse_iterator  rbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
     C4_ALWAYS_INLINE const_reverse_iterator crbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
 
-    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return const_reverse_iterator(_c4ptr); }
+    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return reverse_iterator(_c4ptr); }
     C4_ALWAYS_INLINE const_reverse_iterator  rend() const noexcept { return const_reverse_iterator(_c4cptr); }
     C4_ALWAYS_INLINE const_reverse_iterator crend() const noexcept { return const_reverse_iterator(_c4cptr); }
 
-- 
2.43.0


From 793a145ff8fe7893274466ba6750c776b220b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 27/48] fix: the assertion of span::subspan() missed counts
 which wrap around, or are negative

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 76bb01c..e88d830 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -99,7 +99,7 @@ public:
     C4_ALWAYS_INLINE SpanImpl subspan(I first, I num) const C4_NOEXCEPT_X
     {
         C4_XASSERT((first >= 0 && first < _c4csz) || (first == _c4csz && num == 0));
-        C4_XASSERT((first + num >= 0) && (first + num <= _c4csz));
+        C4_XASSERT((num >= 0) && (num <= _c4csz - first));
         return _c4cthis->_select(_c4cptr + first, num);
     }
     C4_ALWAYS_INLINE SpanImpl subspan(I first) const C4_NOEXCEPT_X ///< goes up until the end of the span
-- 
2.43.0


From 4a25a74ce2d8fe802dec61591eb45dcfec8d8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:13 +0000
Subject: [PATCH 28/48] fix: finding an enum symbol by name and length accepted
 mere prefixes of the name

---
 src/c4/enum.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/c4/enum.hpp b/src/c4/enum.hpp
index ae12f51..8fa5c2d 100644
--- a/src/c4/enum.hpp
+++ b/src/c4/enum.hpp
@@ -240,23 +240,18 @@ bool EnumSymbols<Enum>::Sym::cmp(const char *s) const
 template<class Enum>
 bool EnumSymbols<Enum>::Sym::cmp(const char *s, size_t len) const
 {
-    if(strncmp(name, s, len) == 0)
+    // the lengths must match as well: s may be a prefix of the name
+    const size_t nlen = strlen(name);
+    if(len == nlen && strncmp(name, s, len) == 0)
         return true;
 
-    size_t nlen = 0;
     for(int i = 1; i <_EOFFS_LAST; ++i)
     {
         auto o = eoffs<Enum>((EnumOffsetType)i);
         if(o > 0)
         {
-            if(!nlen)
-            {
-                nlen = strlen(name);
-            }
             C4_ASSERT(o < nlen);
-            size_t rem = nlen - o;
-            auto m = len > rem ? len : rem;
-            if(len >= m && strncmp(name + o, s, m) == 0)
+            if(len == nlen - o && strncmp(name + o, s, len) == 0)
                 return true;
         }
     }
-- 
2.43.0


From 840ca0fa281f378a055bb8d50c868bb7e0037261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:14 +0000
Subject: [PATCH 29/48] fix: str2bm() rejected digits in symbol names,
 hexadecimal letters and blanks after a symbol, and dereferenced null on a
 leading '|'

---
 src/c4/bitmask.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index a4190d5..f92ab08 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -263,27 +263,30 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
     I val = 0;
     bool started = false;
     bool alnum = false, num = false;
-    const char *f = nullptr, *pc = str;
+    const char *f = nullptr, *l = nullptr, *pc = str; // the current symbol is [f,l[
     for( ; pc < str+sz; ++pc)
     {
         const char c = *pc;
         if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')
         {
-            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))); // accept hexadecimal numbers
+            // accept hexadecimal numbers
+            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))
+                     || ((pc - f) > 1 && (f[1] == 'x' || f[1] == 'X') && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))));
             if( ! started)
             {
                 f = pc;
                 alnum = started = true;
             }
+            l = pc + 1;
         }
         else if(c >= '0' && c <= '9')
         {
-            C4_CHECK( ! alnum);
             if(!started)
             {
                 f = pc;
                 num = started = true;
             }
+            l = pc + 1;
         }
         else if(c == ':' || c == ' ')
         {
@@ -291,9 +294,10 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c == '|' || c == '\0')
         {
+            C4_CHECK_MSG(started, "missing symbol in bitmask string");
             C4_ASSERT(num != alnum);
-            C4_ASSERT(pc >= f);
-            val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
+            C4_ASSERT(l >= f);
+            val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(l-f), alnum);
             started = num = alnum = false;
             if(c == '\0')
             {
@@ -308,9 +312,10 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
 
     if(f)
     {
+        C4_CHECK_MSG(started, "missing symbol in bitmask string");
         C4_ASSERT(num != alnum);
-        C4_ASSERT(pc >= f);
-        val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
+        C4_ASSERT(l >= f);
+        val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(l-f), alnum);
     }
 
     return val;
-- 
2.43.0


From 190e9dd2ca9170623dca76f8d053e772f3c0ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:16 +0000
Subject: [PATCH 30/48] fix: bm2stream() silently dropped the bits without a
 symbol

---
 src/c4/bitmask.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index f92ab08..1cee4f0 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -56,6 +56,7 @@ Stream& bm2stream(Stream &s, typename std::underlying_type<Enum>::type bits, Enu
                 bits &= ~b;
             }
         }
+        C4_CHECK_MSG(bits == 0, "could not find all bits");
         return s;
     }
     else
-- 
2.43.0


From a22d3e0ab67b322ccf7fefdb06386d7a8cb465e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:41 +0000
Subject: [PATCH 31/48] fix: make_room() of non-trivial types constructed over
 live objects, and lost the values when room is 0

---
 src/c4/ctor_dtor.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index da832ba..bc3b1d7 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -313,11 +313,16 @@ make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
         memmove(buf + room, buf, bufsz * sizeof(U));
     }
 }
-/** makes room at the beginning of buf, which has a current size of bufsz */
+/** makes room at the beginning of buf, which has a current size of bufsz.
+ * @note the objects which were in the room are left there, moved-from */
 template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_trivially_move_constructible<U>::value, void>::type
 make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
 {
     C4_ASSERT(bufsz >= 0 && room >= 0);
+    if(room == 0)
+    {
+        return; // the objects are already in place
+    }
     if(room >= bufsz)
     {
         for(I i = 0; i < bufsz; ++i)
@@ -330,6 +335,10 @@ make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
         for(I i = 0; i < bufsz; ++i)
         {
             I w = bufsz-1 - i; // do a backwards loop
+            if(w + room < bufsz)
+            {
+                buf[w + room].~U(); // was moved-from above
+            }
             new ((void*)(buf + (w + room))) U(std::move(buf[w]));
         }
     }
-- 
2.43.0


From c949a4f48f62cc69c69030bf8c8d3c339c399bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 32/48] fix: destroy_room() of non-trivial types left the
 removed objects alive unless all were removed

---
 src/c4/ctor_dtor.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index bc3b1d7..5058f79 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -421,19 +421,17 @@ destroy_room(U *buf, I n, I room)
 {
     C4_ASSERT(n >= 0 && room >= 0);
     C4_ASSERT(room <= n);
-    if(room < n)
+    if(room == 0)
     {
-        for(I i = 0, e = n - room; i < e; ++i)
-        {
-            buf[i] = std::move(buf[i + room]);
-        }
+        return; // nothing to destroy
     }
-    else
+    for(I i = 0, e = n - room; i < e; ++i)
     {
-        for(I i = 0; i < n; ++i)
-        {
-            buf[i].~U();
-        }
+        buf[i] = std::move(buf[i + room]);
+    }
+    for(I i = n - room; i < n; ++i)
+    {
+        buf[i].~U();
     }
 }
 
-- 
2.43.0


From 5b48ada6e3624838be6bb96598f8afe7caca43f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:38 +0000
Subject: [PATCH 33/48] fix: mem_overlaps() was true for an empty range
 strictly inside the other range

---
 src/c4/memory_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 29341cf..9b1ba78 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -50,7 +50,7 @@ C4_ALWAYS_INLINE void mem_zero(T* mem)
 C4_ALWAYS_INLINE C4_CONST bool mem_overlaps(void const* a, void const* b, size_t sza, size_t szb)
 {
     // thanks @timwynants
-    return (((const char*)b + szb) > a && b < ((const char*)a+sza));
+    return sza && szb && (((const char*)b + szb) > a && b < ((const char*)a+sza));
 }
 
 void mem_repeat(void* dest, void const* pattern, size_t pattern_size, size_t num_times);
-- 
2.43.0


From d57e1276c16970c3bc20eef4f39c210cb8724b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 34/48] fix: the default constructor of tight_pair of two equal
 types left the second value uninitialised

---
 src/c4/memory_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 9b1ba78..ed63bd0 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -723,7 +723,7 @@ struct tight_pair<First, Second, tpc_same> : public First
     using first_type = First;
     using second_type = Second;
 
-    tight_pair() : First() {}
+    tight_pair() : First(), m_second() {}
     tight_pair(First const& f, Second const& s) : First(f), m_second(s) {}
 
     C4_ALWAYS_INLINE C4_CONSTEXPR14 First      & first ()       { return static_cast<First      &>(*this); }
-- 
2.43.0


From 1de4396786e840ffebb287fa924de912ca3af7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:28 +0000
Subject: [PATCH 35/48] fix: ipow() with the smallest exponent of its type
 returned 1

---
 src/c4/memory_util.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index ed63bd0..a7eeba8 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -485,8 +485,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(B base, E exponent) noexcept -> typename std::
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = exponent; e < 0; ++e)
             r /= base;
     }
     return r;
@@ -506,8 +505,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = exponent; e < 0; ++e)
             r /= base;
     }
     return r;
@@ -528,8 +526,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = exponent; e < 0; ++e)
             r /= bbase;
     }
     return r;
-- 
2.43.0


From 127d9ba7aea6da82ee10f4902d4d2a600d4783b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:34 +0000
Subject: [PATCH 36/48] fix: the assertions of substr::erase() and
 reverse_sub() missed counts which wrap around

---
 src/c4/substr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 798ecf5..6c1aeac 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2039,7 +2039,7 @@ public:
     C4_REQUIRE_RW(void) reverse_sub(size_t ifirst, size_t num)
     {
         C4_ASSERT(ifirst >= 0 && ifirst <= len);
-        C4_ASSERT(ifirst + num >= 0 && ifirst + num <= len);
+        C4_ASSERT(num <= len - ifirst);
         if(num == 0) return;
         detail::_do_reverse(str + ifirst, str + ifirst + num - 1);
     }
@@ -2061,7 +2061,7 @@ public:
      * @note this method requires that the string memory is writeable and is SFINAEd out for const C */
     C4_REQUIRE_RW(basic_substring) erase(size_t pos, size_t num)
     {
-        C4_ASSERT(pos >= 0 && pos+num <= len);
+        C4_ASSERT(pos <= len && num <= len - pos);
         size_t num_to_move = len - pos - num;
         memmove(str + pos, str + pos + num, sizeof(C) * num_to_move);
         return basic_substring{str, len - num};
-- 
2.43.0


From 7a5cd4694fca9cd4d950c7c3cb43522010b291c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:03 +0000
Subject: [PATCH 37/48] fix: C4_CHECK_MSG() of a condition with a '%' garbled
 the message and its arguments

---
 src/c4/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.hpp b/src/c4/error.hpp
index 95d7c0d..c326109 100644
--- a/src/c4/error.hpp
+++ b/src/c4/error.hpp
@@ -338,7 +338,7 @@ struct srcloc
     do {                                                                \
         if(C4_UNLIKELY(!(cond)))                                        \
         {                                                               \
-            C4_ERROR("check failed: " #cond "\n" fmt, ## __VA_ARGS__);  \
+            C4_ERROR("check failed: %s\n" fmt, #cond, ## __VA_ARGS__); \
         }                                                               \
     } while(0)
 
-- 
2.43.0


From 90ab1f1f7c773665b892785aa4cea15a03d6e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:04 +0000
Subject: [PATCH 38/48] fix: throwing errors did not compile, and with only
 ON_ERROR_THROW threw an uninitialised message

---
 src/c4/error.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 32a266d..7480b22 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -29,7 +29,7 @@
 #endif
 
 #if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
-#   include <exception>
+#   include <stdexcept>
 #endif
 
 #ifdef __clang__
@@ -78,7 +78,7 @@ void handle_error(srcloc where, const char *fmt, ...)
 {
     char buf[1024];
     size_t msglen = 0;
-    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK))
+    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK|ON_ERROR_THROW))
     {
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From 287edb87505bfa6b09e66f0d009d915f613d47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:31 +0000
Subject: [PATCH 39/48] fix: the assertion of resize() of spans missed negative
 sizes

---
 src/c4/span.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index e88d830..20c45f2 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -323,7 +323,7 @@ public:
 
     C4_ALWAYS_INLINE I capacity() const noexcept { return m_size; }
 
-    C4_ALWAYS_INLINE void resize(I sz) C4_NOEXCEPT_A { C4_ASSERT(sz <= m_size); m_size = sz; }
+    C4_ALWAYS_INLINE void resize(I sz) C4_NOEXCEPT_A { C4_ASSERT(sz >= 0 && sz <= m_size); m_size = sz; }
     C4_ALWAYS_INLINE void rtrim (I n ) C4_NOEXCEPT_A { C4_ASSERT(n >= 0 && n < m_size); m_size -= n; }
     C4_ALWAYS_INLINE void ltrim (I n ) C4_NOEXCEPT_A { C4_ASSERT(n >= 0 && n < m_size); m_size -= n; m_ptr += n; }
 
@@ -415,7 +415,7 @@ public:
 
     C4_ALWAYS_INLINE I capacity() const noexcept { return m_capacity; }
 
-    C4_ALWAYS_INLINE void resize(I sz) C4_NOEXCEPT_A { C4_ASSERT(sz <= m_capacity); m_size = sz; }
+    C4_ALWAYS_INLINE void resize(I sz) C4_NOEXCEPT_A { C4_ASSERT(sz >= 0 && sz <= m_capacity); m_size = sz; }
     C4_ALWAYS_INLINE void rtrim (I n ) C4_NOEXCEPT_A { C4_ASSERT(n >= 0 && n < m_size); m_size -= n; }
     C4_ALWAYS_INLINE void ltrim (I n ) C4_NOEXCEPT_A { C4_ASSERT(n >= 0 && n < m_size); m_size -= n; m_ptr += n; m_capacity -= n; }
 
@@ -494,7 +494,7 @@ public:
     C4_ALWAYS_INLINE I offset() const noexcept { return m_offset; }
     C4_ALWAYS_INLINE I capacity() const noexcept { return m_capacity; }
 
-    C4_ALWAYS_INLINE void resize(I sz) C4_NOEXCEPT_A { C4_ASSERT(sz <= m_capacity); m_size = sz; }
+    C4_ALWAYS_INLINE void resize(I sz) C4_NOEXCEPT_A { C4_ASSERT(sz >= 0 && sz <= m_capacity); m_size = sz; }
     C4_ALWAYS_INLINE void rtrim (I n ) C4_NOEXCEPT_A { C4_ASSERT(n >= 0 && n < m_size); m_size -= n; }
     C4_ALWAYS_INLINE void ltrim (I n ) C4_NOEXCEPT_A { C4_ASSERT(n >= 0 && n < m_size); m_size -= n; m_ptr += n; m_offset += n; m_capacity -= n; }
 
-- 
2.43.0


From 98e8d496adbc8ee835389946a39262d3123ec0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:32 +0000
Subject: [PATCH 40/48] fix: data race on the first calls to
 is_debugger_attached()

---
 src/c4/error.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 7480b22..f761d2a 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -148,11 +148,9 @@ void handle_warning(srcloc where, const char *fmt, ...)
 bool is_debugger_attached()
 {
 #if defined(C4_UNIX) || defined(C4_LINUX)
-    static bool first_call = true;
-    static bool first_call_result = false;
-    if(first_call)
-    {
-        first_call = false;
+    // the initialization of a local static is thread safe
+    static const bool first_call_result = []() -> bool {
+        bool result = false;
         C4_SUPPRESS_WARNING_GCC_PUSH
         #if defined(__GNUC__) && __GNUC__ > 9
         C4_SUPPRESS_WARNING_GCC("-Wanalyzer-fd-leak")
@@ -161,11 +159,7 @@ bool is_debugger_attached()
         //! (this answer: http://stackoverflow.com/a/24969863/3968589 )
         char buf[1024] = "";
         int status_fd = open("/proc/self/status", O_RDONLY);
-        if (status_fd == -1)
-        {
-            return 0;
-        }
-        else
+        if (status_fd != -1)
         {
             ssize_t num_read = ::read(status_fd, buf, sizeof(buf));
             if (num_read > 0)
@@ -179,13 +173,14 @@ bool is_debugger_attached()
                 tracer_pid = strstr(buf, TracerPid);
                 if (tracer_pid)
                 {
-                    first_call_result = !!::atoi(tracer_pid + sizeof(TracerPid) - 1);
+                    result = !!::atoi(tracer_pid + sizeof(TracerPid) - 1);
                 }
             }
             close(status_fd);
         }
         C4_SUPPRESS_WARNING_GCC_POP
-    }
+        return result;
+    }();
     return first_call_result;
 #elif defined(C4_PS4)
     return (sceDbgIsDebuggerAttached() != 0);
-- 
2.43.0


From 68d076433041fa7099708cf1f09d3480b1c6e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:35 +0000
Subject: [PATCH 41/48] fix: an empty inplace_function became non-empty when
 converted to another capacity

---
 src/c4/ext/sg14/inplace_function.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 8d7a5b4..b1c5a1b 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -127,6 +127,13 @@ template<typename R, typename... Args> struct vtable
     ~vtable() = default;
 };
 
+// one empty vtable per signature, shared by all capacities:
+// an empty function must remain empty when converted to another capacity
+template<typename R, typename... Args> struct empty_vtable
+{
+    static const constexpr vtable<R, Args...> value{};
+};
+
 template<size_t DstCap, size_t DstAlign, size_t SrcCap, size_t SrcAlign>
 struct is_valid_inplace_dst : std::true_type
 {
@@ -156,7 +163,7 @@ template<
 >
 class inplace_function<R(Args...), Capacity, Alignment>
 {
-    static const constexpr inplace_function_detail::vtable<R, Args...> empty_vtable{};
+    static const constexpr inplace_function_detail::vtable<R, Args...>& empty_vtable = inplace_function_detail::empty_vtable<R, Args...>::value;
 public:
     using capacity = std::integral_constant<size_t, Capacity>;
     using alignment = std::integral_constant<size_t, Alignment>;
-- 
2.43.0


From 4a87cbcbf440832a8a9591e655da57440acaa7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:35 +0000
Subject: [PATCH 42/48] fix: inplace_function assignment destroyed a callable
 that was never constructed when the copy throws

---
 src/c4/ext/sg14/inplace_function.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index b1c5a1b..4d79ad7 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -246,11 +246,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->copy_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // in case of throw
+            other.vtable_ptr_->copy_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
@@ -261,11 +262,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->move_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // in case of throw
+            other.vtable_ptr_->move_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
-- 
2.43.0


From 28954485aeb9567c5f88331b26af217b41f8fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:35 +0000
Subject: [PATCH 43/48] fix: inplace_function evaluated noexcept for a
 different call than the one made, rejecting move-only arguments

---
 src/c4/ext/sg14/inplace_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 4d79ad7..eaeb568 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -99,7 +99,7 @@ template<typename R, typename... Args> struct vtable
 
     template<typename C> explicit constexpr vtable(wrapper<C>) noexcept :
         invoke_ptr{ [](storage_ptr_t storage_ptr, Args&&... args)
-            noexcept(noexcept(std::declval<C>()(args...))) -> R
+            noexcept(noexcept(std::declval<C&>()(std::forward<Args>(args)...))) -> R
             { return (*static_cast<C*>(storage_ptr))(
                 std::forward<Args>(args)...
             ); }
-- 
2.43.0


From 4f859aca84a316905f8dcaceda03976352a7be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:34 +0000
Subject: [PATCH 44/48] fix: hexadecimal reals were read as 0 when
 std::from_chars() is used

---
 src/c4/charconv.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index f153252..449a130 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1966,7 +1966,7 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 #endif // C4CORE_HAVE_STD_TOCHARS
 
 
-#if C4CORE_HAVE_FAST_FLOAT
+#if C4CORE_HAVE_FAST_FLOAT || C4CORE_HAVE_STD_FROMCHARS
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
@@ -2116,14 +2116,19 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
 {
     C4_ASSERT(str.len > 0);
     C4_ASSERT(str.triml(" \r\t\n").len == str.len);
-#if C4CORE_HAVE_FAST_FLOAT
-    // fastfloat cannot parse hexadecimal floats
+#if C4CORE_HAVE_FAST_FLOAT || C4CORE_HAVE_STD_FROMCHARS
+    // neither fastfloat nor std::from_chars() parse prefixed hexadecimal floats
     bool isneg = (str.str[0] == '-');
     csubstr rem = str.sub(isneg || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
     {
+#if C4CORE_HAVE_FAST_FLOAT
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
+#else
+        std::from_chars_result result;
+        result = std::from_chars(str.str, str.str + str.len, *v);
+#endif
         return result.ec == std::errc();
     }
     else if(detail::scan_rhex(rem.sub(2), v))
@@ -2132,10 +2137,6 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
         return true;
     }
     return false;
-#elif C4CORE_HAVE_STD_FROMCHARS
-    std::from_chars_result result;
-    result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
@@ -2178,14 +2179,19 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
 {
     C4_ASSERT(str.len > 0);
     C4_ASSERT(str.triml(" \r\t\n").len == str.len);
-#if C4CORE_HAVE_FAST_FLOAT
-    // fastfloat cannot parse hexadecimal floats
+#if C4CORE_HAVE_FAST_FLOAT || C4CORE_HAVE_STD_FROMCHARS
+    // neither fastfloat nor std::from_chars() parse prefixed hexadecimal floats
     bool isneg = (str.str[0] == '-');
     csubstr rem = str.sub(isneg || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
     {
+#if C4CORE_HAVE_FAST_FLOAT
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
+#else
+        std::from_chars_result result;
+        result = std::from_chars(str.str, str.str + str.len, *v);
+#endif
         return result.ec == std::errc();
     }
     else if(detail::scan_rhex(rem.sub(2), v))
@@ -2194,10 +2200,6 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
         return true;
     }
     return false;
-#elif C4CORE_HAVE_STD_FROMCHARS
-    std::from_chars_result result;
-    result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
-- 
2.43.0


From 13604046ba0b48feb5e547084857c4e270f47ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:23 +0000
Subject: [PATCH 45/48] fix: reading reals with sscanf() ran past the end of
 the string view

---
 src/c4/charconv.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 449a130..37da3a8 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -100,6 +100,10 @@
 #if !C4CORE_HAVE_STD_FROMCHARS
 #include <cstdio>
 #endif
+#if (!C4CORE_HAVE_STD_FROMCHARS) && (!C4CORE_HAVE_FAST_FLOAT)
+#include <memory>
+#include <new>
+#endif
 
 
 #if defined(_MSC_VER)
@@ -1909,9 +1913,25 @@ inline size_t scan_one(csubstr str, const char *type_fmt, T *v)
     /* no nasty surprises, please! */
     C4_ASSERT(iret >= 0 && size_t(iret) < C4_COUNTOF(fmt));
 
+    /* the field size limits the characters that are converted, but
+     * sscanf() still looks for the terminating null. So give it a
+     * terminated copy. */
+    char local[512];
+    std::unique_ptr<char[]> heap;
+    char *copy = local;
+    if(C4_UNLIKELY(str.len >= sizeof(local)))
+    {
+        heap.reset(new (std::nothrow) char[str.len + 1]);
+        if(C4_UNLIKELY(!heap))
+            return csubstr::npos;
+        copy = heap.get();
+    }
+    memcpy(copy, str.str, str.len);
+    copy[str.len] = '\0';
+
     /* now we scan with confidence that the span length is respected */
     int num_chars;
-    iret = std::sscanf(str.str, fmt, v, &num_chars);
+    iret = std::sscanf(copy, fmt, v, &num_chars);
     /* scanf returns the number of successful conversions */
     if(iret != 1) return csubstr::npos;
     C4_ASSERT(num_chars >= 0);
-- 
2.43.0


From c89ff99fe4e6cf73542455d8ed0b3177a8e3e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:44 +0000
Subject: [PATCH 46/48] fix: ordering a view longer than 2^31 characters
 against a single character

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 6c1aeac..50dfc07 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -229,7 +229,7 @@ public:
     {
         C4_XASSERT((str != nullptr) || len == 0);
         if(C4_LIKELY(str != nullptr && len > 0))
-            return (*str != c) ? *str - c : (static_cast<int>(len) - 1);
+            return (*str != c) ? *str - c : static_cast<int>(len > 1);
         else
             return -1;
     }
-- 
2.43.0


From dc6c054ca9a9c08c0675321e64fd23169b198311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:44 +0000
Subject: [PATCH 47/48] fix: itoa() and utoa() with 2^32 or more digits
 reported a truncated size

---
 src/c4/charconv.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 37da3a8..edd7c72 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1240,18 +1240,18 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
                 buf.str[pos] = '-';
             ++pos;
         }
-        unsigned total_digits = 0;
+        size_t total_digits = 0;
         switch(radix)
         {
         case T(10):
             total_digits = digits_dec(v);
-            total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
                 write_dec(buf.sub(pos), v, num_digits);
             break;
         case T(16):
             total_digits = digits_hex(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1261,7 +1261,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(2):
             total_digits = digits_bin(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1271,7 +1271,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(8):
             total_digits = digits_oct(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 buf.str[pos + 0] = '0';
@@ -1380,18 +1380,18 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
 {
     C4_STATIC_ASSERT(std::is_unsigned<T>::value);
     C4_ASSERT(radix == 10 || radix == 16 || radix == 2 || radix == 8);
-    unsigned total_digits = 0;
+    size_t total_digits = 0;
     switch(radix)
     {
     case T(10):
         total_digits = digits_dec(v);
-        total_digits = (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
             write_dec(buf, v, num_digits);
         break;
     case T(16):
         total_digits = digits_hex(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1401,7 +1401,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(2):
         total_digits = digits_bin(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1411,7 +1411,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(8):
         total_digits = digits_oct(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
-- 
2.43.0


From c80edab1b964214068d51af37fe69d72b984dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:42 +0000
Subject: [PATCH 48/48] fix: hexadecimal reals with many digits or a far
 exponent were read as infinity, zero or a wrapped exponent

---
 src/c4/charconv.hpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index edd7c72..5610044 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1987,6 +1987,17 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 
 
 #if C4CORE_HAVE_FAST_FLOAT || C4CORE_HAVE_STD_FROMCHARS
+template<class T>
+C4_ALWAYS_INLINE T scale_rhex(T val, int64_t powval, int64_t shift) noexcept
+{
+    // the sum cannot overflow: shift is bounded by the size of the string
+    constexpr const int64_t maxpow = INT64_C(1) << 62;
+    powval = powval > maxpow ? maxpow : powval < -maxpow ? -maxpow : powval;
+    powval += shift;
+    powval = powval > 100000 ? 100000 : powval < -100000 ? -100000 : powval;
+    return std::ldexp(val, static_cast<int>(powval));
+}
+
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
@@ -1994,11 +2005,14 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         return false;
     *val = T(0);
     size_t pos = 0;
+    int64_t shift = 0; // power of two of the digits which were not accumulated
     // integer part
     for( ; pos < s.len; ++pos)
     {
         const char c = s.str[pos];
-        if(c >= '0' && c <= '9')
+        if(*val >= T(1e30) && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')))
+            shift += 4; // too small to change the digits of the value; prevent overflow
+        else if(c >= '0' && c <= '9')
             *val = *val * T(16) + T(c - '0');
         else if(c >= 'a' && c <= 'f')
             *val = *val * T(16) + T(10 + (c - 'a'));
@@ -2025,7 +2039,12 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         for(T digit = T(0.0625); pos < s.len; ++pos, digit /= T(16))
         {
             const char c = s.str[pos];
-            if(c >= '0' && c <= '9')
+            if(c == '0' && *val == T(0))
+            {
+                shift -= 4; // leading zeros must not cause underflow
+                digit *= T(16);
+            }
+            else if(c >= '0' && c <= '9')
                 *val += digit * T(c - '0');
             else if(c >= 'a' && c <= 'f')
                 *val += digit * T(10 + (c - 'a'));
@@ -2042,6 +2061,7 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             }
         }
     }
+    *val = scale_rhex(*val, 0, shift);
     return true;
 power:
     if(C4_LIKELY(pos < s.len))
@@ -2050,10 +2070,12 @@ power:
             ++pos;
         if(C4_LIKELY(pos < s.len))
         {
-            int32_t powval = {};
+            int64_t powval = {};
             if(C4_LIKELY(atoi(s.sub(pos), &powval)))
             {
-                *val = std::ldexp(*val, powval); // the exponent is a power of two
+                if(C4_UNLIKELY(overflows<int64_t>(s.sub(pos))))
+                    powval = s.str[pos] == '-' ? INT64_MIN : INT64_MAX;
+                *val = scale_rhex(*val, powval, shift); // the exponent is a power of two
                 return true;
             }
         }
-- 
2.43.0

