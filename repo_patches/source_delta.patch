From 939478df8c9d153b90f7ce341b7e95019d3b9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:35 +0000
Subject: [PATCH 01/21] fix: is_code_point_valid no longer rejects
 supplementary code points whose low 16 bits look like a surrogate

---
 api/src/cmp/unicode/examiners.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index c42d066..09d0af6 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -90,7 +90,9 @@ is_code_point_valid (
 noexcept
 {
     return code_point <= maximum_code_point
-        && !is_surrogate(code_point);
+        && (code_point > maximum_bmp_code_point
+                || !is_surrogate(static_cast<char16_t>(code_point))
+        );
 } // function -----------------------------------------------------------------
 
 constexpr
-- 
2.43.0


From decf63f73d94c81afd686b806d7180e697c6bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:35 +0000
Subject: [PATCH 02/21] fix: advancing over a truncated UTF-8 or UTF-16
 sequence no longer reads past the end of the string

---
 api/src/cmp/unicode/by_code_point.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index c5c11d9..d909744 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -466,7 +466,7 @@ const
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -493,7 +493,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -841,7 +841,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -862,7 +862,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
     std::u16string_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -1431,7 +1431,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1452,7 +1452,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
     std::wstring_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
-- 
2.43.0


From 8800b76fdb89e885525e01472dbc315474179c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:57 +0000
Subject: [PATCH 03/21] fix: UTF-16 iteration steps over whole surrogate pairs,
 and backwards offsets move backwards

---
 api/src/cmp/unicode/by_code_point.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index d909744..22ce570 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -869,7 +869,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -915,7 +915,7 @@ by_code_point<char16_t>::const_iterator::retreat (
     difference_type offset
 ) {
     while (offset-- > 0) {
-        advance();
+        retreat();
     }
 } // function -----------------------------------------------------------------
 
@@ -1459,7 +1459,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -1518,7 +1518,7 @@ by_code_point<wchar_t>::const_iterator::retreat (
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
         while (offset-- > 0) {
-            advance();
+            retreat();
         }
     } else {
         m_current_iterator -= offset;
-- 
2.43.0


From 7a588f9ccdc511e5fcc9edcb4cbd0ac2013277ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:57 +0000
Subject: [PATCH 04/21] fix: inserting an invalid code point into a UTF-16
 string throws instead of storing garbage

---
 api/src/cmp/unicode/algorithms.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index bffc917..1b31a5a 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -150,10 +150,10 @@ insert_code_point (
                        && sizeof (wchar_t) == 2
                )
     ) {
-        if (
-            !is_surrogate(code_point)
-                && code_point <= maximum_bmp_code_point
-        ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+        if (code_point <= maximum_bmp_code_point) {
             s.insert(index, 1, static_cast<char16_t>(code_point));
         } else {
             code_point -= 0x10000;
-- 
2.43.0


From 3f037605cac037aabad39a472dc74d4ebd6dcb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:58 +0000
Subject: [PATCH 05/21] fix: validate_string stops at encoded surrogates

---
 api/src/cmp/unicode/algorithms.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 1b31a5a..2035054 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -287,7 +287,7 @@ noexcept
     auto bcp_iterator{std::cbegin(bcp_range)};
     try {
         while (bcp_iterator != bcp_range_end) {
-            if (*bcp_iterator > maximum_code_point) {
+            if (!is_code_point_valid(*bcp_iterator)) {
                 return bcp_iterator;
             }
             ++bcp_iterator;
-- 
2.43.0


From c46b883c0b6a5a0542b849fe45961856fa3fd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:30 +0000
Subject: [PATCH 06/21] fix: decoding an overlong UTF-8 sequence throws
 invalid_unicode_encoding

---
 api/src/cmp/unicode/by_code_point.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 22ce570..dfeab0b 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -254,6 +254,12 @@ const
         code_point,
         m_current_iterator
     );
+    if ((sequence_length == 2 && code_point < 0x80)
+            || (sequence_length == 3 && code_point < 0x800)
+            || (sequence_length == 4 && code_point < 0x10000)
+    ) {
+        throw invalid_unicode_encoding{};
+    }
     return code_point;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 404d4b83117e80cdb249b2fa0a2199cdbf43757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:09 +0000
Subject: [PATCH 07/21] fix: formatting the most negative integer of a type
 terminates and shows its digits

---
 api/src/cmp/unicode/formatters.ipp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a862e72..a5f646e 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -33,22 +33,24 @@ number_formatter::format_integer (
     } else if (format.get_sign_status() == sign_status::always_show) {
         sign_character = '+';
     }
-    if constexpr (std::is_signed_v<Input>) {
-        input = std::abs(input);
+    // Unsigned, since the most negative value has no positive counterpart.
+    unsigned long long magnitude{static_cast<unsigned long long>(input)};
+    if (input < 0) {
+        magnitude = 0 - magnitude;
     }
-    while (input != 0) {
-        char character{static_cast<char>(input % format_radix)};
+    while (magnitude != 0) {
+        char character{static_cast<char>(magnitude % format_radix)};
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
         prepend_code_point(output, character);
-        input /= format_radix;
+        magnitude /= format_radix;
         ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
-            if (input != 0) {
+            if (magnitude != 0) {
                 switch (format.get_thousands_separator()) {
                     case thousands_separator::comma:
                         prepend_code_point(output, ',');
-- 
2.43.0


From 8134520fa2952d85f2e0837df2aad440ff288733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:40 +0000
Subject: [PATCH 08/21] fix: parsing the most negative integer of a type no
 longer overflows

---
 api/src/cmp/unicode/parsers.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 7c04653..544ef86 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -36,16 +36,17 @@ number_parser::parse_integer (
     const auto format_sign_status{format.get_sign_status()};
 
     int current_digit{get_next_digit(*bcp_iterator, format_radix)};
-    Output output{static_cast<Output>(current_digit)};
+    // Unsigned, since intermediate values may leave the range of Output.
+    unsigned long long output{static_cast<unsigned long long>(current_digit)};
 
     ++bcp_iterator;
     if (bcp_iterator == bcp_range.crend()) {
-        return output;
+        return static_cast<Output>(output);
     }
 
     bool sign_found{false};
     bool negate{false};
-    Output power{1};
+    unsigned long long power{1};
     unsigned int digits_counted{1};
     char32_t current_character;
 
@@ -95,7 +96,7 @@ number_parser::parse_integer (
     }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
-            output = -output;
+            output = 0 - output;
         } else {
             throw parse_failed{
                 "The input string contains a negative "
@@ -104,7 +105,7 @@ number_parser::parse_integer (
             };
         }
     }
-    return output;
+    return static_cast<Output>(output);
 } // function -----------------------------------------------------------------
 
 template <
-- 
2.43.0


From 12b3446dfb30c2cc9be48aac878dbcc11e73e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 09/21] fix: parse_integer rejects misplaced signs and leading
 thousands separators

---
 api/src/cmp/unicode/parsers.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 544ef86..73396a5 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -45,6 +45,7 @@ number_parser::parse_integer (
     }
 
     bool sign_found{false};
+    bool digit_expected{false};
     bool negate{false};
     unsigned long long power{1};
     unsigned int digits_counted{1};
@@ -52,6 +53,9 @@ number_parser::parse_integer (
 
     for (; bcp_iterator != bcp_range.crend(); ++bcp_iterator) {
         current_character = *bcp_iterator;
+        if (sign_found && !is_sign_character(current_character)) {
+            report_non_digit_character();
+        }
         if (
             digits_counted == 3
                 && format_thousands_separator != thousands_separator::none
@@ -71,6 +75,7 @@ number_parser::parse_integer (
                 current_character,
                 format_thousands_separator
             );
+            digit_expected = true;
             continue;
         }
         if (
@@ -93,6 +98,10 @@ number_parser::parse_integer (
             current_digit,
             digits_counted
         );
+        digit_expected = false;
+    }
+    if (digit_expected) {
+        report_non_digit_character();
     }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
-- 
2.43.0


From ca1e8093c8a38c5c3a72cd387a5833d2684d7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:51 +0000
Subject: [PATCH 10/21] fix: set_radix rejects a radix below 2 or above 36 like
 the constructors do

---
 api/include/cmp/unicode/formats.hpp | 14 ++++++++++----
 api/src/cmp/unicode/formats.cpp     | 14 ++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/unicode/formats.hpp b/api/include/cmp/unicode/formats.hpp
index e69584d..34ff46d 100644
--- a/api/include/cmp/unicode/formats.hpp
+++ b/api/include/cmp/unicode/formats.hpp
@@ -430,13 +430,16 @@ public:
         Parameters:
             new_radix:
                 The new radix of <#this/> integer format.
+
+        Exceptions:
+            <#type>invalid_radix</#type>:
+                The new radix is less than 2 or greater than 36.
     */
     CMP_CONDITIONAL_INLINE
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
@@ -643,13 +646,16 @@ public:
         Parameters:
             new_radix:
                 The new radix of <#this/> floating-point format.
+
+        Exceptions:
+            <#type>invalid_radix</#type>:
+                The new radix is less than 2 or greater than 36.
     */
     CMP_CONDITIONAL_INLINE
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
diff --git a/api/src/cmp/unicode/formats.cpp b/api/src/cmp/unicode/formats.cpp
index f9db33a..7aab38f 100644
--- a/api/src/cmp/unicode/formats.cpp
+++ b/api/src/cmp/unicode/formats.cpp
@@ -109,9 +109,10 @@ const noexcept
 void
 integer_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
@@ -194,9 +195,10 @@ const noexcept
 void
 floating_point_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 7fbf7c8d409f537cc5f9e92f61fa8f59174ad56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:57 +0000
Subject: [PATCH 11/21] fix: a short read of a file continues where it stopped
 instead of overwriting the bytes read

---
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index e2d66de..6137015 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -225,7 +225,11 @@ noexcept
     ssize_t bytes_read_last;
     ssize_t bytes_read_total{0};
     while (true) {
-        bytes_read_last = ::read(m_file_descriptor, data, byte_count);
+        bytes_read_last = ::read(
+            m_file_descriptor,
+            data + bytes_read_total,
+            byte_count - bytes_read_total
+        );
         if (bytes_read_last == -1 || bytes_read_last == 0) {
             break;
         }
-- 
2.43.0


From 3c1f3aeaed403fd30ef9b01b83c898deeec3f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:57 +0000
Subject: [PATCH 12/21] fix: a short write to a file or the standard output is
 continued instead of losing the rest

---
 .../cmp/io/impl/unix_like/unix_like_file.cpp   | 18 ++++++++++++++----
 .../cmp/io/impl/unix_like/unix_like_uout.cpp   | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 6137015..1de2338 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -249,11 +249,21 @@ file::write_block (
 )
 noexcept
 {
-    ssize_t native_bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (native_bytes_written == -1) {
-        return 0;
+    size_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        ssize_t native_bytes_written{
+            ::write(
+                m_file_descriptor,
+                data + bytes_written_total,
+                byte_count - bytes_written_total
+            )
+        };
+        if (native_bytes_written == -1 || native_bytes_written == 0) {
+            break;
+        }
+        bytes_written_total += native_bytes_written;
     }
-    return native_bytes_written;
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index e7143e7..9df587b 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -36,11 +36,21 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    ssize_t bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (bytes_written == -1) {
-        return 0;
+    std::size_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        ssize_t bytes_written{
+            ::write(
+                m_file_descriptor,
+                data + bytes_written_total,
+                byte_count - bytes_written_total
+            )
+        };
+        if (bytes_written == -1 || bytes_written == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written;
     }
-    return bytes_written;
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 #if CMP_CONFIG_HEADER_ONLY == false
-- 
2.43.0


From 85c29834aed5e2e3f11b2573212491e050e72ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:57 +0000
Subject: [PATCH 13/21] fix: a failed read of the standard input reads no bytes
 instead of SIZE_MAX

---
 api/src/cmp/io/impl/unix_like/unix_like_uin.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 10e8db6..354b8e6 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -36,7 +36,11 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    return ::read(STDIN_FILENO, data, byte_count);
+    ssize_t bytes_read{::read(STDIN_FILENO, data, byte_count)};
+    if (bytes_read == -1) {
+        return 0;
+    }
+    return bytes_read;
 } // function -----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::stdin_stream
-- 
2.43.0


From d4b5410bb6beb86a5a35ca0e26926679e7762742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:53 +0000
Subject: [PATCH 14/21] fix: a read larger than the buffer continues after the
 buffered bytes instead of repeating them

---
 api/src/cmp/io/impl/ctr_essence.ipp              | 2 +-
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 2 +-
 api/src/cmp/io/impl/windows/windows_file.cpp     | 2 +-
 api/src/cmp/io/input_resource.cpp                | 1 +
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index a823097..d1a42b5 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -119,7 +119,7 @@ ctr_essence<Container>::read_raw (
 
     const auto& content_ref{*get_const_content_ptr()};
 
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         resource.go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 1de2338..27e6f06 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -138,7 +138,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9025917..9f0c65a 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -165,7 +165,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index d1bdd87..a7d40e4 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -125,6 +125,7 @@ input_resource::read_buffered (
                 byte_count,
                 read_request::lean_retrieval
             );
+            m_buffer.set_read_dirty(true);
             return bytes_read;
         } else {
             /*
-- 
2.43.0


From 30c6e3e87764358582af4e11da2a199e603862be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:58 +0000
Subject: [PATCH 15/21] fix: buffered container resources of multi-byte
 elements keep their position when the buffer is filled

---
 api/src/cmp/io/impl/ctr_essence.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index d1a42b5..e2f18d6 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -120,7 +120,8 @@ ctr_essence<Container>::read_raw (
     const auto& content_ref{*get_const_content_ptr()};
 
     if (m_last_fill_amount > 0) {
-        resource.go_forward(m_last_fill_amount);
+        m_position += m_last_fill_amount;
+        m_last_fill_amount = 0;
     }
 
     /*
@@ -163,7 +164,7 @@ ctr_essence<Container>::read_raw (
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        resource.go_back(static_cast<std::int64_t>(byte_count));
+        m_position -= byte_count;
         m_last_fill_amount = byte_count;
     }
 
-- 
2.43.0


From f52f271fc34d484fc4a389b5c15633ef16e44b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:38 +0000
Subject: [PATCH 16/21] fix: seeking relative to the current position counts
 the bytes taken from the buffer, and go_back and go_forward drop the buffer

---
 api/include/cmp/io/impl/ctr_essence.hpp                |  3 ++-
 api/src/cmp/io/impl/ctr_essence.ipp                    |  6 ++++--
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp       | 10 ++++++++--
 api/src/cmp/io/impl/windows/windows_file.cpp           | 10 ++++++++--
 api/src/cmp/io/opaque_container_input_resource.ipp     |  3 ++-
 api/src/cmp/io/opaque_container_io_resource.ipp        |  3 ++-
 api/src/cmp/io/opaque_container_output_resource.ipp    |  3 ++-
 api/src/cmp/io/seekable_transfer_resource.ipp          |  4 ++--
 .../cmp/io/transparent_container_input_resource.ipp    |  3 ++-
 api/src/cmp/io/transparent_container_io_resource.ipp   |  3 ++-
 .../cmp/io/transparent_container_output_resource.ipp   |  3 ++-
 11 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 2d8b6f1..d4f005a 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -61,7 +61,8 @@ protected:
     void
     set_position_raw (
         std::int64_t new_position,
-        position_reference pr
+        position_reference pr,
+        const io_buffer& buffer
     )
     noexcept;
 
diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index e2f18d6..e85dc23 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -84,7 +84,8 @@ template <
 void
 ctr_essence<Container>::set_position_raw (
     std::int64_t new_position,
-    position_reference pr
+    position_reference pr,
+    const io_buffer& buffer
 )
 noexcept
 {
@@ -95,7 +96,8 @@ noexcept
             m_position = new_position * sizeof (element_type);
             break;
         case position_reference::current:
-            m_position += new_position * sizeof (element_type);
+            m_position += buffer.get_position()
+                + new_position * sizeof (element_type);
             break;
         case position_reference::end:
             m_position = (std::size(*get_const_content_ptr()) - new_position)
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 27e6f06..84fd24c 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -119,6 +119,7 @@ noexcept
             break;
         case position_reference::current:
             unix_like_position_reference = SEEK_CUR;
+            new_position += m_buffer.get_position();
             break;
         case position_reference::end:
             unix_like_position_reference = SEEK_END;
@@ -139,7 +140,8 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        ::lseek(m_file_descriptor, m_last_fill_amount, SEEK_CUR);
+        m_last_fill_amount = 0;
     }
 
     std::size_t total_result;
@@ -172,7 +174,11 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        ::lseek(
+            m_file_descriptor,
+            -static_cast<position_type>(total_result),
+            SEEK_CUR
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9f0c65a..a93ffed 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -141,6 +141,7 @@ noexcept
             break;
         case position_reference::current:
             windows_position_reference = FILE_CURRENT;
+            distance_to_move.QuadPart += m_buffer.get_position();
             break;
         case position_reference::end:
             windows_position_reference = FILE_END;
@@ -166,7 +167,10 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        LARGE_INTEGER distance_to_move;
+        distance_to_move.QuadPart = m_last_fill_amount;
+        SetFilePointerEx(m_handle, distance_to_move, nullptr, FILE_CURRENT);
+        m_last_fill_amount = 0;
     }
 
     std::size_t total_result;
@@ -199,7 +203,9 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        LARGE_INTEGER distance_to_move;
+        distance_to_move.QuadPart = -static_cast<position_type>(total_result);
+        SetFilePointerEx(m_handle, distance_to_move, nullptr, FILE_CURRENT);
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 34189b7..aa5ab52 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -102,7 +102,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index d6c6e7c..42ca590 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -126,7 +126,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_output_resource.ipp b/api/src/cmp/io/opaque_container_output_resource.ipp
index aecbe92..9841553 100644
--- a/api/src/cmp/io/opaque_container_output_resource.ipp
+++ b/api/src/cmp/io/opaque_container_output_resource.ipp
@@ -112,7 +112,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/seekable_transfer_resource.ipp b/api/src/cmp/io/seekable_transfer_resource.ipp
index c29053d..7f6b85e 100644
--- a/api/src/cmp/io/seekable_transfer_resource.ipp
+++ b/api/src/cmp/io/seekable_transfer_resource.ipp
@@ -30,7 +30,7 @@ seekable_transfer_resource<Position>::go_back (
 )
 noexcept
 {
-    set_position_raw(-count, position_reference::current);
+    set_position(-count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 template <
@@ -42,7 +42,7 @@ seekable_transfer_resource<Position>::go_forward (
 )
 noexcept
 {
-    set_position_raw(count, position_reference::current);
+    set_position(count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/transparent_container_input_resource.ipp b/api/src/cmp/io/transparent_container_input_resource.ipp
index 78dad08..1b67ebb 100644
--- a/api/src/cmp/io/transparent_container_input_resource.ipp
+++ b/api/src/cmp/io/transparent_container_input_resource.ipp
@@ -71,7 +71,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_io_resource.ipp b/api/src/cmp/io/transparent_container_io_resource.ipp
index 2576e8d..ffc8d9b 100644
--- a/api/src/cmp/io/transparent_container_io_resource.ipp
+++ b/api/src/cmp/io/transparent_container_io_resource.ipp
@@ -88,7 +88,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_output_resource.ipp b/api/src/cmp/io/transparent_container_output_resource.ipp
index 91ef435..384b2ee 100644
--- a/api/src/cmp/io/transparent_container_output_resource.ipp
+++ b/api/src/cmp/io/transparent_container_output_resource.ipp
@@ -81,7 +81,8 @@ noexcept
 {
     essence_type::set_position_raw(
         new_position,
-        pr
+        pr,
+        m_buffer
     );
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 628bfae9562e9d0ec747940b5f156d6257926b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:55 +0000
Subject: [PATCH 17/21] fix: container resources never access memory outside
 their content and grow by exactly what is written

---
 api/src/cmp/io/impl/ctr_essence.ipp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index e85dc23..7542767 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -104,6 +104,9 @@ noexcept
                 * sizeof (element_type);
             break;
     }
+    if (m_position < 0) {
+        m_position = 0;
+    }
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
@@ -133,6 +136,13 @@ ctr_essence<Container>::read_raw (
         std::size(content_ref) * sizeof (element_type)
     };
 
+    /*
+        There is nothing to read at or past the end of the content.
+    */
+    if (m_position >= content_size) {
+        return 0;
+    }
+
     /*
         We check if the position would spill over the end of the content
         if we actually went ahead and read the requested number of bytes.
@@ -202,8 +212,8 @@ ctr_essence<Container>::write_raw (
             than there are bytes available. So we just make room.
         */
         content_ref.resize(
-            std::size(content_ref)
-                + (byte_count / sizeof (element_type))
+            (m_position + byte_count + sizeof (element_type) - 1)
+                / sizeof (element_type)
         );
     }
 
-- 
2.43.0


From 8e7cd706c28f8ae7ddad697e9b4ec5f92c371e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:36 +0000
Subject: [PATCH 18/21] fix: reopening a file forgets what was buffered from
 the previous one and remembers the new path

---
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 3 +++
 api/src/cmp/io/impl/windows/windows_file.cpp     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 84fd24c..17609cb 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -87,6 +87,7 @@ noexcept
         flags |= O_CREAT;
     }
     m_file_descriptor = ::open(file_path.string().c_str(), flags, 0777);
+    m_file_path = file_path;
     m_access_mode = mode;
     return is_open();
 } // function -----------------------------------------------------------------
@@ -98,6 +99,8 @@ noexcept
     this->flush();
     ::close(m_file_descriptor);
     m_file_descriptor = -1;
+    m_buffer.set_read_dirty(true);
+    m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index a93ffed..03701f9 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -106,6 +106,7 @@ noexcept
         FILE_ATTRIBUTE_NORMAL,
         nullptr
     );
+    m_file_path = file_path;
     m_access_mode = mode;
     return is_open();
 } // function -----------------------------------------------------------------
@@ -117,6 +118,8 @@ noexcept
     this->flush();
     CloseHandle(m_handle);
     m_handle = INVALID_HANDLE_VALUE;
+    m_buffer.set_read_dirty(true);
+    m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
-- 
2.43.0


From cc4409109a7653ca46cb64ea12a927fb09851688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:33 +0000
Subject: [PATCH 19/21] fix: reading an overlong UTF-8 sequence from a text
 stream throws invalid_unicode_encoding

---
 api/src/cmp/io/text_input_stream.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 59a74da..3a20d89 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -231,6 +231,12 @@ text_input_stream<InputResource>::read_utf8_code_point ()
     char32_t result;
     int sequence_length{impl::initialize_utf8_sequence(code_unit, result)};
     result = finish_utf8_sequence(sequence_length, result);
+    if ((sequence_length == 2 && result < 0x80)
+            || (sequence_length == 3 && result < 0x800)
+            || (sequence_length == 4 && result < 0x10000)
+    ) {
+        throw invalid_unicode_encoding{};
+    }
     return result;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From c55e7d3d634a0f54a612db1f7765d2e47983c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:33 +0000
Subject: [PATCH 20/21] fix: read_bom keeps the high bytes of the first code
 point when there is no byte order mark

---
 api/src/cmp/io/text_input_stream.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 3a20d89..1ada061 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -328,11 +328,11 @@ text_input_stream<InputResource>::read_utf16_bom ()
         char16_t code_unit;
         if (this->get_endianness() == std::endian::big) {
             code_unit
-                = static_cast<int>(first_byte << 8)
+                = static_cast<int>(first_byte) << 8
                     | static_cast<int>(second_byte);
         } else {
             code_unit
-                = static_cast<int>(second_byte << 8)
+                = static_cast<int>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         char32_t result;
@@ -386,15 +386,15 @@ text_input_stream<InputResource>::read_utf32_bom ()
         char32_t result;
         if (this->get_endianness() == std::endian::big) {
             result
-                = static_cast<int>(first_byte << 24)
-                    | static_cast<int>(second_byte << 16)
-                    | static_cast<int>(third_byte << 8)
+                = static_cast<int>(first_byte) << 24
+                    | static_cast<int>(second_byte) << 16
+                    | static_cast<int>(third_byte) << 8
                     | static_cast<int>(fourth_byte);
         } else {
             result
-                = static_cast<int>(fourth_byte << 24)
-                    | static_cast<int>(third_byte << 16)
-                    | static_cast<int>(second_byte << 8)
+                = static_cast<int>(fourth_byte) << 24
+                    | static_cast<int>(third_byte) << 16
+                    | static_cast<int>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         return result;
-- 
2.43.0


From bf866ec0d4637336d68001f547da65918e893773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:09 +0000
Subject: [PATCH 21/21] fix: invert_endianness of zero bytes does nothing, also
 for a null pointer

---
 api/src/cmp/io/general.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/src/cmp/io/general.cpp b/api/src/cmp/io/general.cpp
index 36f7ccb..b363a13 100644
--- a/api/src/cmp/io/general.cpp
+++ b/api/src/cmp/io/general.cpp
@@ -14,6 +14,9 @@ invert_endianness (
 )
 noexcept
 {
+    if (byte_count == 0) {
+        return;
+    }
     std::byte* begin{data};
     std::byte* end{data + byte_count - 1};
     while (begin < end) {
-- 
2.43.0

