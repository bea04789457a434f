From 0cf85c1dc408c0f1c6a49dbf14c651c72a0f0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 001/123] fix: keep raw text length in sync when a longer
 closing tag name follows

---
 src/main/cpp/lang/html.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..b4520c6 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,8 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        // The closing name is merely a prefix of some other name, so it is part of the raw text.
+        length = new_length;
     }
     return length;
 }
@@ -153,6 +153,8 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        // The closing name is merely a prefix of some other name, so it is part of the raw text.
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From 58f9d3d4714d312b1cf8b6f8cc5dccbd2ee1e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 002/123] fix: do not skip the character following a reference
 in HTML attribute values

---
 src/main/cpp/lang/html.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index b4520c6..cec796a 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -456,7 +456,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -467,6 +467,9 @@ private:
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
             }
+            else {
+                ++piece_length;
+            }
         }
         flush();
         return true;
@@ -485,7 +488,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -497,6 +500,9 @@ private:
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
             }
+            else {
+                ++piece_length;
+            }
         }
         flush();
         return true;
-- 
2.43.0


From 127aae50040dc5d2bd3aa4fc7e5908d509a42c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 003/123] fix: include the closing bracket in HTML end tags
 with whitespace

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index cec796a..7b0a5d6 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -254,7 +254,7 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
         return {};
     }
 
-    return { .length = end_pos, .name_length = name_length };
+    return { .length = end_pos + 1, .name_length = name_length };
 }
 
 namespace {
-- 
2.43.0


From 63c1dcf10d6b6bfebb58a9ad792fdc03f4cdee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 004/123] fix: keep the CSS highlighter within bounds on
 malformed UTF-8

---
 src/main/cpp/lang/css.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..67931b6 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <memory_resource>
 #include <string_view>
@@ -98,7 +99,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::min(std::size_t(utf8::sequence_length(str[0], 1)), str.length());
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +399,9 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    advance(
+                        std::min(std::size_t(utf8::sequence_length(c, 1)), remainder.length())
+                    );
                 }
                 break;
             }
-- 
2.43.0


From 222e4422393d3daf50d3bd24640e1b00057637c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 005/123] fix: keep JavaScript escapes within their string
 literal

---
 src/main/cpp/lang/js.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..c3f2665 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1284,7 +1284,9 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                // The escape must not extend past the content, e.g. in `"\u"`.
+                if (const Escape_Result esc
+                    = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From 827a7061ca8a2319f2ea247e073ba9b20634a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 006/123] fix: do not emit an empty token for an unterminated
 Markdown comment

---
 src/main/cpp/lang/markdown.cpp | 5 ++++-
 src/main/cpp/lang/rust.cpp     | 6 ++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..9402c9e 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,10 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        const std::size_t comment_length = comment.length - html_comment_prefix.length();
+        if (comment_length != 0) {
+            emit_and_advance(comment_length, Highlight_Type::comment);
+        }
         in_html_comment = true;
         return true;
     }
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..12b8a77 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -584,9 +584,8 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
+            // There may be a closing apostrophe here, such as in the invalid literal 'ab',
+            // which is not interpreted as a character literal.
         }
         else {
             const std::size_t id_length = match_identifier(remainder.substr(1));
@@ -594,7 +593,6 @@ private:
                 return false;
             }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From b0f809b5f4838ebfdc3dc2958acfaf7bf3ed0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 007/123] fix: lift the limit on the number of YAML block
 entries

---
 src/main/cpp/lang/yaml.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7297ae8..c2076d6 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
+#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -212,37 +213,39 @@ struct Highlighter : Highlighter_Base {
     /// @brief Stack of indentation levels for block structures.
     /// Used to detect when a block collection ends (de-dent).
     struct Indent_Stack {
-        static constexpr std::size_t capacity = 64;
-        std::size_t data[capacity];
-        std::size_t size = 0;
+        std::pmr::vector<std::size_t> data;
+
+        explicit Indent_Stack(std::pmr::memory_resource* const memory)
+            : data { memory }
+        {
+        }
 
         void push(std::size_t n)
         {
-            ULIGHT_ASSERT(size < capacity);
-            data[size++] = n;
+            data.push_back(n);
         }
 
         [[nodiscard]]
         std::size_t top() const
         {
-            return size == 0 ? 0 : data[size - 1];
+            return data.empty() ? 0 : data.back();
         }
 
         void pop()
         {
-            ULIGHT_ASSERT(size > 0);
-            --size;
+            ULIGHT_ASSERT(!data.empty());
+            data.pop_back();
         }
 
         [[nodiscard]]
         bool empty() const
         {
-            return size == 0;
+            return data.empty();
         }
 
         void reset()
         {
-            size = 0;
+            data.clear();
         }
     };
 
@@ -256,6 +259,7 @@ public:
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
+        , indent_stack { memory }
     {
     }
 
-- 
2.43.0


From 29365ff058ce6822397c4167914513b201d3672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 008/123] fix: keep JavaScript code within its JSX braces

---
 src/main/cpp/lang/js.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index c3f2665..fff4c30 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1178,9 +1178,18 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // The JS code within must not extend past the braces,
+        // even if e.g. a template literal within the braces is unterminated.
+        const std::u8string_view after_js = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        while (!remainder.empty()) {
             consume_js_before_closing_brace();
+            if (!remainder.empty()) {
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+            }
         }
+        remainder = after_js;
+
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
-- 
2.43.0


From 4e0f4d1152d4680cb0ad62bca6671d9df20dfdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 009/123] fix: do not emit empty tokens for empty Lua comments
 and strings

---
 src/main/cpp/lang/lua.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..8839780 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -528,6 +528,9 @@ bool highlight_lua(
 )
 {
     const auto emit = [&](std::size_t begin, std::size_t length, Highlight_Type type) {
+        if (length == 0) {
+            return;
+        }
         const bool coalesce = options.coalescing //
             && !out.empty() //
             && Highlight_Type(out.back().type) == type //
-- 
2.43.0


From 81f1e30792088f56d04455edd4cd99d1ab177c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 010/123] fix: never split a UTF-8 code point between tokens

---
 include/ulight/impl/escapes.hpp | 10 +++++++---
 src/main/cpp/lang/bash.cpp      |  4 +++-
 src/main/cpp/lang/cowel.cpp     |  6 ++++--
 src/main/cpp/lang/cpp.cpp       |  9 +++++++--
 src/main/cpp/lang/java.cpp      |  3 ++-
 src/main/cpp/lang/js.cpp        |  3 ++-
 src/main/cpp/lang/lua.cpp       |  5 +++--
 src/main/cpp/lang/nasm.cpp      |  4 +++-
 src/main/cpp/lang/tex.cpp       |  7 ++++++-
 src/main/cpp/lang/yaml.cpp      | 10 +++++++---
 10 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..c5ca4e3 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -159,12 +159,16 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
-        str = str.substr(0, min(min_length, str.length()));
         if (str.length() < min_length) {
             return { .length = str.length(), .erroneous = true };
         }
-        const bool all_hex = all_of(str, hex_digit_lambda);
-        return { .length = str.length(), .erroneous = !all_hex };
+        const bool all_hex = all_of(str.substr(0, min_length), hex_digit_lambda);
+        std::size_t length = min_length;
+        // If the code units are not digits, we may have ended up within a code point.
+        while (!all_hex && length < str.length() && (str[length] & char8_t(0xC0)) == char8_t(0x80)) {
+            ++length;
+        }
+        return { .length = length, .erroneous = !all_hex };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 7c58241..a7b2f13 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -7,6 +7,7 @@
 
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/bash.hpp"
 
@@ -319,7 +320,8 @@ private:
             advance(1);
         }
         else {
-            emit_and_advance(std::min(2uz, remainder.length()), Highlight_Type::string_escape);
+            const auto [_, length] = utf8::decode_and_length_or_replacement(remainder.substr(1));
+            emit_and_advance(1 + std::size_t(length), Highlight_Type::string_escape);
         }
     }
 
diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index b578562..a624e83 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -469,7 +469,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
             }
         }
 
@@ -553,7 +554,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
             }
         }
 
diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..b54244c 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -448,7 +448,8 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     }
 
     default: {
-        return { .length = 2,
+        const auto [_, length] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(length),
                  .type = Escape_Type::conditional,
                  .erroneous = !is_cpp_basic(str[1]) };
     }
@@ -837,7 +838,11 @@ public:
             return;
         }
         if (rem[d_char_sequence_length + 1] != u8'(') {
-            emit_and_advance(d_char_sequence_length + 2, Highlight_Type::error);
+            const auto [_, length]
+                = utf8::decode_and_length_or_replacement(rem.substr(d_char_sequence_length + 1));
+            emit_and_advance(
+                d_char_sequence_length + 1 + std::size_t(length), Highlight_Type::error
+            );
             return;
         }
         rem.remove_prefix(d_char_sequence_length + 2);
diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index fc1b436..4cf0505 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -341,7 +341,8 @@ private:
         }
         else if (!remainder.empty() && remainder[0] != u8'\'' //
                  && remainder[0] != u8'\r' && remainder[0] != u8'\n') {
-            emit_and_advance(1, Highlight_Type::string);
+            const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+            emit_and_advance(std::size_t(length), Highlight_Type::string);
         }
         else if (!remainder.empty()) {
             emit_and_advance(1, Highlight_Type::error);
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index fff4c30..1e71679 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -287,7 +287,8 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
     }
     default: {
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
-        return { .length = 2 };
+        const auto [_, length] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(length) };
     }
     }
 }
diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 8839780..26f961f 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -683,8 +683,9 @@ bool highlight_lua(
             continue;
         }
 
-        emit(index, 1, Highlight_Type::symbol);
-        index++;
+        const auto [_, symbol_length] = utf8::decode_and_length_or_replacement(remainder);
+        emit(index, std::size_t(symbol_length), Highlight_Type::symbol);
+        index += std::size_t(symbol_length);
     }
 
     return true;
diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3f28f46..6978bbb 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -4,6 +4,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/parse_utils.hpp"
 
@@ -55,7 +56,8 @@ Escape_Result match_escape_sequence(std::u8string_view str)
         return match_common_escape<Common_Escape::hex_8>(str, 2);
     }
     default: {
-        return { .length = 2uz, .erroneous = true };
+        const auto [_, length] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(length), .erroneous = true };
     }
     }
 }
diff --git a/src/main/cpp/lang/tex.cpp b/src/main/cpp/lang/tex.cpp
index 55ed495..87e7487 100644
--- a/src/main/cpp/lang/tex.cpp
+++ b/src/main/cpp/lang/tex.cpp
@@ -8,6 +8,7 @@
 #include "ulight/impl/buffer.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/tex.hpp"
 
@@ -65,7 +66,11 @@ struct Highlighter : Highlighter_Base {
                     // While TeX doesn't really distinguish between '\{' and '\abc'
                     // as being escape sequences or commands,
                     // it is helpful for highlighting if we do that.
-                    emit_and_advance(2, Highlight_Type::string_escape);
+                    const auto [_, escaped_length]
+                        = utf8::decode_and_length_or_replacement(remainder.substr(1));
+                    emit_and_advance(
+                        1 + std::size_t(escaped_length), Highlight_Type::string_escape
+                    );
                     break;
                 }
                 emit_and_advance(name_length, Highlight_Type::markup_tag);
diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index c2076d6..ff6f955 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -6,6 +6,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/yaml.hpp"
 
@@ -440,7 +441,8 @@ private:
                 advance(1);
             }
             else {
-                emit_and_advance(1, Highlight_Type::string);
+                const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(length), Highlight_Type::string);
             }
         }
         skip_line();
@@ -845,7 +847,8 @@ private:
             emit_and_advance(2, Highlight_Type::name_attr_delim);
             while (!remainder.empty() && remainder[0] != u8'>' && remainder[0] != u8'\r'
                    && remainder[0] != u8'\n') {
-                emit_and_advance(1, Highlight_Type::name_attr);
+                const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(length), Highlight_Type::name_attr);
             }
             if (!remainder.empty() && remainder[0] == u8'>') {
                 emit_and_advance(1, Highlight_Type::name_attr_delim);
@@ -884,7 +887,8 @@ private:
     void consume_tag_suffix()
     {
         while (!remainder.empty() && !is_yaml_word_terminator(remainder[0])) {
-            emit_and_advance(1, Highlight_Type::name_attr);
+            const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+            emit_and_advance(std::size_t(length), Highlight_Type::name_attr);
         }
     }
 
-- 
2.43.0


From 27c4263e646126d08606bf91ee508fbea033a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 011/123] fix: coalesce tokens across the boundary of a nested
 language

---
 include/ulight/impl/highlighter.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index da6b980..b12f6d1 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -77,7 +77,7 @@ protected:
         std::size_t length,
         Highlight_Type type,
         Coalescing coalescing = Coalescing::normal
-    )
+    ) const
     {
         ULIGHT_DEBUG_ASSERT(length != 0);
         ULIGHT_DEBUG_ASSERT(begin < source_length);
@@ -154,9 +154,10 @@ protected:
         constexpr auto flush = +[](const void* this_pointer, Token* tokens, std::size_t amount) {
             const auto& self = *static_cast<const Highlighter_Base*>(this_pointer);
             for (std::size_t i = 0; i < amount; ++i) {
-                tokens[i].begin += self.index;
+                self.emit(
+                    tokens[i].begin + self.index, tokens[i].length, Highlight_Type(tokens[i].type)
+                );
             }
-            self.out.append_range(std::span<const Token> { tokens, amount });
         };
         return { data.data(), data.size(), this, flush };
     }
-- 
2.43.0


From c9632e6685fcf52590c69d7df2f71d7068f2cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 012/123] fix: never split a UTF-8 code point in error tokens

Erroneous characters in JavaScript, Kotlin annotation lists, and XML names
were highlighted one byte at a time.
---
 src/main/cpp/lang/js.cpp     | 3 ++-
 src/main/cpp/lang/kotlin.cpp | 3 ++-
 src/main/cpp/lang/xml.cpp    | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 1e71679..8a64084 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -998,7 +998,8 @@ private:
 
     void consume_error()
     {
-        emit_and_advance(1, Highlight_Type::error);
+        const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+        emit_and_advance(std::size_t(length), Highlight_Type::error);
         input_element = Input_Element::regex;
     }
 
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9d24fda..9ef969f 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -497,7 +497,8 @@ private:
                 consume_dotted_annotation_name();
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
             }
         }
         if (!remainder.empty() && remainder[0] == u8']') {
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9dec07c..16aae3f 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -748,10 +748,10 @@ private:
                 if (piece_length) {
                     emit_and_advance(piece_length, type);
                 }
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
 
                 piece_length = 0;
-                total_length += 1;
+                total_length += std::size_t(length);
             }
             else {
                 piece_length += std::size_t(length);
-- 
2.43.0


From 9b806b0a6bb988ac4858c605aeab3cec5a1a4686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 013/123] fix: make ulight_lang_from_path_u8 look at the file
 extension

It looked up the whole path as a language name.
---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..b09dea9 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From 96fcd9f9029f2b6883d12501e0dea35cfd43d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 014/123] fix: reject all out-of-range languages

The language ULIGHT_LANG_COUNT and languages with a negative value
were accepted, which resulted in an internal error when highlighting,
and in an out-of-bounds read when obtaining the display name.
---
 src/main/cpp/ulight.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index b09dea9..a8c5aa7 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -196,7 +196,7 @@ static_assert(std::ranges::none_of(ulight_lang_display_names, [](ulight_string_v
 ULIGHT_EXPORT
 ulight_string_view ulight_lang_display_name(ulight_lang lang) noexcept
 {
-    if (lang == ULIGHT_LANG_NONE || int(lang) >= int(ULIGHT_LANG_COUNT)) {
+    if (lang == ULIGHT_LANG_NONE || std::size_t(lang) >= std::size_t(ULIGHT_LANG_COUNT)) {
         return {};
     }
     return ulight_lang_display_names[std::size_t(lang)];
@@ -411,7 +411,8 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE
+        || std::size_t(state->lang) >= std::size_t(ULIGHT_LANG_COUNT)) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From 03fb24ed71a71dd9dadfeb6a041cdac32af608ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 015/123] fix: return null from ulight_new when allocation
 fails

---
 src/main/cpp/ulight.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index a8c5aa7..3441345 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -354,6 +354,9 @@ ULIGHT_EXPORT
 ulight_state* ulight_new() noexcept
 {
     void* const result = ulight_alloc(sizeof(ulight_state), alignof(ulight_state));
+    if (result == nullptr) {
+        return nullptr;
+    }
     return ulight_init(static_cast<ulight_state*>(result));
 }
 
-- 
2.43.0


From 7027d60f0daa57b6dc26b56d861e60426454383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 016/123] fix: set the attribute name length in
 State::set_html_attr_name

---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..bc4500f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -484,7 +484,7 @@ struct [[nodiscard]] State {
     void set_html_attr_name(std::string_view name) noexcept
     {
         impl.html_attr_name = name.data();
-        impl.html_tag_name_length = name.length();
+        impl.html_attr_name_length = name.length();
     }
 
     void set_text_buffer(std::span<char> buffer)
-- 
2.43.0


From 1c6b2db763abb1f6fe1d1d9bc27e6df9c1da0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 017/123] fix: do not leave a dangling flush callback in the
 state

After generating HTML, flush_tokens_data pointed to a destroyed object,
so that a following ulight_source_to_tokens call used freed stack memory.
---
 src/main/cpp/ulight.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 3441345..baf44e0 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -536,10 +536,15 @@ ulight_status ulight_source_to_html(ulight_state* state) noexcept
     ulight::Function_Ref<void( ulight_token*, std::size_t)> flush_text_ref = flush_text;
 
     // clang-format on
+    const void* const user_flush_tokens_data = state->flush_tokens_data;
+    const auto user_flush_tokens = state->flush_tokens;
     state->flush_tokens_data = flush_text_ref.get_entity();
     state->flush_tokens = flush_text_ref.get_invoker();
 
     const ulight_status result = ulight_source_to_tokens(state);
+    // The functions above refer to local objects, so they cannot be left in the state.
+    state->flush_tokens_data = user_flush_tokens_data;
+    state->flush_tokens = user_flush_tokens;
     if (result != ULIGHT_STATUS_OK) {
         return result;
     }
-- 
2.43.0


From 053c3d2c0f30ee625cdc769e851fceaad079ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 018/123] fix: correct two highlight type names

The short name of name_shell_command_delim was that of name_shell_command,
and the long name of name_delim said "builtin".
---
 include/ulight/ulight.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index bc4500f..ca9440f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -148,7 +148,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name, "name", "name", ULIGHT_HL_NAME)                                                        \
     F(name_decl, "name-decl", "name_decl", ULIGHT_HL_NAME_DECL)                                    \
     F(name_builtin, "name-builtin", "name_pre", ULIGHT_HL_NAME_BUILTIN)                            \
-    F(name_delim, "name-builtin-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                         \
+    F(name_delim, "name-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                                 \
                                                                                                    \
     F(name_var, "name-var", "name_var", ULIGHT_HL_NAME_VAR)                                        \
     F(name_var_decl, "name-var-decl", "name_var_decl", ULIGHT_HL_NAME_VAR_DECL)                    \
@@ -220,7 +220,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
     F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                             \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
-- 
2.43.0


From 83ffe5581a853d6bfbbe79343695d7da536203f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 019/123] fix: map all highlight types in the theme generator

The entries for text and name-command-delim were missing because their keys were misspelled.
---
 scripts/theme-to-css.cjs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 582d050..4fca6ed 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -26,7 +26,7 @@ const longNameToShort = {
     "name": "name",
     "name-decl": "name_decl",
     "name-builtin": "name_pre",
-    "name-builtin-delim": "name_dlim",
+    "name-delim": "name_dlim",
     "name-var": "name_var",
     "name-var-decl": "name_var_decl",
     "name-var-builtin": "name_var_pre",
@@ -74,7 +74,7 @@ const longNameToShort = {
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
     "name-command-builtin": "sh_cmd_pre",
-    "name-command": "name_cmd",
+    "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
     "name-option-builtin": "name_opt_pre",
@@ -112,7 +112,7 @@ const longNameToShort = {
     "markup-attr-decl": "mk_attr_decl",
     "markup-attr-builtin": "mk_attr_pre",
     "markup-attr-delim": "mk_attr_dlim",
-    "text-emph": "text",
+    "text": "text",
     "text-heading": "text_head",
     "text-link": "text_link",
     "text-mark": "text_mark",
-- 
2.43.0


From 9249cb167cd9c5476987ce152d9162beb999e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 020/123] fix: continue after true, false, and null in JSON
 highlighting

The character after a literal in an array was highlighted as an error.
---
 src/main/cpp/lang/json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..b742cf1 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -414,6 +414,7 @@ private:
             const auto coalescing
                 = highlight == Highlight_Type::error ? Coalescing::forced : Coalescing::normal;
             emit_and_advance(id.length, highlight, coalescing);
+            return true;
         }
         return false;
     }
-- 
2.43.0


From 056446d6ecf2dc5f67f78aeb16bd33f11e8c8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 021/123] fix: pass JSON block comments to the visitor

The visitor received the text and position following the comment.
---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index b742cf1..6865c89 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -526,8 +526,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From a9504310d62c00194abbc67bb90b37e408f72270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 022/123] fix: do not read past the end of JSON numbers

---
 src/main/cpp/lang/json.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 6865c89..04910df 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,6 +1,7 @@
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 #include "ulight/json.hpp"
@@ -693,10 +694,12 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
+            // std::strtod requires a null terminator,
+            // and must not see any characters following the number, like in "0x1".
+            const std::string terminated { as_string_view(number_string) };
             char* str_end = nullptr;
-            const double value = std::strtod(str_begin, &str_end);
-            if (str_end == str_begin) {
+            const double value = std::strtod(terminated.c_str(), &str_end);
+            if (str_end == terminated.c_str()) {
                 error(JSON_Error::illegal_number);
                 return false;
             }
-- 
2.43.0


From b0ccc3460d2d9060840a586b925219bc0867eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 023/123] fix: report an error for JSON members without a key

This was undefined behavior.
---
 src/main/cpp/lang/json.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 04910df..13cf4d8 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -597,7 +597,9 @@ private:
     bool consume_string(String_Type type)
     {
         if (!remainder.starts_with(u8'"')) {
-            ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"Should have checked for quotes already.");
+            // This is not an error that callers rule out; consider `{0}` or `{"key":0,}`.
+            error(remainder.empty() ? JSON_Error::unterminated_object
+                                    : JSON_Error::illegal_character);
             return false;
         }
         if (type == String_Type::property) {
-- 
2.43.0


From 400d740db177a3c372678cc6f7aa57965d3c3f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 024/123] fix: reject text following a JSON value

---
 src/main/cpp/lang/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 13cf4d8..99f57e5 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -443,7 +443,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From 6f147522f6de2c120e21525500dffef5ccd47e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 025/123] fix: report an error whenever JSON parsing fails

---
 src/main/cpp/lang/json.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 99f57e5..de5b97d 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -547,6 +547,7 @@ private:
     bool consume_value()
     {
         if (remainder.empty()) {
+            error(JSON_Error::error);
             return false;
         }
         switch (remainder[0]) {
@@ -578,6 +579,7 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'f': {
@@ -586,6 +588,7 @@ private:
                 advance_on_same_line(5);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'n': {
@@ -594,9 +597,10 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
-        default: error(JSON_Error::illegal_escape); return false;
+        default: error(JSON_Error::illegal_character); return false;
         }
     }
 
-- 
2.43.0


From 4e7533eab9e9be685e6c966b8f12e4eef1c64cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 026/123] fix: report disallowed comments in JSON as such

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index de5b97d..92093fc 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -491,6 +491,10 @@ private:
         if (!options.allow_comments) {
             const std::size_t white_length = match_whitespace(remainder);
             advance(white_length);
+            if (remainder.starts_with(u8"//") || remainder.starts_with(u8"/*")) {
+                error(JSON_Error::comment);
+                return false;
+            }
             return true;
         }
         while (true) {
-- 
2.43.0


From 5615312e5fbd4a8d558a91deb7b4888e33ffd983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 027/123] fix: do not consider form feeds to be JSON whitespace

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0


From db8c4c5e7434b49f93101f5463ab646366e902da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 028/123] fix: report unterminated JSON objects and arrays
 followed by whitespace as such

---
 src/main/cpp/lang/json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 92093fc..65fea84 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -745,6 +745,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8'}')) {
                 out.pop_object(pos);
                 advance_on_same_line(1);
@@ -821,6 +824,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8']')) {
                 out.pop_array(pos);
                 advance_on_same_line(1);
-- 
2.43.0


From dfeecec016e9cf98f7af06532259dcc1cd57776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 029/123] fix: allow all supplementary characters in XML names

---
 include/ulight/impl/lang/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index e1918ce..33170bb 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -36,7 +36,7 @@ inline constexpr struct Is_XML_Name_Start {
             || (c >= U'\u3001' && c <= U'\ud7ff') //
             || (c >= U'\uf900' && c <= U'\ufdcf') //
             || (c >= U'\ufdf0' && c <= U'\ufffd') //
-            || (c >= U'\U00010000' && c <= U'\U000effef');
+            || (c >= U'\U00010000' && c <= U'\U000effff');
     }
 } is_xml_name_start;
 
-- 
2.43.0


From 678861b115ee113bd7ace3fa074d5d588588312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 030/123] fix: classify JavaScript identifiers and white space
 according to the specification

---
 include/ulight/impl/lang/js.hpp | 45 ++++++++-------------------------
 1 file changed, 10 insertions(+), 35 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index d6be250..606399d 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -10,6 +10,7 @@
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/escapes.hpp"
 #include "ulight/impl/numbers.hpp"
+#include "ulight/impl/unicode_chars.hpp"
 
 namespace ulight::js {
 
@@ -40,7 +41,7 @@ inline constexpr struct Is_JS_Whitespace {
                 || c == U'\N{NARROW NO-BREAK SPACE}'
                 || c == U'\N{MEDIUM MATHEMATICAL SPACE}'
                 || c == U'\N{IDEOGRAPHIC SPACE}'
-                || (c >= U'\u1680' && c <= U'\u180E')
+                || c == U'\N{OGHAM SPACE MARK}'
                 || (c >= U'\u2000' && c <= U'\u200A');
         // clang-format on
     }
@@ -52,26 +53,10 @@ inline constexpr struct Is_JS_Identifier_Start {
         = delete;
 
     [[nodiscard]]
-    static constexpr bool operator()(const char32_t c) noexcept
+    static bool operator()(const char32_t c) noexcept
     {
         // https://262.ecma-international.org/15.0/index.html#prod-IdentifierName
-        // clang-format off
-            return c == U'$'
-                || c == U'_' // Special JS characters.
-                || is_ascii_alpha(c)
-                || (c >= U'\u00C0' && c <= U'\u00D6') // Lu, Ll, Lt, Lm, Lo, Nl categories.
-                || (c >= U'\u00D8' && c <= U'\u00F6')
-                || (c >= U'\u00F8' && c <= U'\u02FF')
-                || (c >= U'\u0370' && c <= U'\u037D')
-                || (c >= U'\u037F' && c <= U'\u1FFF')
-                || (c >= U'\u200C' && c <= U'\u200D')
-                || (c >= U'\u2070' && c <= U'\u218F')
-                || (c >= U'\u2C00' && c <= U'\u2FEF')
-                || (c >= U'\u3001' && c <= U'\uD7FF')
-                || (c >= U'\uF900' && c <= U'\uFDCF')
-                || (c >= U'\uFDF0' && c <= U'\uFFFD')
-                || (c >= U'\U00010000' && c <= U'\U000EFFFF');
-        // clang-format on
+        return c == U'$' || c == U'_' || is_xid_start(c);
     }
 } is_js_identifier_start;
 
@@ -81,23 +66,13 @@ inline constexpr struct Is_JS_Identifier_Part {
         = delete;
 
     [[nodiscard]]
-    static constexpr bool operator()(const char32_t c) noexcept
+    static bool operator()(const char32_t c) noexcept
     {
         // https://262.ecma-international.org/15.0/index.html#prod-IdentifierPart
-        // clang-format off
-            return is_js_identifier_start(c)
-                || is_ascii_digit(c)
-                || (c >= U'\u0300' && c <= U'\u036F') // // Mn, Mc, Nd, Pc categories.
-                || (c >= U'\u1DC0' && c <= U'\u1DFF')
-                || (c >= U'\u20D0' && c <= U'\u20FF')
-                || (c >= U'\uFE20' && c <= U'\uFE2F')
-                || (c >= U'\u0660' && c <= U'\u0669') // Arabic-Indic digits.
-                || (c >= U'\u06F0' && c <= U'\u06F9') // Extended Arabic-Indic digits.
-                || (c >= U'\u07C0' && c <= U'\u07C9') // NKo digits.
-                || (c >= U'\u0966' && c <= U'\u096F') // Devanagari digits.
-                || c == U'\u200C'  // Zero-width joiner.
-                || c == U'\u200D'; // Joiner.
-        // clang-format on
+        return c == U'$' //
+            || c == U'\N{ZERO WIDTH NON-JOINER}' //
+            || c == U'\N{ZERO WIDTH JOINER}' //
+            || is_xid_continue(c);
     }
 } is_js_identifier_part;
 
@@ -109,7 +84,7 @@ inline constexpr struct Is_JSX_Tag_Name_Part {
     // JSX tag names can include identifiers, hyphens, colons, and periods
     // according to the official JSX spec.
     [[nodiscard]]
-    static constexpr bool operator()(const char32_t c) noexcept
+    static bool operator()(const char32_t c) noexcept
     {
         // https://facebook.github.io/jsx/#prod-JSXElementName
         return is_js_identifier_part(c) || c == U'-' || c == U':' || c == U'.';
-- 
2.43.0


From bdd777b9a17c920cebf2158987a6e4891565cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 031/123] fix: treat non-ASCII characters as part of CSS
 identifiers

---
 include/ulight/impl/lang/css.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/css.hpp b/include/ulight/impl/lang/css.hpp
index 854cfa6..74418c4 100644
--- a/include/ulight/impl/lang/css.hpp
+++ b/include/ulight/impl/lang/css.hpp
@@ -25,7 +25,8 @@ inline constexpr struct Is_CSS_Identifier_Start {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-start-code-point
-        return is_css_ascii_identifier_start(c);
+        // Non-ASCII code units are always part of a non-ASCII code point.
+        return !is_ascii(c) || is_css_ascii_identifier_start(c);
     }
 
     [[nodiscard]]
@@ -44,7 +45,8 @@ inline constexpr struct Is_CSS_Identifier {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-code-point
-        return is_css_ascii_identifier(c);
+        // Non-ASCII code units are always part of a non-ASCII code point.
+        return !is_ascii(c) || is_css_ascii_identifier(c);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 4686677e693f490df8dc42f66ceaba3a83fed1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 032/123] fix: recognize url( in CSS

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 67931b6..06fdeb3 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -128,7 +128,7 @@ Ident_Result match_ident_like_token(std::u8string_view str)
     // parenthesis or the following URL, just the identifier.
 
     const std::size_t length = match_ident_sequence(str);
-    const std::u8string_view result = str.substr(length);
+    const std::u8string_view result = str.substr(0, length);
 
     if (length == str.length() || str[length] != u8'(') {
         return { .length = length, .type = Ident_Type::ident };
-- 
2.43.0


From 3ceb9aea85269f0b37e3e0d46a02be15bbbd4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 033/123] fix: do not shift out of range in
 Charset::range_before

---
 include/ulight/impl/charset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/charset.hpp b/include/ulight/impl/charset.hpp
index 59e3a5a..ca7b899 100644
--- a/include/ulight/impl/charset.hpp
+++ b/include/ulight/impl/charset.hpp
@@ -27,7 +27,7 @@ struct Charset {
         for (std::size_t limb = 0; limb < limb_count; ++limb) {
             const std::size_t begin = limb * limb_width;
             const std::size_t lo = i > begin ? i - begin : 0;
-            const std::size_t hi = j < begin + limb_width ? j - begin : limb_width;
+            const std::size_t hi = j >= begin + limb_width ? limb_width : j > begin ? j - begin : 0;
             if (lo < hi) {
                 const limb_type lo_mask = all_bits << lo;
                 const limb_type hi_mask = hi == limb_width ? all_bits : (limb_type { 1 } << hi) - 1;
-- 
2.43.0


From 262c0d0faec10ab6635e4126744d51f75d80c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 034/123] fix: do not report empty digit sequences as erroneous
 if there is a digit separator

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a289886..b5f8609 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -157,7 +157,7 @@ Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t s
         previous = c;
         return is_digit;
     });
-    erroneous |= previous == separator;
+    erroneous |= length != 0 && previous == separator;
 
     return { .length = length, .erroneous = erroneous };
 }
-- 
2.43.0


From 55790c6cd1f26307ed497b39feff38902195f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 035/123] fix: do not match numbers that start with a digit
 separator

---
 src/main/cpp/parse_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index b5f8609..23bbf94 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -194,6 +194,12 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
                                                      : options.default_base;
     }();
     {
+        // A number cannot start with a digit separator;
+        // in most languages, "_0" is an identifier.
+        if (result.prefix == 0 && options.digit_separator != 0
+            && str.substr(length).starts_with(options.digit_separator)) {
+            return {};
+        }
         const auto [integer_digits, integer_error]
             = match_separated_digits(str.substr(length), base, options.digit_separator);
         result.integer = integer_digits;
-- 
2.43.0


From 5b879dd931b5e730c7e62068d7c0c2beabaa4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 036/123] fix: allow digit separators in numbers with a base
 suffix

---
 src/main/cpp/parse_utils.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 23bbf94..22b9208 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -301,6 +301,13 @@ Suffix_Number_Result match_suffix_number(
     const bool erroneous = [&] {
         for (std::size_t i = 0; i + suffix.length < length; ++i) {
             const char8_t c = number[i];
+            if (digit_separator != 0 && c == digit_separator) {
+                if (i == 0 || i + suffix.length + 1 == length
+                    || number[i - 1] == digit_separator) {
+                    return true;
+                }
+                continue;
+            }
 
             const int digit_value = c >= u8'A' && c <= u8'Z' ? c - u8'A' + 10
                 : c >= u8'a' && c <= u8'z'                   ? c - u8'a' + 10
@@ -308,12 +315,6 @@ Suffix_Number_Result match_suffix_number(
             if (digit_value >= suffix.base) {
                 return true;
             }
-            const bool repeated_separator = digit_separator != 0 && c == digit_separator //
-                && i != 0 //
-                && number[i - 1] == digit_separator;
-            if (repeated_separator) {
-                return true;
-            }
         }
         return false;
     }();
-- 
2.43.0


From c9f864df51ad17d1c56a7b68c51d3a3a969f78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 037/123] fix: do not close a file twice in Unique_File

---
 include/ulight/impl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index b0c7792..3bfed25 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -72,7 +72,7 @@ public:
     void close() noexcept
     {
         if (m_file) {
-            std::fclose(m_file);
+            std::fclose(std::exchange(m_file, nullptr));
         }
     }
 
-- 
2.43.0


From cf9679bb5b59dc3f261b0575ecd7e08dfa818f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 038/123] fix: reject paths which cannot be passed to fopen

---
 src/main/cpp/io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 1101513..36e48c8 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,9 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() > block_size) {
+    // The path has to be null-terminated within the buffer,
+    // and no file can be identified by a path that contains a null character.
+    if (path.size() >= block_size || path.contains('\0')) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From 4d05800bf5af2f3f5d3fadb1233444bd218028f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 039/123] fix: exit with a failure status if the output is not
 produced

---
 src/main/cpp/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index d022e38..c1faf09 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <cstdlib>
 #include <expected>
 #include <iostream>
@@ -65,6 +66,12 @@ int main(int argc, const char** argv)
     Status status = state.source_to_html();
     if (status != Status::ok) {
         std::cerr << "Error: " << state.get_error_string() << '\n';
+        return EXIT_FAILURE;
+    }
+
+    if (std::fflush(out_file) != 0 || std::ferror(out_file)) {
+        std::cerr << "Error: failed to write output.\n";
+        return EXIT_FAILURE;
     }
 
     return 0;
-- 
2.43.0


From 49ae5cd8d6faeec66471487cc57fd5d826e4ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 040/123] fix: do not pass null pointers to memcpy when loading
 an empty file

---
 include/ulight/impl/io.hpp | 3 +++
 src/main/cpp/io.cpp        | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index 3bfed25..85d417c 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -134,6 +134,9 @@ file_to_bytes(std::vector<Byte, Alloc>& out, std::string_view path)
 {
     return file_to_bytes_chunked(
         [&out](std::span<const std::byte> chunk) -> void {
+            if (chunk.empty()) {
+                return;
+            }
             const std::size_t old_size = out.size();
             out.resize(out.size() + chunk.size());
             std::memcpy(out.data() + old_size, chunk.data(), chunk.size());
diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 36e48c8..e786e5b 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -88,7 +88,9 @@ std::expected<std::vector<char32_t>, IO_Error_Code> load_utf32le_file(std::strin
     // We could make this code more portable in the long run, but I don't care for now.
     static_assert(std::endian::native == std::endian::little);
     std::vector<char32_t> result(bytes.size() / 4);
-    std::memcpy(result.data(), bytes.data(), bytes.size());
+    if (!bytes.empty()) {
+        std::memcpy(result.data(), bytes.data(), bytes.size());
+    }
 
     return result;
 }
-- 
2.43.0


From 16ab17e3c3213b9a61e174f8ddc291adbd4a1b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 041/123] fix: match digit separators, suffixes and radix
 points like the languages do

Exponents may contain digit separators; Java, Kotlin and Rust permit multiple
separators in a row, Rust also trailing ones, and Python and Rust permit them after the
base prefix. Python numbers may start with a radix point, Kotlin's UL suffix was cut
to U, and the dot in 1.max(2) is not part of the number. A prefix without digits is
never a number.
---
 include/ulight/impl/numbers.hpp | 25 +++++++++++++++++++-
 src/main/cpp/lang/java.cpp      |  1 +
 src/main/cpp/lang/kotlin.cpp    | 16 ++++++++-----
 src/main/cpp/lang/python.cpp    |  2 +-
 src/main/cpp/lang/rust.cpp      | 12 ++++++++++
 src/main/cpp/parse_utils.cpp    | 41 +++++++++++++++++++++++++--------
 6 files changed, 79 insertions(+), 18 deletions(-)

diff --git a/include/ulight/impl/numbers.hpp b/include/ulight/impl/numbers.hpp
index 44487c3..d8b2e2e 100644
--- a/include/ulight/impl/numbers.hpp
+++ b/include/ulight/impl/numbers.hpp
@@ -36,8 +36,29 @@ inline Digits_Result match_digits_as_result(std::u8string_view str, int base = 1
     return { .length = match_digits(str, base), .erroneous = false };
 }
 
+/// @brief Says where digit separators may appear other than between two digits.
+struct Separator_Rules {
+    /// @brief If `true`, there may be separators between the base prefix and the first digit,
+    /// like `0x_ff`.
+    bool after_prefix = false;
+    /// @brief If `true`, there may be separators between the exponent separator and
+    /// the first digit of the exponent, like `1e_5`.
+    bool after_exponent_separator = false;
+    /// @brief If `true`, there may be multiple separators in a row, like `1__0`.
+    bool repeated = false;
+    /// @brief If `true`, there may be separators following the last digit, like `1_`.
+    bool trailing = false;
+};
+
+/// @param leading If `true`, there may be separators prior to the first digit.
 [[nodiscard]]
-Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t separator = 0);
+Digits_Result match_separated_digits(
+    std::u8string_view str,
+    int base,
+    char8_t separator = 0,
+    Separator_Rules rules = {},
+    bool leading = false
+);
 
 enum struct Matched_Signs : Underlying {
     none = 0b00,
@@ -96,6 +117,8 @@ struct Common_Number_Options {
     /// @brief An optional digit separator which is accepted as part of digit sequences
     /// in addition to the set of digits determined by the base.
     char8_t digit_separator = 0;
+    /// @brief Additional places where digit separators are accepted.
+    Separator_Rules separator_rules = {};
     /// @brief If `true`, the integer part shall not be empty, even if there is a fraction,
     /// like `.5f`.
     bool nonempty_integer = false;
diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 4cf0505..3f5ee91 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -96,6 +96,7 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .separator_rules = { .repeated = true },
         .nonempty_fraction = true,
     };
     return match_common_number(str, options);
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9ef969f..dabfe21 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -72,21 +72,25 @@ Common_Number_Result match_number(std::u8string_view str)
         { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 }, //
     };
     static constexpr std::u8string_view suffixes[] {
-        u8"F", u8"L", u8"U", u8"UL", u8"f", u8"l", u8"u", u8"uL",
+        u8"UL", u8"uL", // longer suffixes have to be tested first
+        u8"F",  u8"L",  u8"U", u8"f", u8"l", u8"u",
     };
-    static_assert(std::ranges::is_sorted(suffixes));
     static constexpr Common_Number_Options options {
         .prefixes = prefixes,
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .separator_rules = { .repeated = true },
     };
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
-    if (result.radix_point && result.fractional == 0 && result.length < str.length()
-        && str[result.length] == u8'.') {
-        result.radix_point = 0;
-        --result.length;
+    if (result.radix_point && result.integer) {
+        // In "0..1", "1.toString()" etc., the dot is not part of the number.
+        const std::size_t point = result.prefix + result.integer;
+        const std::u8string_view after_point = str.substr(point + 1);
+        if (after_point.starts_with(u8'.') || cpp::match_identifier(after_point)) {
+            return match_common_number(str.substr(0, point), options);
+        }
     }
     return result;
 }
diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index ff8b430..1734a7e 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -138,7 +138,7 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
-        .nonempty_integer = true,
+        .separator_rules = { .after_prefix = true },
     };
     return match_common_number(str, options);
 }
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 12b8a77..eb4f9d6 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -134,9 +134,21 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .match_suffix = Constant<match_suffix> {},
         .digit_separator = digit_separator,
+        .separator_rules = { .after_prefix = true,
+                             .after_exponent_separator = true,
+                             .repeated = true,
+                             .trailing = true },
         .nonempty_integer = true,
     };
     Common_Number_Result result = match_common_number(str, options);
+    if (result.radix_point && result.integer) {
+        // In "0..1", "1.max(2)" etc., the dot is not part of the number.
+        const std::size_t point = result.prefix + result.integer;
+        const std::u8string_view after_point = str.substr(point + 1);
+        if (after_point.starts_with(u8'.') || match_identifier(after_point)) {
+            return match_common_number(str.substr(0, point), options);
+        }
+    }
     if (result.is_integer()) {
         if (result.suffix) {
             // https://doc.rust-lang.org/reference/grammar.html#grammar-summary-SUFFIX_NO_E
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 22b9208..a82451a 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -139,25 +139,37 @@ std::size_t match_digits(std::u8string_view str, int base)
     return ascii::length_if(str, predicate);
 }
 
-Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t separator)
+Digits_Result match_separated_digits(
+    std::u8string_view str,
+    int base,
+    char8_t separator,
+    Separator_Rules rules,
+    bool leading
+)
 {
     if (separator == 0) {
         return match_digits_as_result(str, base);
     }
     bool erroneous = false;
+    bool any_digits = false;
+    std::size_t separators = 0;
 
-    char8_t previous = separator;
     const std::size_t length = ascii::length_if(str, [&](char8_t c) {
         if (c == separator) {
-            erroneous |= previous == separator;
-            previous = c;
+            ++separators;
+            erroneous |= !any_digits && !leading;
+            erroneous |= separators > 1 && !rules.repeated;
             return true;
         }
         const bool is_digit = is_ascii_digit_base(c, base);
-        previous = c;
+        if (is_digit) {
+            separators = 0;
+            any_digits = true;
+        }
         return is_digit;
     });
-    erroneous |= length != 0 && previous == separator;
+    erroneous |= length != 0 && !any_digits;
+    erroneous |= separators != 0 && !rules.trailing;
 
     return { .length = length, .erroneous = erroneous };
 }
@@ -201,7 +213,10 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             return {};
         }
         const auto [integer_digits, integer_error]
-            = match_separated_digits(str.substr(length), base, options.digit_separator);
+            = match_separated_digits(
+                str.substr(length), base, options.digit_separator, options.separator_rules,
+                result.prefix != 0 && options.separator_rules.after_prefix
+            );
         result.integer = integer_digits;
         result.erroneous |= options.nonempty_integer && integer_digits == 0;
         result.erroneous |= integer_error;
@@ -212,7 +227,9 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         result.radix_point = 1;
 
         const auto [fractional_digits, fractional_error]
-            = match_separated_digits(str.substr(length + 1), base, options.digit_separator);
+            = match_separated_digits(
+                str.substr(length + 1), base, options.digit_separator, options.separator_rules
+            );
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
         result.erroneous |= fractional_error;
@@ -240,9 +257,13 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             result.exponent_sep = s.str.length();
             length += result.exponent_sep;
 
-            const std::size_t exp_digits = match_digits(str.substr(length));
+            const auto [exp_digits, exp_error] = match_separated_digits(
+                str.substr(length), 10, options.digit_separator, options.separator_rules,
+                options.separator_rules.after_exponent_separator
+            );
             result.exponent_digits += exp_digits;
             result.erroneous |= exp_digits == 0;
+            result.erroneous |= exp_error;
             length += exp_digits;
             break;
         }
@@ -266,7 +287,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     }
 
     result.length = length;
-    result.erroneous |= result.prefix == length;
+    result.erroneous |= result.prefix != 0 && result.integer == 0 && result.fractional == 0;
     ULIGHT_DEBUG_ASSERT(
         (result.sign + result.prefix + result.integer + result.radix_point + result.fractional
          + result.exponent_sep + result.exponent_digits + result.suffix)
-- 
2.43.0


From 7b3121fdd1c447736f418c8ada0bf21050562d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 042/123] fix: treat digits 8 and 9 in a JavaScript number with
 leading zero as decimal

---
 src/main/cpp/lang/js.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 8a64084..f07a2b0 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -363,7 +363,6 @@ Common_Number_Result match_numeric_literal(std::u8string_view str)
         .prefixes = prefixes,
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
-        .default_leading_zero_base = 8,
         .digit_separator = digit_separator,
     };
     Common_Number_Result result = match_common_number(str, options);
-- 
2.43.0


From 4c5471008954fc876ac903ef46299bc4522b18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 043/123] fix: highlight signed numbers and all hexadecimal
 float prefixes in LLVM IR

---
 src/main/cpp/lang/llvm.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8411d91..8ecd5bb 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -208,6 +208,15 @@ private:
             consume_identifier();
             break;
         }
+        case u8'+':
+        case u8'-': {
+            // https://llvm.org/docs/LangRef.html#simple-constants
+            // Note that labels may also start with a minus.
+            if (remainder.length() < 2 || !is_ascii_digit(remainder[1]) || !expect_number()) {
+                goto default_case;
+            }
+            break;
+        }
         case u8's':
         case u8'u': {
             // https://llvm.org/docs/LangRef.html#simple-constants
@@ -354,11 +363,12 @@ private:
     {
         // https://llvm.org/docs/LangRef.html#simple-constants
         static constexpr Number_Prefix prefixes[] {
-            { u8"0x"sv, 16 }, // float and double
+            { u8"0xH"sv, 16 }, // half
             { u8"0xK"sv, 16 }, // x86 80-bit
             { u8"0xL"sv, 16 }, // IEEE 128-bit
             { u8"0xM"sv, 16 }, // PowerPC 128-bit
             { u8"0xR"sv, 16 }, // bfloat 16-bit
+            { u8"0x"sv, 16 }, // float and double; has to be tested after longer prefixes
             { u8"s0x"sv, 16 }, // signed integer
             { u8"u0x"sv, 16 }, // unsigned integer
         };
@@ -370,7 +380,7 @@ private:
             { u8"E+", 10 }, { u8"E-", 10 }, { u8"E", 10 }, //
         };
         static constexpr Common_Number_Options options {
-            .signs = Matched_Signs::minus_only,
+            .signs = Matched_Signs::minus_and_plus,
             .prefixes = prefixes,
             .exponent_separators = exponent_separators,
         };
-- 
2.43.0


From b0ff0c73a7c1c0175e081cd680ad6143d04a18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 044/123] fix: treat 0x1b as a hexadecimal rather than binary
 number in NASM

---
 src/main/cpp/lang/nasm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 6978bbb..e21ceb1 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -585,6 +585,12 @@ private:
             }
         }
         if (suffixed.erroneous) {
+            // If there could be both a prefix and a suffix, the greater base is chosen.
+            // For example, "0x1b" is a hexadecimal number.
+            if (remainder[0] == u8'0'
+                && determine_suffix(remainder.substr(0, 2)).base > suffixed.base) {
+                return false;
+            }
             emit_and_advance(suffixed.digits + suffixed.suffix, Highlight_Type::error);
             return true;
         }
-- 
2.43.0


From 44f272f278677d0e2b40376bfc3af9067006993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 045/123] fix: do not treat the suffix of a hexadecimal
 floating literal as an exponent digit

---
 src/main/cpp/lang/cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index b54244c..3d82896 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -899,7 +899,7 @@ public:
     {
         ULIGHT_ASSERT(!pp_number.empty());
 
-        const bool is_hex = pp_number.starts_with(u8"0x") || pp_number.starts_with(u8"0X");
+        bool is_hex = pp_number.starts_with(u8"0x") || pp_number.starts_with(u8"0X");
         const bool is_binary = pp_number.starts_with(u8"0b") || pp_number.starts_with(u8"0B");
 
         if (is_hex || is_binary) {
@@ -953,6 +953,7 @@ public:
                 if (is_exponent) {
                     emit_and_advance(1, Highlight_Type::number_delim);
                     pp_number.remove_prefix(1);
+                    is_hex = false; // The exponent is decimal.
                     break;
                 }
                 emit_and_advance(pp_number.length(), Highlight_Type::number_decor);
-- 
2.43.0


From 247470bd37b18c5e1fffe5595347224d5b3a7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 046/123] fix: do not let malformed escape sequences hide the
 end of a string literal

---
 include/ulight/impl/escapes.hpp | 46 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index c5ca4e3..ff63b6d 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -109,14 +109,13 @@ constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predi
     if (!str.starts_with(u8'{')) {
         return { .length = 0, .erroneous = true };
     }
-    const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
-    const std::u8string_view digits = str.substr(1, length_without_brace - 1);
-    const bool erroneous = length_without_brace <= 1 || !all_of(digits, p);
-    const std::size_t length
-        = length_without_brace == str.length() || str[length_without_brace] != u8'}'
-        ? length_without_brace
-        : length_without_brace + 1;
-    return { .length = length, .erroneous = erroneous };
+    // If the digits are wrong or the closing brace is missing,
+    // the escape sequence must not extend past the end of the string literal.
+    const std::size_t content_end
+        = ascii::length_if(str, [&](char8_t c) { return p(c) || is_ascii_alphanumeric(c); }, 1);
+    const bool closed = content_end < str.length() && str[content_end] == u8'}';
+    const bool valid = content_end > 1 && all_of(str.substr(1, content_end - 1), p);
+    return { .length = content_end + std::size_t(closed), .erroneous = !closed || !valid };
 }
 
 } // namespace detail
@@ -158,28 +157,21 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
 
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
-        constexpr std::size_t min_length = escape_type_min_length(type);
-        if (str.length() < min_length) {
-            return { .length = str.length(), .erroneous = true };
-        }
-        const bool all_hex = all_of(str.substr(0, min_length), hex_digit_lambda);
-        std::size_t length = min_length;
-        // If the code units are not digits, we may have ended up within a code point.
-        while (!all_hex && length < str.length() && (str[length] & char8_t(0xC0)) == char8_t(0x80)) {
-            ++length;
-        }
-        return { .length = length, .erroneous = !all_hex };
+        constexpr std::size_t required_length = escape_type_min_length(type);
+        // If the digits are wrong,
+        // the escape sequence must not extend past the end of the string literal.
+        const std::size_t length = ascii::length_if(
+            str.substr(0, min(required_length, str.length())), is_ascii_alphanumeric
+        );
+        const bool all_hex = all_of(str.substr(0, length), hex_digit_lambda);
+        return { .length = length, .erroneous = length != required_length || !all_hex };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
-        if (!str.starts_with(u8'{')) {
-            return { .length = 0, .erroneous = true };
-        }
-        const std::size_t index = str.find(u8'}', 1);
-        if (index == std::u8string_view::npos) {
-            return { .length = str.length(), .erroneous = true };
-        }
-        return { .length = index + 1 };
+        constexpr auto name_lambda = [](char8_t c) {
+            return is_ascii_alphanumeric(c) || c == u8' ' || c == u8'-' || c == u8'_';
+        };
+        return detail::match_common_braced_escape(str, name_lambda);
     }
 
     else if constexpr (type == Common_Escape::hex_braced) {
-- 
2.43.0


From 9d20620ef1e9b5534f52b81e3ac8913e34732495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 047/123] fix: recognize octal escapes of one to three digits
 in NASM

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index e21ceb1..5f77c99 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -44,7 +44,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     case u8'5':
     case u8'6':
     case u8'7': {
-        return match_common_escape<Common_Escape::octal_1_to_2>(str, 2);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
     case u8'x': {
         return match_common_escape<Common_Escape::hex_1_to_2>(str, 2);
-- 
2.43.0


From 47cab5220b3c3aea42d176abbf03559e9f7c6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 048/123] fix: recognize octal escapes of one or two digits in
 Python

---
 src/main/cpp/lang/python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 1734a7e..51730d0 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -165,7 +165,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str, const String_P
         // Note that while octal escapes with a value above 255 produce a `SyntaxWarning`
         // as of Python 3.12, they do not raise an error yet,
         // so we don't highlight them as an error.
-        return match_common_escape<Common_Escape::octal_3>(str, 1);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
 
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
-- 
2.43.0


From a8961798ff1b2f166420672d05ef8602ad695eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 049/123] fix: recognize raw lifetimes and end raw strings at
 the required number of hashes in Rust

---
 src/main/cpp/lang/rust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index eb4f9d6..2def7f6 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -512,7 +512,7 @@ private:
                         = ascii::length_before_not(remainder.substr(length + 1), u8'#');
                     if (terminating_hashes >= raw_hash_length) {
                         flush();
-                        emit_and_advance(1 + terminating_hashes, Highlight_Type::string_delim);
+                        emit_and_advance(1 + raw_hash_length, Highlight_Type::string_delim);
                         break;
                     }
                 }
@@ -567,7 +567,7 @@ private:
     bool expect_lifetime_token()
     {
         // https://doc.rust-lang.org/reference/tokens.html#lifetimes-and-loop-labels
-        constexpr std::u8string_view raw_prefix = u8"'#r";
+        constexpr std::u8string_view raw_prefix = u8"'r#";
 
         if (!remainder.starts_with(u8'\'')) {
             return false;
-- 
2.43.0


From e4e891a1b6f216daca4b71a2d9c98e4f06e1fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 050/123] fix: recognize the string prefixes u and Rf in Python

---
 src/main/cpp/lang/python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 51730d0..396cb14 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -96,6 +96,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"RB", raw_byte },
         { u8"RF", raw_formatted },
         { u8"Rb", raw_byte },
+        { u8"Rf", raw_formatted },
         { u8"U", unicode },
         { u8"b", byte },
         { u8"bR", raw_byte },
@@ -108,6 +109,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"rF", raw_formatted },
         { u8"rb", raw_byte },
         { u8"rf", raw_formatted },
+        { u8"u", unicode },
     };
     static_assert(std::ranges::is_sorted(prefixes, {}, &Prefix_And_Type::id));
 
-- 
2.43.0


From bf37ef04e0ffb6e9bf5692090d6088feff803bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 051/123] fix: recognize raw C strings with hashes in Rust

---
 src/main/cpp/lang/rust.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 2def7f6..e097815 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -472,7 +472,9 @@ private:
         }
         const auto [prefix_length, string_type] = *classification;
 
-        const std::size_t raw_hash_length = string_type_is_raw(string_type)
+        const bool may_have_hashes
+            = string_type_is_raw(string_type) || string_type == String_Type::raw_c;
+        const std::size_t raw_hash_length = may_have_hashes
             ? ascii::length_before_not(remainder.substr(prefix_length), u8'#')
             : 0uz;
 
@@ -494,7 +496,7 @@ private:
         // https://doc.rust-lang.org/reference/tokens.html#character-and-string-literals
 
         constexpr char8_t terminator = u8'"';
-        const bool is_raw = string_type_is_raw(type);
+        const bool is_raw = string_type_is_raw(type) || raw_hash_length != 0;
 
         std::size_t length = 0;
         const auto flush = [&] {
-- 
2.43.0


From 966fe95bf69069927f2ed735590548a964b09479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 052/123] fix: treat CRLF after a backslash as one line break
 in JavaScript and Lua strings

---
 src/main/cpp/lang/js.cpp  | 10 ++++++++++
 src/main/cpp/lang/lua.cpp |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index f07a2b0..f4bb479 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -285,6 +285,12 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
         const std::size_t length = str.length() >= 3 && is_ascii_octal_digit(str[2]) ? 3 : 2;
         return { .length = length };
     }
+    case u8'\r':
+    case u8'\n': {
+        // https://262.ecma-international.org/15.0/index.html#prod-LineContinuation
+        return match_common_escape<Common_Escape::lf_cr_crlf>(str, 1);
+    }
+
     default: {
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
         const auto [_, length] = utf8::decode_and_length_or_replacement(str.substr(1));
@@ -308,6 +314,10 @@ String_Literal_Result match_string_literal(std::u8string_view str)
         const char8_t c = str[length];
 
         if (escaped) {
+            // CRLF is a single line terminator sequence in a line continuation.
+            if (str.substr(length).starts_with(u8"\r\n")) {
+                ++length;
+            }
             escaped = false;
         }
         else if (c == u8'\\') {
diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 26f961f..9e75010 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -209,6 +209,10 @@ String_Literal_Result match_string_literal(std::u8string_view str)
             const char8_t c = str[length];
 
             if (escaped) {
+                // CRLF is a single line break.
+                if (str.substr(length).starts_with(u8"\r\n")) {
+                    ++length;
+                }
                 escaped = false;
             }
             else if (c == u8'\\') {
-- 
2.43.0


From 0130b1bf713312b18167590795ad4558784e6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 053/123] fix: do not treat a backslash before an apostrophe as
 an escape in double-quoted Bash strings

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index a53e3ef..68b9e46 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -27,7 +27,7 @@ inline constexpr auto is_bash_metacharacter = is_bash_blank | Charset256(u8"|&;(
 /// For example, `\x` has no special meaning within double quotes (outside it does).
 ///
 /// https://www.gnu.org/software/bash/manual/bash.html#Double-Quotes
-inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"'$`\"\\\n");
+inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"$`\"\\\n");
 
 /// @brief Returns `true` iff `c` forms a parameter substitution
 /// when preceded by `$` despite not being a variable name.
-- 
2.43.0


From fd672b64fa93c5a99718084df619b862a887f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 054/123] fix: restore the state of the surrounding word after
 a substitution in Bash

---
 src/main/cpp/lang/bash.cpp | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index a7b2f13..0a7ffdd 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -375,34 +375,41 @@ private:
     {
         ULIGHT_ASSERT(remainder.size() >= 2 && remainder.starts_with(u8'$'));
         const char8_t next = remainder[1];
+
+        const auto update_state = [&] {
+            if (state == State::before_command) {
+                state = State::in_command;
+            }
+            else if (state == State::before_argument) {
+                state = State::in_argument;
+            };
+        };
+        // The commands within a substitution have no influence
+        // on the role of the word which contains the substitution.
+        const auto consume_nested = [&](State nested_state, Context context) {
+            const State outer_state = state;
+            state = nested_state;
+            consume_commands(context);
+            state = outer_state;
+            update_state();
+        };
+
         if (next == u8'{') {
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            state = State::parameter_sub;
-            consume_commands(Context::parameter_sub);
+            consume_nested(State::parameter_sub, Context::parameter_sub);
             return;
         }
         if (next == u8'(') {
             if (remainder.size() >= 3 && remainder[2] == u8'(') {
                 emit_and_advance(3, Highlight_Type::string_interpolation_delim);
-                state = State::before_command;
-                consume_commands(Context::arith_sub);
+                consume_nested(State::before_command, Context::arith_sub);
                 return;
             }
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            state = State::before_command;
-            consume_commands(Context::command_sub);
+            consume_nested(State::before_command, Context::command_sub);
             return;
         }
 
-        const auto update_state = [&] {
-            if (state == State::before_command) {
-                state = State::in_command;
-            }
-            else if (state == State::before_argument) {
-                state = State::in_argument;
-            };
-        };
-
         if (is_bash_special_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
             update_state();
-- 
2.43.0


From 508b3f49b2ed6c330ec9cbcbdcddde0f22062a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 055/123] fix: highlight the first word after ; && \|\| and |
 as a command in Bash

---
 src/main/cpp/lang/bash.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 0a7ffdd..e9ff728 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -137,6 +137,15 @@ std::optional<Token_Type> match_operator(std::u8string_view str)
 
 namespace {
 
+/// @brief Returns `true` if the given operator is always followed by another command.
+[[nodiscard]]
+bool is_control_operator(Token_Type type)
+{
+    // https://www.gnu.org/software/bash/manual/bash.html#Definitions-1
+    using enum Token_Type;
+    return type == semicolon || type == amp_amp || type == pipe || type == pipe_pipe;
+}
+
 struct Highlighter : Highlighter_Base {
 private:
     enum struct Context : Underlying {
@@ -259,6 +268,9 @@ private:
                 const std::optional<Token_Type> op = match_operator(remainder);
                 ULIGHT_ASSERT(op);
                 emit_and_advance(token_type_length(*op), Highlight_Type::symbol_op);
+                if (is_control_operator(*op)) {
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'}': {
-- 
2.43.0


From 3e6382ea0a69f767f1a7168905def0e2026450c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 056/123] fix: recognize comments at the end of lines in YAML,
 and only after whitespace

---
 include/ulight/impl/lang/yaml.hpp |  4 ++--
 src/main/cpp/lang/yaml.cpp        | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/lang/yaml.hpp b/include/ulight/impl/lang/yaml.hpp
index bee17ed..97ee0b6 100644
--- a/include/ulight/impl/lang/yaml.hpp
+++ b/include/ulight/impl/lang/yaml.hpp
@@ -21,10 +21,10 @@ inline constexpr Charset256 is_yaml_flow_indicator { u8",[]{}" };
 inline constexpr auto is_yaml_word_char = is_ascii_alphanumeric | Charset256(u8"-");
 
 // https://yaml.org/spec/1.2.2/#c-indicator
-// Characters that terminate a plain scalar (flow indicators, #, newline).
+// Characters that terminate a plain scalar (flow indicators, newline).
 // Note: ':' is NOT included here because it only terminates a plain scalar
 // when followed by a separator (space/newline/end). See consume_plain_scalar().
-inline constexpr Charset256 is_yaml_plain_terminator { u8"\r\n,[]{}#" };
+inline constexpr Charset256 is_yaml_plain_terminator { u8"\r\n,[]{}" };
 
 // https://yaml.org/spec/1.2.2/#c-indicator
 // Characters that terminate a tag suffix, anchor name, or alias name.
diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index ff6f955..1e0af58 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -286,6 +286,10 @@ private:
     /// @brief Skip to the next line.
     void skip_line()
     {
+        advance(ascii::length_if(remainder, is_yaml_whitespace));
+        if (remainder.starts_with(u8'#')) {
+            consume_comment();
+        }
         while (!remainder.empty() && !match_line_break(remainder)) {
             advance(1);
         }
@@ -771,6 +775,9 @@ private:
 
         // Check for node properties: tag and/or anchor
         consume_node_properties();
+        if (remainder.starts_with(u8'#')) {
+            return;
+        }
 
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
@@ -1226,7 +1233,8 @@ private:
             if (is_yaml_plain_terminator(c)) {
                 break;
             }
-            if (c == u8' ' && length > 0 && length + 1 < remainder.length()
+            // '#' only begins a comment if it is separated by whitespace.
+            if (is_yaml_whitespace(c) && length > 0 && length + 1 < remainder.length()
                 && remainder[length + 1] == u8'#') {
                 break;
             }
-- 
2.43.0


From 9b02ed35f43bf88bfab7388f1af2e6c65d144ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 057/123] fix: let block comments nest in Kotlin and Rust

---
 include/ulight/impl/lang/js.hpp |  5 +++++
 src/main/cpp/lang/js.cpp        | 27 +++++++++++++++++++++++++++
 src/main/cpp/lang/kotlin.cpp    |  4 ++--
 src/main/cpp/lang/rust.cpp      |  4 ++--
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index 606399d..3c95aec 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -268,6 +268,11 @@ struct Comment_Result {
 [[nodiscard]]
 Comment_Result match_block_comment(std::u8string_view str);
 
+/// @brief Like `match_block_comment`,
+/// but block comments nest, like in Kotlin and Rust.
+[[nodiscard]]
+Comment_Result match_nested_block_comment(std::u8string_view str);
+
 /// @brief Returns the length of a JavaScript line comment at the start of `str`, if any.
 /// Returns zero if there is no line comment.
 /// In any case, the length does not include the terminating newline character.
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index f4bb479..a8ede70 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -220,6 +220,33 @@ Comment_Result match_block_comment(std::u8string_view s)
     return Comment_Result { .length = s.length(), .is_terminated = false };
 }
 
+Comment_Result match_nested_block_comment(std::u8string_view s)
+{
+    if (!s.starts_with(u8"/*")) {
+        return {};
+    }
+
+    std::size_t length = 2; // Skip /*
+    std::size_t depth = 1;
+    while (length + 1 < s.length()) {
+        if (s[length] == u8'*' && s[length + 1] == u8'/') {
+            length += 2;
+            if (--depth == 0) {
+                return Comment_Result { .length = length, .is_terminated = true };
+            }
+        }
+        else if (s[length] == u8'/' && s[length + 1] == u8'*') {
+            length += 2;
+            ++depth;
+        }
+        else {
+            ++length;
+        }
+    }
+
+    return Comment_Result { .length = s.length(), .is_terminated = false };
+}
+
 std::size_t match_hashbang_comment(std::u8string_view s)
 {
     if (!s.starts_with(u8"#!")) {
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index dabfe21..5dcfd9b 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -163,8 +163,8 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 using cpp::match_identifier;
 
 using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
+using js::match_nested_block_comment;
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
 {
@@ -293,7 +293,7 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Comment_Result block_comment = match_nested_block_comment(remainder)) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index e097815..7b1d8ba 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -254,8 +254,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
 }
 
 using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
+using js::match_nested_block_comment;
 
 namespace {
 
@@ -325,7 +325,7 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Comment_Result block_comment = match_nested_block_comment(remainder)) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
-- 
2.43.0


From 0c6abfbce04bcc10eb2362f30734589c0e5affa7 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 058/123] fix: recognize all operators, conditional jumps and
 vector registers in NASM

---
 src/main/cpp/lang/nasm.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 5f77c99..3e40c8e 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -73,7 +73,9 @@ std::size_t match_operator(std::u8string_view str)
     case u8':':
     case u8'+':
     case u8'-':
+    case u8'*':
     case u8'~': return 1;
+    case u8'=': return str.starts_with(u8"==") ? 2 : 1;
     case u8'!': return str.starts_with(u8"!=") ? 2 : 1;
     case u8'|': return str.starts_with(u8"||") ? 2 : 1;
     case u8'&': return str.starts_with(u8"&&") ? 2 : 1;
@@ -88,6 +90,7 @@ std::size_t match_operator(std::u8string_view str)
             : str.starts_with(u8"<=>")  ? 3
             : str.starts_with(u8"<<")   ? 2
             : str.starts_with(u8"<=")   ? 2
+            : str.starts_with(u8"<>")   ? 2
                                         : 1;
     case u8'/': return str.starts_with(u8"//") ? 2 : 1;
     case u8'%': return str.starts_with(u8"%%") ? 2 : 1;
@@ -248,17 +251,17 @@ constexpr std::u8string_view registers[] {
     u8"xmm0", u8"xmm1", u8"xmm10", u8"xmm11", u8"xmm12", u8"xmm13", u8"xmm14", u8"xmm15",
     u8"xmm16", u8"xmm17", u8"xmm18", u8"xmm19", u8"xmm2", u8"xmm20", u8"xmm21", u8"xmm22",
     u8"xmm23", u8"xmm24", u8"xmm25", u8"xmm26", u8"xmm27", u8"xmm28", u8"xmm29", u8"xmm3",
-    u8"xmm31", u8"xmm32", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
+    u8"xmm30", u8"xmm31", u8"xmm32", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
 
     u8"ymm0", u8"ymm1", u8"ymm10", u8"ymm11", u8"ymm12", u8"ymm13", u8"ymm14", u8"ymm15",
     u8"ymm16", u8"ymm17", u8"ymm18", u8"ymm19", u8"ymm2", u8"ymm20", u8"ymm21", u8"ymm22",
     u8"ymm23", u8"ymm24", u8"ymm25", u8"ymm26", u8"ymm27", u8"ymm28", u8"ymm29", u8"ymm3",
-    u8"ymm31", u8"ymm32", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
+    u8"ymm30", u8"ymm31", u8"ymm32", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
 
     u8"zmm0", u8"zmm1", u8"zmm10", u8"zmm11", u8"zmm12", u8"zmm13", u8"zmm14", u8"zmm15",
     u8"zmm16", u8"zmm17", u8"zmm18", u8"zmm19", u8"zmm2", u8"zmm20", u8"zmm21", u8"zmm22",
     u8"zmm23", u8"zmm24", u8"zmm25", u8"zmm26", u8"zmm27", u8"zmm28", u8"zmm29", u8"zmm3",
-    u8"zmm31", u8"zmm32", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
+    u8"zmm30", u8"zmm31", u8"zmm32", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
 };
 // clang-format on
 
@@ -267,10 +270,11 @@ static_assert(std::ranges::is_sorted(registers));
 constexpr std::u8string_view label_instructions[] {
     u8"call",
 
-    u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"je",   u8"jg",  u8"jge",
-    u8"jl",   u8"jle",   u8"jmp",    u8"jna",    u8"jna",   u8"jnae", u8"jnb", u8"jnbe",
-    u8"jnc",  u8"jne",   u8"jng",    u8"jnge",   u8"jnl",   u8"jnle", u8"jno", u8"jnp",
-    u8"jnz",  u8"jo",    u8"jp",     u8"jpe",    u8"jpo",   u8"js",   u8"jz",
+    u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"jcxz", u8"je",   u8"jecxz",
+    u8"jg",   u8"jge",   u8"jl",     u8"jle",    u8"jmp",   u8"jna",  u8"jnae", u8"jnb",
+    u8"jnbe", u8"jnc",   u8"jne",    u8"jng",    u8"jnge",  u8"jnl",  u8"jnle", u8"jno",
+    u8"jnp",  u8"jns",   u8"jnz",    u8"jo",     u8"jp",    u8"jpe",  u8"jpo",  u8"jrcxz",
+    u8"js",   u8"jz",
 
     u8"loop", u8"loope", u8"loopne", u8"loopnz", u8"loopz",
 };
-- 
2.43.0


From c21bf3bca8e013e0d15de94dbeef91dfd4ac4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 059/123] fix: tokens of Kotlin: super, =>, !==, ..<, and words
 that begin with in and is after !

---
 include/ulight/impl/lang/kotlin.hpp |  4 +++-
 src/main/cpp/lang/kotlin.cpp        | 19 +++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 6036cce..b57f891 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -14,6 +14,7 @@ namespace ulight::kotlin {
 #define ULIGHT_KOTLIN_TOKEN_ENUM_DATA(F)                                                           \
     F(excl, "!", symbol_op)                                                                        \
     F(excl_eq, "!=", symbol_op)                                                                    \
+    F(excl_eqeq, "!==", symbol_op)                                                                 \
     F(not_in, "!in", keyword)                                                                      \
     F(not_is, "!is", keyword)                                                                      \
     F(quote_open, "\"", string_delim)                                                              \
@@ -37,6 +38,7 @@ namespace ulight::kotlin {
     F(dot, ".", symbol_punc)                                                                       \
     F(range, "..", symbol_punc)                                                                    \
     F(reserved, "...", symbol_punc)                                                                \
+    F(range_until, "..<", symbol_punc)                                                             \
     F(div, "/", symbol_op)                                                                         \
     F(div_assignment, "/=", symbol_op)                                                             \
     F(colon, ":", symbol_punc)                                                                     \
@@ -118,7 +120,7 @@ namespace ulight::kotlin {
     F(sealed, "sealed", keyword)                                                                   \
     F(set, "set", keyword)                                                                         \
     F(setparam, "setparam", keyword)                                                               \
-    F(super, "super@", keyword_this)                                                               \
+    F(super, "super", keyword_this)                                                                \
     F(super_at, "super@", keyword_this)                                                            \
     F(suspend, "suspend", keyword)                                                                 \
     F(this_, "this", keyword_this)                                                                 \
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 5dcfd9b..8f776c0 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -105,10 +105,13 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!':
-        return str.starts_with(u8"!=") ? excl_eq
-            : str.starts_with(u8"!in") ? not_in
-            : str.starts_with(u8"!is") ? not_is
-                                       : excl;
+        // The keywords have to be followed by something else than the rest of an identifier,
+        // such as in "!initialized".
+        return str.starts_with(u8"!==")                                         ? excl_eqeq
+            : str.starts_with(u8"!=")                                           ? excl_eq
+            : str.starts_with(u8"!in") && cpp::match_identifier(str.substr(1)) == 2 ? not_in
+            : str.starts_with(u8"!is") && cpp::match_identifier(str.substr(1)) == 2 ? not_is
+                                                                                : excl;
     case u8'"': return str.starts_with(u8"\"\"\"") ? triple_quote_open : quote_open;
     case u8'#': return hash;
     case u8'%': return str.starts_with(u8"%=") ? mod_assignment : mod;
@@ -124,7 +127,11 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
             : str.starts_with(u8"-=")  ? sub_assignment
             : str.starts_with(u8"->")  ? arrow
                                        : sub;
-    case u8'.': return str.starts_with(u8"...") ? reserved : str.starts_with(u8"..") ? range : dot;
+    case u8'.':
+        return str.starts_with(u8"...")  ? reserved
+            : str.starts_with(u8"..<") ? range_until
+            : str.starts_with(u8"..")  ? range
+                                       : dot;
     case u8'/': return str.starts_with(u8"/=") ? div_assignment : div;
     case u8':': return str.starts_with(u8"::") ? coloncolon : colon;
     case u8';': return str.starts_with(u8";;") ? double_semicolon : semicolon;
@@ -132,7 +139,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     case u8'=':
         return str.starts_with(u8"===") ? eqeqeq
             : str.starts_with(u8"==")   ? eqeq
-            : str.starts_with(u8">=")   ? double_arrow
+            : str.starts_with(u8"=>")   ? double_arrow
                                         : assignment;
     case u8'>': return str.starts_with(u8">=") ? ge : rangle;
     case u8'?':
-- 
2.43.0


From 87047fe702e121e2c62aaaeb0cacb5c407ddcf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 060/123] fix: <:: is always <: and : in C

---
 src/main/cpp/lang/cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 3d82896..62aa5e8 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -492,7 +492,8 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
     case u8')': return right_parens;
     case u8'<': {
         // https://eel.is/c++draft/lex.pptoken#4.2
-        if (str.starts_with(u8"<::") && !str.starts_with(u8"<:::") && !str.starts_with(u8"<::>")) {
+        if (is_cpp && str.starts_with(u8"<::") && !str.starts_with(u8"<:::")
+            && !str.starts_with(u8"<::>")) {
             return less;
         }
         return is_cpp && str.starts_with(u8"<=>") ? three_way
-- 
2.43.0


From 3b5c4a4d987434bc4f08ac6733d9874e03961086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 061/123] fix: NASM identifiers such as "each" are not
 hexadecimal numbers

---
 src/main/cpp/lang/nasm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3e40c8e..3d802a3 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -567,6 +567,10 @@ private:
     bool expect_suffixed_number()
     {
         // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html#section-3.4.1
+        // Numbers need to begin with a decimal digit; "each" is an identifier.
+        if (!is_ascii_digit(remainder[0])) {
+            return false;
+        }
         const Suffix_Number_Result suffixed
             = match_suffix_number(remainder, Constant<&determine_suffix> {}, digit_separator);
         if (!suffixed) {
-- 
2.43.0


From 9ccb712ece3d4217e568847ca1a03c091acc90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 062/123] fix: the digraph %> is a closing brace

---
 src/main/cpp/lang/cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 62aa5e8..cc4ee59 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -482,7 +482,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
         return str.starts_with(u8"%:%:") ? pound_pound_alt
             : str.starts_with(u8"%:")    ? pound_alt
             : str.starts_with(u8"%=")    ? percent_eq
-            : str.starts_with(u8"%>")    ? right_square_alt
+            : str.starts_with(u8"%>")    ? right_brace_alt
                                          : percent;
     case u8'{': return left_brace;
     case u8'}': return right_brace;
-- 
2.43.0


From e3acd34f206ca9dfd1bbeaee5bf9819b8e4b366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 063/123] fix: only start comments at the beginning of words in
 Bash

---
 src/main/cpp/lang/bash.cpp | 52 ++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index e9ff728..8ec61c1 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -188,20 +188,31 @@ private:
         while (!remainder.empty()) {
             switch (remainder[0]) {
             case u8'\\': {
+                if (!remainder.starts_with(u8"\\\n")) {
+                    update_state_within_word();
+                }
                 consume_escape_character();
                 continue;
             }
             case u8'\'': {
                 const String_Result string = match_single_quoted_string(remainder);
                 highlight_string(string);
+                update_state_within_word();
                 continue;
             }
             case u8'"': {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 consume_double_quoted_string();
+                update_state_within_word();
                 continue;
             }
             case u8'#': {
+                // https://www.gnu.org/software/bash/manual/bash.html#Comments
+                // Within a word, # has no special meaning.
+                if (state != State::before_command && state != State::before_argument) {
+                    consume_word(context);
+                    continue;
+                }
                 const std::size_t length = match_comment(remainder);
                 emit_and_advance(1, Highlight_Type::comment_delim);
                 if (length > 1) {
@@ -213,9 +224,7 @@ private:
             case u8'\t': {
                 const std::size_t length = match_blank(remainder);
                 advance(length);
-                if (state == State::in_command || state == State::in_argument) {
-                    state = State::before_argument;
-                }
+                update_state_after_word();
                 continue;
             }
             case u8'\v':
@@ -238,6 +247,7 @@ private:
                 emit_and_advance(1, Highlight_Type::symbol_parens);
                 state = State::before_command;
                 consume_commands(Context::subshell);
+                update_state_after_word();
                 continue;
             }
             case u8')': {
@@ -271,6 +281,9 @@ private:
                 if (is_control_operator(*op)) {
                     state = State::before_command;
                 }
+                else {
+                    update_state_after_word();
+                }
                 continue;
             }
             case u8'}': {
@@ -289,6 +302,25 @@ private:
         }
     }
 
+    /// @brief Updates the state after part of a word other than unquoted characters was consumed.
+    void update_state_within_word()
+    {
+        if (state == State::before_command) {
+            state = State::in_command;
+        }
+        else if (state == State::before_argument) {
+            state = State::in_argument;
+        }
+    }
+
+    /// @brief Updates the state after a character that ends the current word, if any.
+    void update_state_after_word()
+    {
+        if (state == State::in_command || state == State::in_argument) {
+            state = State::before_argument;
+        }
+    }
+
     void consume_word(Context context)
     {
         std::size_t length = 0;
@@ -388,14 +420,6 @@ private:
         ULIGHT_ASSERT(remainder.size() >= 2 && remainder.starts_with(u8'$'));
         const char8_t next = remainder[1];
 
-        const auto update_state = [&] {
-            if (state == State::before_command) {
-                state = State::in_command;
-            }
-            else if (state == State::before_argument) {
-                state = State::in_argument;
-            };
-        };
         // The commands within a substitution have no influence
         // on the role of the word which contains the substitution.
         const auto consume_nested = [&](State nested_state, Context context) {
@@ -403,7 +427,7 @@ private:
             state = nested_state;
             consume_commands(context);
             state = outer_state;
-            update_state();
+            update_state_within_word();
         };
 
         if (next == u8'{') {
@@ -424,12 +448,12 @@ private:
 
         if (is_bash_special_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
-            update_state();
+            update_state_within_word();
             return;
         }
         if (const std::size_t id = match_identifier(remainder.substr(1))) {
             emit_and_advance(id + 1, Highlight_Type::string_interpolation);
-            update_state();
+            update_state_within_word();
             return;
         }
         ULIGHT_ASSERT_UNREACHABLE(u8"No substitution to consume.");
-- 
2.43.0


From 6b2b33b7c646f3d495dccd6b4cce2ab470b4e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 064/123] fix: treat CRLF after a backslash as one line break
 in CSS, Python and Rust strings

---
 src/main/cpp/lang/css.cpp    | 7 ++++++-
 src/main/cpp/lang/python.cpp | 5 +++++
 src/main/cpp/lang/rust.cpp   | 9 ++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 06fdeb3..f00e3e2 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -95,10 +95,15 @@ std::size_t match_escaped_code_point(std::u8string_view str)
     }
     if (length != 0) {
         if (length < str.length() && is_css_whitespace(str[length])) {
-            ++length;
+            // https://www.w3.org/TR/css-syntax-3/#input-preprocessing
+            // CRLF is a single newline.
+            length += str.substr(length).starts_with(u8"\r\n") ? 2 : 1;
         }
         return length;
     }
+    if (str.starts_with(u8"\r\n")) {
+        return 2;
+    }
     return std::min(std::size_t(utf8::sequence_length(str[0], 1)), str.length());
 }
 
diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 396cb14..c224db3 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -425,6 +425,11 @@ private:
                     // However, a backslash still prevents the next source character from
                     // terminating the literal early, so they must be consumed together.
                     const std::u8string_view escaped_units = remainder.substr(1);
+                    if (escaped_units.starts_with(u8"\r\n")) {
+                        // CRLF is a single line break.
+                        emit_and_advance(3, Highlight_Type::string);
+                        continue;
+                    }
                     const auto [_, units] = utf8::decode_and_length_or_replacement(escaped_units);
                     const auto highlight = string_prefix_is_byte(prefix) && units != 1
                         ? Highlight_Type::error
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 7b1d8ba..aa78d53 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -180,6 +180,11 @@ Escape_Result match_escape_sequence(const std::u8string_view str, String_Type ty
     case u8'0':
     case u8'\n': return { .length = 2 };
 
+    // https://doc.rust-lang.org/reference/input-format.html#crlf-normalization
+    case u8'\r':
+        return str.starts_with(u8"\\\r\n") ? Escape_Result { .length = 3 }
+                                             : Escape_Result { .length = 1, .erroneous = true };
+
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
 
     // TODO: increase error accuracy
@@ -434,7 +439,9 @@ private:
             if (!escape) {
                 return false;
             }
-            if (escape.length == 2 && remainder[content_start + 1] == u8'\n') {
+            if (escape.length >= 2
+                && (remainder[content_start + 1] == u8'\n'
+                    || remainder[content_start + 1] == u8'\r')) {
                 // Handle the case of a STRING_CONTINUE in a CHAR_LITERAL,
                 // which we may have matched with match_escape_sequence, but is not allowed.
                 return false;
-- 
2.43.0


From 626639e13814107c2c1f4d00f9b92ba98b353639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 065/123] fix: end regular expression literals in JavaScript
 where the specification says

---
 src/main/cpp/lang/js.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index a8ede70..88c3d6a 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1472,17 +1472,28 @@ private:
 
         rem.remove_prefix(1);
 
-        auto escaped = false;
+        bool escaped = false;
+        // Within a class such as "[/]", a slash does not end the literal.
+        bool in_class = false;
 
         for (std::size_t size = 0; size < rem.length(); ++size) {
             const char8_t c = rem[size];
 
+            if (starts_with_line_terminator(rem.substr(size))) {
+                break;
+            }
             if (escaped) {
                 escaped = false;
             }
             else if (c == u8'\\') {
                 escaped = true;
             }
+            else if (in_class) {
+                in_class = c != u8']';
+            }
+            else if (c == u8'[') {
+                in_class = true;
+            }
             else if (c == u8'/') {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 emit_and_advance(size, Highlight_Type::string);
@@ -1493,9 +1504,6 @@ private:
                 input_element = Input_Element::div;
                 return true;
             }
-            else if (starts_with_line_terminator(rem.substr(size))) {
-                break;
-            }
         }
 
         return false;
-- 
2.43.0


From 876c559a2475a2b05d530f100162bc032f8f2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 066/123] fix: comments have no influence on whether a slash
 begins a regular expression in JavaScript

---
 src/main/cpp/lang/js.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 88c3d6a..7e0a7d5 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1236,8 +1236,21 @@ private:
     bool expect_whitespace()
     {
         const std::size_t white_length = match_whitespace(remainder);
+        if (white_length == 0) {
+            return false;
+        }
         advance(white_length);
-        return white_length != 0;
+        update_input_element_after_trivia();
+        return true;
+    }
+
+    /// @brief Whitespace and comments have no influence on whether a regex literal can follow,
+    /// but there cannot be a hashbang comment anymore.
+    void update_input_element_after_trivia()
+    {
+        if (input_element == Input_Element::hashbang_or_regex) {
+            input_element = Input_Element::regex;
+        }
     }
 
     bool expect_hashbang_comment()
@@ -1256,6 +1269,7 @@ private:
         if (hashbang_length > 2) {
             emit_and_advance(hashbang_length - 2, Highlight_Type::comment);
         }
+        update_input_element_after_trivia();
         return true;
     }
 
@@ -1275,7 +1289,7 @@ private:
         if (length > 2) {
             emit_and_advance(length - 2, Highlight_Type::comment);
         }
-        input_element = Input_Element::regex;
+        update_input_element_after_trivia();
     }
 
     bool expect_block_comment()
@@ -1301,7 +1315,7 @@ private:
             emit(index + block_comment.length - 2, 2, Highlight_Type::comment_delim); // */
         }
         advance(block_comment.length);
-        input_element = Input_Element::regex;
+        update_input_element_after_trivia();
     }
 
     bool expect_string_literal()
-- 
2.43.0


From f6ffa40c96d24bd1a0c16356470f86f2a3881da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 067/123] fix: a regular expression can follow "else" and "do"
 in JavaScript

---
 src/main/cpp/lang/js.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7e0a7d5..4004e49 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -120,6 +120,8 @@ constexpr bool token_type_is_expr_keyword(Token_Type type)
     case kw_return:
     case kw_throw:
     case kw_case:
+    case kw_do:
+    case kw_else:
     case kw_delete:
     case kw_void:
     case kw_typeof:
-- 
2.43.0


From 510a308ae4b74160956b8f5b12f703fa44811a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 068/123] fix: include the closing question mark in special
 sequences of EBNF

---
 src/main/cpp/lang/ebnf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/ebnf.cpp b/src/main/cpp/lang/ebnf.cpp
index 0034fe1..9aa53a4 100644
--- a/src/main/cpp/lang/ebnf.cpp
+++ b/src/main/cpp/lang/ebnf.cpp
@@ -347,7 +347,9 @@ private:
     void consume_special_sequence()
     {
         ULIGHT_ASSERT(remainder.starts_with(u8'?'));
-        const std::size_t length = ascii::length_until(remainder, u8'?', 1);
+        const std::size_t closing_pos = remainder.find(u8'?', 1);
+        const std::size_t length
+            = closing_pos == std::u8string_view::npos ? remainder.length() : closing_pos + 1;
         emit_and_advance(length, Highlight_Type::name_macro);
     }
 };
-- 
2.43.0


From 4f58c06e86e7ab6aa720b8df36ad070df3804aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 069/123] fix: recognize character references such as &#X41; in
 HTML

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 7b0a5d6..039d9e4 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -31,7 +31,7 @@ constexpr std::u8string_view doctype_prefix = u8"<!DOCTYPE";
 
 bool is_character_reference_content(std::u8string_view str)
 {
-    if (str.starts_with(u8"#x")) {
+    if (str.starts_with(u8"#x") || str.starts_with(u8"#X")) {
         return str.length() > 2 && std::ranges::all_of(str.substr(2), is_ascii_hex_digit);
     }
     if (str.starts_with(u8'#')) {
-- 
2.43.0


From 5fcb6a106aa05486055f514f22e6a3fd69217955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 070/123] fix: recognize references to entities such as &a_b;
 in XML

---
 src/main/cpp/lang/xml.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 16aae3f..4b4c5c8 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -200,6 +200,20 @@ std::size_t match_pe_reference(const std::u8string_view str)
     return success ? result + 1 : 0;
 }
 
+/// Matches a character reference or entity reference.
+[[nodiscard]]
+std::size_t match_reference(const std::u8string_view str)
+{
+    // https://www.w3.org/TR/xml/#NT-Reference
+    if (const std::size_t result = html::match_character_reference(str)) {
+        return result;
+    }
+    const std::size_t result = match_pe_reference(str);
+    return result > 2 && is_xml_name_start(utf8::decode_and_length_or_replacement(str.substr(1)).code_point)
+        ? result
+        : 0;
+}
+
 struct XML_Highlighter : Highlighter_Base {
 
     [[nodiscard]]
@@ -530,8 +544,7 @@ private:
 
     bool expect_reference()
     {
-        // https://www.w3.org/TR/xml/#NT-CharRef
-        if (std::size_t ref_length = html::match_character_reference(remainder)) {
+        if (std::size_t ref_length = match_reference(remainder)) {
             emit_and_advance(ref_length, Highlight_Type::string_escape);
             return true;
         }
@@ -631,14 +644,14 @@ private:
         while (!remainder.empty() && piece_length < remainder.length()
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
-            if ((remainder[piece_length] == u8'&' && !html::match_character_reference(candidate))
+            if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
                 || remainder[piece_length] == u8'<') {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
             }
             else if (remainder[piece_length] == u8'&'
-                     && html::match_character_reference(candidate)) {
+                     && match_reference(candidate)) {
                 highlight_piece();
                 expect_reference();
                 piece_length = 0;
-- 
2.43.0


From 08f1607103162f66e94a929b6763d971e7eb398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 071/123] fix: the contents of XML processing instructions can
 contain "xml"

---
 src/main/cpp/lang/xml.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 4b4c5c8..c158110 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -498,11 +498,6 @@ private:
             return true;
         }
 
-        const std::u8string_view target_name = remainder.substr(0, name_length);
-        if (ascii::contains_ignore_case(target_name, u8"xml")) {
-            return true;
-        }
-
         expect_whitespace();
 
         while (!remainder.empty() && !remainder.starts_with(u8"?>")) {
-- 
2.43.0


From 0db839781d9baad4d97d7ef50e9c045ae25385ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 072/123] fix: XML document type declarations need no internal
 subset

---
 src/main/cpp/lang/xml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index c158110..3c0623d 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -366,7 +366,7 @@ private:
         if (match_external_id_type(remainder)) {
             expect_external_id();
         }
-        else if (!remainder.starts_with(u8'[')) {
+        else if (!remainder.starts_with(u8'[') && !remainder.starts_with(u8'>')) {
             const std::size_t word_len = ascii::length_if_not(remainder, is_xml_whitespace);
             advance(word_len);
 
@@ -382,6 +382,10 @@ private:
         }
 
         expect_whitespace();
+        if (remainder.starts_with(u8'>')) {
+            emit_and_advance(1, Highlight_Type::name_macro);
+            return true;
+        }
         if (!remainder.starts_with(u8'[')) {
             return true;
         }
-- 
2.43.0


From f4dd0bbb692716e0944a22f493eac6d58a178d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 073/123] fix: highlight XML declarations with quoted version
 numbers and whitespace

---
 src/main/cpp/lang/xml.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 3c0623d..4838c63 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -417,13 +417,17 @@ private:
     bool expect_xml_decl()
     {
         // https://www.w3.org/TR/xml/#NT-XMLDecl
-        if (!remainder.starts_with(xml_tag)) {
+        if (!remainder.starts_with(xml_tag)
+            || !match_whitespace(remainder.substr(xml_tag.size()))) {
             return false;
         }
         emit_and_advance(xml_tag.size(), Highlight_Type::name_macro);
         expect_whitespace();
 
-        const auto highlight_number = [&]() {
+        const auto expect_version = [&]() {
+            if (expect_attribute_value()) {
+                return;
+            }
             Common_Number_Result num_result
                 = match_common_number(remainder, Common_Number_Options {});
             if (num_result.integer) {
@@ -446,18 +450,20 @@ private:
                 return;
             }
             emit_and_advance(attr_name.size(), Highlight_Type::markup_attr);
+            expect_whitespace();
 
             if (!remainder.starts_with(u8'=')) {
                 return;
             }
             emit_and_advance(1, Highlight_Type::symbol_punc);
+            expect_whitespace();
 
             if (!remainder.empty()) {
                 expect_val();
             }
         };
 
-        highlight_decl_attr(decltype_version_attr, highlight_number);
+        highlight_decl_attr(decltype_version_attr, expect_version);
         expect_whitespace();
 
         highlight_decl_attr(decltype_encoding_attr, expect_string);
-- 
2.43.0


From 328e94b45386a69e6da5cd1b5a8cf43cfefe77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 074/123] fix: names in XML declarations can begin with a
 keyword

---
 src/main/cpp/lang/xml.cpp | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 4838c63..327b46d 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -97,35 +97,21 @@ std::size_t match_default_decl_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_external_id_type(const std::u8string_view str)
 {
-    if (str.starts_with(external_id_public)) {
-        return external_id_public.size();
-    }
-
-    if (str.starts_with(external_id_system)) {
-        return external_id_system.size();
-    }
-
-    return 0;
+    const std::u8string_view word = str.substr(0, match_name(str));
+    return word == external_id_public || word == external_id_system ? word.size() : 0;
 }
 
 [[nodiscard]]
 std::size_t match_content_spec_type(const std::u8string_view str)
 {
-    if (str.starts_with(content_spec_empty)) {
-        return content_spec_empty.size();
-    }
-
-    if (str.starts_with(content_spec_any)) {
-        return content_spec_any.size();
-    }
-
-    return 0;
+    const std::u8string_view word = str.substr(0, match_name(str));
+    return word == content_spec_empty || word == content_spec_any ? word.size() : 0;
 }
 
 [[nodiscard]]
 std::size_t match_ndata_decl(const std::u8string_view str)
 {
-    return str.starts_with(ndata_decl_string) ? ndata_decl_string.size() : 0;
+    return str.substr(0, match_name(str)) == ndata_decl_string ? ndata_decl_string.size() : 0;
 }
 
 [[nodiscard]]
-- 
2.43.0


From 40ae40131fda1d4b7b16b87d90d1a81c2c27bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 075/123] fix: the values of XML entities can contain "<"

---
 src/main/cpp/lang/xml.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 327b46d..d29eb19 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -272,6 +272,7 @@ private:
         constexpr auto after_markup_decl_name
             = [](std::u8string_view str) { return match_whitespace(str); };
 
+        const bool is_entity = remainder.starts_with(u8"ENTITY");
         expect_name(Highlight_Type::name_macro, after_markup_decl_name);
         expect_whitespace();
 
@@ -318,7 +319,8 @@ private:
                 emit_and_advance(name_len, Highlight_Type::name);
             }
             else if (remainder.starts_with(u8'\'') || remainder.starts_with(u8'"')) {
-                expect_attribute_value();
+                // https://www.w3.org/TR/xml/#NT-EntityValue
+                expect_attribute_value(is_entity);
             }
             else {
                 const std::size_t len = ascii::length_if_not(remainder, [](char8_t c) {
@@ -608,7 +610,7 @@ private:
         return expect_attribute_value();
     }
 
-    bool expect_attribute_value()
+    bool expect_attribute_value(bool allow_less_than = false)
     {
         // https://www.w3.org/TR/xml/#NT-AttValue
         char8_t quote_type;
@@ -636,7 +638,7 @@ private:
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
             if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
-                || remainder[piece_length] == u8'<') {
+                || (remainder[piece_length] == u8'<' && !allow_less_than)) {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
-- 
2.43.0


From 85405081cbe60c8c8b4a4826c6dfe649ed4942cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 076/123] fix: names in XML declarations end before ">"

---
 src/main/cpp/lang/xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index d29eb19..17d685b 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -270,7 +270,7 @@ private:
 
         emit_and_advance(2, Highlight_Type::name_macro);
         constexpr auto after_markup_decl_name
-            = [](std::u8string_view str) { return match_whitespace(str); };
+            = [](std::u8string_view str) { return match_whitespace(str) || str.starts_with(u8'>'); };
 
         const bool is_entity = remainder.starts_with(u8"ENTITY");
         expect_name(Highlight_Type::name_macro, after_markup_decl_name);
-- 
2.43.0


From 9b8a2bab01f2b487dfbf45e5500e5953de24f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 077/123] fix: NASM identifiers can contain "#" and "~" but no
 "-"

---
 include/ulight/impl/lang/nasm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/nasm.hpp b/include/ulight/impl/lang/nasm.hpp
index 4c0a95a..78a9eeb 100644
--- a/include/ulight/impl/lang/nasm.hpp
+++ b/include/ulight/impl/lang/nasm.hpp
@@ -12,7 +12,7 @@ namespace ulight::nasm {
 inline constexpr auto is_nasm_identifier_start = is_ascii_alpha | Charset256(u8"._?$");
 
 // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html
-inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$@-.?");
+inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$#@~.?");
 
 [[nodiscard]]
 bool is_pseudo_instruction(std::u8string_view name) noexcept;
-- 
2.43.0


From f0b15a113130b18b86d56f50ce205997ef885782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 078/123] fix: recognize raw identifiers in Rust

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index aa78d53..78eff69 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -311,8 +311,8 @@ private:
             || expect_string_literal() //
             || expect_number() //
             || expect_lifetime_token() //
-            || expect_identifier_or_keyword() //
             || expect_raw_identifier() //
+            || expect_identifier_or_keyword() //
             || expect_punctuation();
     }
 
-- 
2.43.0


From 44c7cfa08186f9cc7cd7f839ef459ad086c9b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 079/123] fix: "#" and "$" are punctuation in Rust

---
 include/ulight/impl/lang/rust.hpp | 2 ++
 src/main/cpp/lang/rust.cpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/ulight/impl/lang/rust.hpp b/include/ulight/impl/lang/rust.hpp
index 8a5a339..1de126d 100644
--- a/include/ulight/impl/lang/rust.hpp
+++ b/include/ulight/impl/lang/rust.hpp
@@ -35,6 +35,8 @@ inline constexpr struct Is_Rust_Whitespace {
 #define ULIGHT_RUST_TOKEN_ENUM_DATA(F)                                                             \
     F(exclamation, "!", symbol_op)                                                                 \
     F(exclamation_eq, "!=", symbol_op)                                                             \
+    F(pound, "#", symbol_punc)                                                                     \
+    F(dollar, "$", symbol_punc)                                                                    \
     F(percent, "%", symbol_op)                                                                     \
     F(percent_eq, "%=", symbol_op)                                                                 \
     F(amp, "&", symbol_op)                                                                         \
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 78eff69..6e4e19b 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -206,6 +206,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!': return str.starts_with(u8"!=") ? exclamation_eq : exclamation;
+    case u8'#': return pound;
+    case u8'$': return dollar;
     case u8'%': return str.starts_with(u8"%=") ? percent_eq : percent;
     case u8'&':
         return str.starts_with(u8"&&") ? amp_amp //
-- 
2.43.0


From fd249d55d3acf3b0cb0c001a25d92b17d027a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 080/123] fix: "a!=b" is no macro invocation in Rust

---
 src/main/cpp/lang/rust.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 6e4e19b..cf47e27 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -348,6 +348,14 @@ private:
         return false;
     }
 
+    /// @brief Returns `true` if `str` starts with the `!` of a macro invocation,
+    /// but not with the operator `!=`.
+    [[nodiscard]]
+    static bool is_macro_bang(std::u8string_view str)
+    {
+        return str.starts_with(u8'!') && !str.starts_with(u8"!=");
+    }
+
     bool expect_raw_identifier()
     {
         // https://doc.rust-lang.org/reference/identifiers.html#grammar-RAW_IDENTIFIER
@@ -363,7 +371,7 @@ private:
         if (is_illegal_raw_identifier(id)) {
             emit_and_advance(prefix.length() + id_length, Highlight_Type::error);
         }
-        else if (remainder.substr(prefix.length() + id_length).starts_with(u8'!')) {
+        else if (is_macro_bang(remainder.substr(prefix.length() + id_length))) {
             // https://doc.rust-lang.org/reference/macros.html
             emit_and_advance(prefix.length(), Highlight_Type::name_macro_delim);
             emit_and_advance(id_length, Highlight_Type::name_macro);
@@ -389,7 +397,7 @@ private:
         if (type) {
             emit_and_advance(length, token_type_highlight(*type));
         }
-        else if (remainder.substr(length).starts_with(u8'!')) {
+        else if (is_macro_bang(remainder.substr(length))) {
             emit_and_advance(length, Highlight_Type::name_macro);
             emit_and_advance(1, Highlight_Type::name_macro_delim);
         }
-- 
2.43.0


From c514dcc1374ae6cc6b0562df9251747d6a6417fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 081/123] fix: LLVM labels can contain periods and dollar signs

---
 src/main/cpp/lang/llvm.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8ecd5bb..2e7ca9e 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -292,17 +292,20 @@ private:
 
     bool expect_keyword_or_label()
     {
-        const std::size_t length = match_keyword(remainder);
-        if (!length) {
-            return false;
-        }
-        if (remainder.substr(length).starts_with(u8':')) {
+        // https://llvm.org/docs/LangRef.html#identifiers
+        // Unlike keywords, labels may contain periods and dollar signs.
+        const std::size_t label_length = ascii::length_if(remainder, is_llvm_identifier);
+        if (label_length && remainder.substr(label_length).starts_with(u8':')) {
             // TODO: this is not very robust;
             //       it does not consider intervening whitespace
-            emit_and_advance(length, Highlight_Type::name_label_decl);
+            emit_and_advance(label_length, Highlight_Type::name_label_decl);
             emit_and_advance(1, Highlight_Type::name_label_delim);
             return true;
         }
+        const std::size_t length = match_keyword(remainder);
+        if (!length) {
+            return false;
+        }
 
         const std::u8string_view keyword = remainder.substr(0, length);
         emit_and_advance(length, classify_keyword(keyword));
-- 
2.43.0


From 64a7053fc5156716d69b70835f339bb1b2914aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 082/123] fix: YAML anchors can contain any characters but
 whitespace and flow indicators

---
 include/ulight/impl/lang/yaml.hpp | 6 +++++-
 src/main/cpp/lang/yaml.cpp        | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/lang/yaml.hpp b/include/ulight/impl/lang/yaml.hpp
index 97ee0b6..4f273e7 100644
--- a/include/ulight/impl/lang/yaml.hpp
+++ b/include/ulight/impl/lang/yaml.hpp
@@ -27,9 +27,13 @@ inline constexpr auto is_yaml_word_char = is_ascii_alphanumeric | Charset256(u8"
 inline constexpr Charset256 is_yaml_plain_terminator { u8"\r\n,[]{}" };
 
 // https://yaml.org/spec/1.2.2/#c-indicator
-// Characters that terminate a tag suffix, anchor name, or alias name.
+// Characters that terminate a tag suffix.
 inline constexpr Charset256 is_yaml_word_terminator { u8"\r\n,[]{}# \t&*!" };
 
+// https://yaml.org/spec/1.2.2/#ns-anchor-char
+// Characters that terminate an anchor name or alias name.
+inline constexpr Charset256 is_yaml_anchor_terminator { u8"\r\n,[]{} \t" };
+
 [[nodiscard]]
 std::size_t match_line_break(std::u8string_view str);
 
diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 1e0af58..c91e5e4 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -192,7 +192,7 @@ std::size_t match_anchor(const std::u8string_view str)
     if (!str.starts_with(u8'&')) {
         return 0;
     }
-    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_word_terminator);
+    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_anchor_terminator);
     return name_len > 0 ? 1 + name_len : 0;
 }
 
@@ -202,7 +202,7 @@ std::size_t match_alias(const std::u8string_view str)
     if (!str.starts_with(u8'*')) {
         return 0;
     }
-    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_word_terminator);
+    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_anchor_terminator);
     return name_len > 0 ? 1 + name_len : 0;
 }
 
-- 
2.43.0


From 4f33da4e7664457f54c4258e8c74085f3a860366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 083/123] fix: C preprocessing directives end at the end of the
 line

---
 src/main/cpp/lang/cpp.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index cc4ee59..c69cdc1 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -678,6 +678,16 @@ public:
         return false;
     }
 
+    /// @brief Consumes whitespace up to the end of the line.
+    bool expect_whitespace_in_line()
+    {
+        const std::u8string_view rem = remainder();
+        const std::size_t white_length
+            = std::min(match_whitespace(rem), rem.find_first_of(u8"\r\n"));
+        advance(white_length);
+        return white_length != 0;
+    }
+
     bool expect_line_comment()
     {
         if (const std::size_t line_comment_length = match_line_comment(remainder())) {
@@ -1040,9 +1050,10 @@ public:
         const std::size_t op_length = cpp_token_type_length(*op);
         emit_and_advance(op_length, Highlight_Type::name_macro_delim);
 
+        fresh_line = false;
+
         // Consume whitespace between `#` and the directive name.
-        const std::size_t white = match_whitespace(remainder());
-        advance(white);
+        expect_whitespace_in_line();
 
         const std::size_t id_length = match_identifier(remainder());
         if (id_length == 0) {
@@ -1053,8 +1064,7 @@ public:
 
         // For #include, highlight a `<...>` header name as a string.
         if (directive_name == u8"include") {
-            const std::size_t w2 = match_whitespace(remainder());
-            advance(w2);
+            expect_whitespace_in_line();
             if (remainder().starts_with(u8'<')) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 const std::u8string_view rem = remainder();
-- 
2.43.0


From d66ee0888b0b8ad8b8c1451405cf0a730ec02bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 084/123] fix: no preprocessing directive begins after a
 spliced line end in C and C++

---
 src/main/cpp/lang/cpp.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index c69cdc1..7d7d884 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -671,7 +671,13 @@ public:
     bool expect_whitespace()
     {
         if (const std::size_t white_length = match_whitespace(remainder())) {
-            fresh_line |= remainder().substr(0, white_length).contains(u8'\n');
+            std::u8string_view white = remainder().substr(0, white_length);
+            // https://eel.is/c++draft/lex.phases#1.2
+            // A line end following a backslash does not end the logical line.
+            if (index != 0 && source[index - 1] == u8'\\') {
+                white.remove_prefix(std::min(white.find(u8'\n'), white.length() - 1) + 1);
+            }
+            fresh_line |= white.contains(u8'\n');
             index += white_length;
             return true;
         }
-- 
2.43.0


From 5bd26c7802057c55ca747a7d35c724237dd14089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 085/123] fix: <close> is an attribute in Lua

---
 include/ulight/impl/lang/lua.hpp |  5 +++++
 src/main/cpp/lang/lua.cpp        | 30 +++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/ulight/impl/lang/lua.hpp b/include/ulight/impl/lang/lua.hpp
index 36f79a9..b971a2b 100644
--- a/include/ulight/impl/lang/lua.hpp
+++ b/include/ulight/impl/lang/lua.hpp
@@ -169,6 +169,11 @@ std::size_t match_number(std::u8string_view str);
 [[nodiscard]]
 std::size_t match_identifier(std::u8string_view str);
 
+/// @brief If `str` starts with an attribute such as `<const>`,
+/// returns the length of that attribute, otherwise zero.
+[[nodiscard]]
+std::size_t match_attribute(std::u8string_view str);
+
 /// @brief Matches a Lua operator or punctuation at the start of `str`.
 [[nodiscard]]
 std::optional<Lua_Token_Type> match_operator_or_punctuation(std::u8string_view str);
diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9e75010..0367bf1 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -420,6 +420,17 @@ std::size_t match_identifier(std::u8string_view str)
     return length;
 }
 
+std::size_t match_attribute(std::u8string_view str)
+{
+    // https://www.lua.org/manual/5.4/manual.html#3.3.7
+    for (const std::u8string_view attribute : { u8"<const>", u8"<close>" }) {
+        if (str.starts_with(attribute)) {
+            return attribute.length();
+        }
+    }
+    return 0;
+}
+
 std::optional<Lua_Token_Type> match_operator_or_punctuation(std::u8string_view str)
 {
     using enum Lua_Token_Type;
@@ -459,9 +470,9 @@ std::optional<Lua_Token_Type> match_operator_or_punctuation(std::u8string_view s
             if (str[1] == u8'<') {
                 return left_shift;
             }
-            // <const> is handled separately in the `highlight_lua` function.
-            if (str.length() >= 6 && str.substr(1, 5) == u8"const>") {
-                return {}; // Return empty for <const> so it's handled by the special case
+            // Attributes are handled separately in the `highlight_lua` function.
+            if (match_attribute(str)) {
+                return {};
             }
         }
         return less;
@@ -552,16 +563,13 @@ bool highlight_lua(
     while (index < source.size()) {
         const std::u8string_view remainder = source.substr(index);
 
-        // Special case (s).
-        if (remainder.length() >= 7 && remainder.substr(0, 7) == u8"<const>") {
-            // Emit '<' with attr_delim highlight.
+        // Attributes such as <const>.
+        if (const std::size_t attribute_length = lua::match_attribute(remainder)) {
             emit(index, 1, Highlight_Type::name_attr_delim);
-            // Emit 'const' with attr highlight.
-            emit(index + 1, 5, Highlight_Type::name_attr);
-            // Emit '>' with attr_delim highlight.
-            emit(index + 6, 1, Highlight_Type::name_attr_delim);
+            emit(index + 1, attribute_length - 2, Highlight_Type::name_attr);
+            emit(index + attribute_length - 1, 1, Highlight_Type::name_attr_delim);
 
-            index += 7;
+            index += attribute_length;
             continue;
         }
 
-- 
2.43.0


From 1f7f733fce5ee801bdf631a007d28a39fc7dd924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 086/123] fix: do not rescan HTML text before an ampersand

For every character in front of an ampersand, the text up to the ampersand was
searched again and the next character checked for being a reference, so that
the time was quadratic in the length of the text.
---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 039d9e4..32774d5 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -530,8 +530,8 @@ private:
                 advance(remainder.length());
                 break;
             }
-            if (remainder[safe_length] == u8'<') {
-                advance(safe_length);
+            advance(safe_length);
+            if (remainder.starts_with(u8'<')) {
                 break;
             }
             if (!expect_character_reference()) {
-- 
2.43.0


From ed7a24e03540411f08cab0bd9337c7298ef2bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 087/123] fix: report failed allocations in the JavaScript
 wrapper

The error message named variables that do not exist, so that a ReferenceError
was thrown in place of the documented error, and getLanguageId replaced the
error by a TypeError because it frees what was never allocated.
---
 www/js/ulight.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 7b2ea7d..fff23c4 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -57,9 +57,8 @@ export class UlightWasm {
      * @returns {number} The numeric ID. The special value `0` represents no valid language.
      */
     getLanguageId(name) {
-        let u8string;
+        const u8string = this._allocUtf8(name);
         try {
-            u8string = this._allocUtf8(name);
             return this._exports.ulight_get_lang(u8string.address, u8string.size);
         } finally {
             this._freeUtf8(u8string);
@@ -209,7 +208,7 @@ export class UlightWasm {
     _alloc(size, alignment) {
         const result = this._exports.ulight_alloc(size, alignment);
         if (result === 0) {
-            throw new Error(`Allocation failure in WASM with: bytes=${bytes}, align=${alignment}`);
+            throw new Error(`Allocation failure in WASM with: bytes=${size}, align=${alignment}`);
         }
         return result;
     }
-- 
2.43.0


From c0079096f020877cbd9085c6799319696ea0a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 088/123] fix: read errors in the JavaScript wrapper after the
 memory has grown

The view of the memory that was taken before the call is detached when the
memory grows during the call, and reading the error from it yields undefined.
---
 www/js/ulight.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index fff23c4..7cdab21 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -131,8 +131,9 @@ export class UlightWasm {
 
             const result = this._exports.ulight_source_to_html(state);
             if (result != 0) {
-                const errorAddress = heap32[state / 4 + 16];
-                const errorLength = heap32[state / 4 + 17];
+                // The memory may have grown during the call, which detaches the old view.
+                const errorAddress = this._heap32[state / 4 + 16];
+                const errorLength = this._heap32[state / 4 + 17];
                 const error = this._loadUtf8(errorAddress, errorLength);
                 console.error(`ulight_source_to_html failed with status ${result}:`, error);
                 throw result;
-- 
2.43.0


From f616f738e4461b7d4f30000085946098fb2b30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 089/123] fix: decode the output in the JavaScript wrapper as a
 whole

Every flushed chunk was decoded on its own. A character that was split between
two chunks made toHtml throw, and a byte order mark at the start of a chunk was
removed from the text.
---
 www/js/ulight.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 7cdab21..372ae46 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -100,6 +100,8 @@ export class UlightWasm {
         const sourceData = typeof (source) === "string" ? new TextEncoder().encode(source) : source;
 
         this._bufferedText = "";
+        // Characters may be split between two calls of flush_text.
+        this._textDecoder = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
 
         let u8source = 0;
         let tokenBuffer = 0;
@@ -138,6 +140,7 @@ export class UlightWasm {
                 console.error(`ulight_source_to_html failed with status ${result}:`, error);
                 throw result;
             }
+            this._bufferedText += this._textDecoder.decode();
             return this._bufferedText;
         } finally {
             if (state) {
@@ -261,8 +264,8 @@ export class UlightWasm {
         }
 
         const flushTextFunction = (_, textAddress, textLength) => {
-            const str = this._loadUtf8(textAddress, textLength);
-            this._bufferedText += str;
+            const utf8Bytes = this._heap8.slice(textAddress, textAddress + textLength);
+            this._bufferedText += this._textDecoder.decode(utf8Bytes, { stream: true });
         };
         const flushTextModule = await fetchBytes('f_i32_i32_i32_to_void.wasm')
             .then(bytes => WebAssembly.compile(bytes));
-- 
2.43.0


From 7448c9e4eb827d4faff481ff9a20f79c422b9d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 090/123] fix: do not search the whole text for the end of a
 reference

For every ampersand in HTML and XML, the semicolon was searched up to the end
of the text, so that the time was quadratic in the number of ampersands.
---
 src/main/cpp/lang/html.cpp |  8 ++++++--
 src/main/cpp/lang/xml.cpp  | 14 ++++----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 32774d5..8f33f68 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -52,8 +52,12 @@ std::size_t match_character_reference(std::u8string_view str)
     if (!str.starts_with(u8'&')) {
         return 0;
     }
-    const std::size_t result = str.find(u8';', 1);
-    const bool success = result != std::u8string_view::npos
+    // The content cannot contain other characters,
+    // so we must not search for the semicolon any further than that.
+    const std::size_t result = ascii::find_if_not(
+        str, [](char8_t c) static { return c == u8'#' || is_ascii_alphanumeric(c); }, 1
+    );
+    const bool success = result != std::u8string_view::npos && str[result] == u8';'
         && is_character_reference_content(str.substr(1, result - 1));
     return success ? result + 1 : 0;
 }
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 17d685b..df84ff9 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -164,11 +164,8 @@ std::size_t match_entity_reference(const std::u8string_view str)
     if (!str.starts_with(u8'%')) {
         return 0;
     }
-    const std::size_t result = str.find(u8';', 1);
-    std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
-    return success ? result + 1 : 0;
+    const std::size_t result = 1 + match_name(str.substr(1));
+    return str.substr(result).starts_with(u8';') ? result + 1 : 0;
 }
 
 [[nodiscard]]
@@ -179,11 +176,8 @@ std::size_t match_pe_reference(const std::u8string_view str)
         return 0;
     }
 
-    const std::size_t result = str.find(u8';', 1);
-    const std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
-    return success ? result + 1 : 0;
+    const std::size_t result = 1 + match_name(str.substr(1));
+    return str.substr(result).starts_with(u8';') ? result + 1 : 0;
 }
 
 /// Matches a character reference or entity reference.
-- 
2.43.0


From f20457602a9529848eabb04c24520a45de7d4b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 091/123] fix: do not search for escapes past the end of a
 JavaScript string

The next backslash was searched up to the end of the text for every string
literal, so that the time was quadratic in the number of literals.
---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 4004e49..6eaf1b4 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1365,7 +1365,8 @@ private:
             }
             else {
                 // Find next escape sequence or end of content.
-                const std::size_t next = std::min(remaining, remainder.find(u8'\\'));
+                const std::size_t next
+                    = std::min(remaining, remainder.substr(0, remaining).find(u8'\\'));
                 if (next > 0) {
                     advance(next);
                     chars += next;
-- 
2.43.0


From 7889a6833a8d993065d8fc847e7ca339140f3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 092/123] fix: do not rescan what is no label in LLVM

Within a run of characters that is not followed by a colon, the run was matched
again as a label for every erroneous character and every keyword in it, so that
the time was quadratic in the length of the run.
---
 src/main/cpp/lang/llvm.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 2e7ca9e..d9bb469 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -123,6 +123,11 @@ Highlight_Type classify_keyword(std::u8string_view str)
 }
 
 struct Highlighter : Highlighter_Base {
+private:
+    /// @brief Everything up to this index is known not to be a label.
+    std::size_t no_label_end = 0;
+
+public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
@@ -294,7 +299,8 @@ private:
     {
         // https://llvm.org/docs/LangRef.html#identifiers
         // Unlike keywords, labels may contain periods and dollar signs.
-        const std::size_t label_length = ascii::length_if(remainder, is_llvm_identifier);
+        const std::size_t label_length
+            = index < no_label_end ? 0 : ascii::length_if(remainder, is_llvm_identifier);
         if (label_length && remainder.substr(label_length).starts_with(u8':')) {
             // TODO: this is not very robust;
             //       it does not consider intervening whitespace
@@ -302,6 +308,7 @@ private:
             emit_and_advance(1, Highlight_Type::name_label_delim);
             return true;
         }
+        no_label_end = std::max(no_label_end, index + label_length);
         const std::size_t length = match_keyword(remainder);
         if (!length) {
             return false;
-- 
2.43.0


From fd50534f57c9664fdf350c3689e46345b1b0bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 093/123] fix: do not search for the end of tags that cannot
 end

For every "</" in HTML that is not followed by a ">" anymore, the rest of the
text was searched for one, so that the time was quadratic.
---
 src/main/cpp/lang/html.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 8f33f68..c66d4d0 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -264,7 +264,11 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
 namespace {
 
 struct Highlighter : Highlighter_Base {
+private:
+    /// @brief There is no ">" at or after this index, so no tag can end there.
+    const std::size_t tags_end = remainder.rfind(u8'>') + 1;
 
+public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
@@ -514,6 +518,9 @@ private:
 
     bool expect_end_tag()
     {
+        if (index >= tags_end) {
+            return false;
+        }
         const End_Tag_Result result = match_end_tag_permissive(remainder);
         if (!result) {
             return false;
-- 
2.43.0


From d93e16f4a43b0167f8f28b0d5d60d2c95ce5f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 094/123] fix: do not search for the end of the word for each
 XML attribute type

Every part of an attribute list or element declaration was first searched for
white space or a ">", so that the time was quadratic in the length of a word.
---
 src/main/cpp/lang/xml.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index df84ff9..b057e3e 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -67,14 +67,14 @@ std::size_t match_name(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_att_type(const std::u8string_view str)
 {
-    // consider the next "word" (everything until whitespace or >)
-    // to avoid "highlight splitting"
-    const std::size_t word_len
-        = ascii::find_if(str, [](char8_t c) { return is_xml_whitespace(c) || c == u8'>'; });
-    const std::u8string_view word = str.substr(0, word_len);
-
     for (const auto& att_type_string : attlist_att_types) {
-        if (word == att_type_string) {
+        if (!str.starts_with(att_type_string)) {
+            continue;
+        }
+        // consider the whole "word" (everything until whitespace or >)
+        // to avoid "highlight splitting"
+        const std::u8string_view rest = str.substr(att_type_string.length());
+        if (rest.empty() || is_xml_whitespace(rest[0]) || rest[0] == u8'>') {
             return att_type_string.length();
         }
     }
-- 
2.43.0


From 786e74932859badba8c9cea2d950cfae72d98ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 095/123] fix: respect the options to ignore the background and
 foreground

The short options and --no-foreground had no effect, because yargs stores them
under other names than the script reads.
---
 scripts/theme-to-css.cjs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 4fca6ed..9e1cb2e 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -398,8 +398,10 @@ function main() {
         .argv;
 
     const isThemed = argv.themed ?? false;
-    const noBlockBackground = !(argv.blockBackground ?? true);
-    const noBlockForeground = !(argv.blockForeground ?? true);
+    // yargs treats e.g. "--no-foreground" as the negation of "--foreground",
+    // so only the short options set the names declared above.
+    const noBlockBackground = argv.noBlockBackground ?? !(argv.blockBackground ?? true);
+    const noBlockForeground = argv.noForeground ?? !(argv.foreground ?? true);
     const isCowel = argv.cowel ?? false;
 
     const inputStats = fs.lstatSync(argv.input);
-- 
2.43.0


From b7f1dcc7c43372d641a87d14878dfe4f27cbc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 096/123] fix: reject highlight types with the names of object
 members in themes

---
 scripts/theme-to-css.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 9e1cb2e..189e334 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -270,7 +270,7 @@ function keyToCssSelector(path, key, themePrefix) {
             : `${themePrefix}.ulight-code-block, ${themePrefix} .ulight-code-block`;
     }
 
-    const shortName = longNameToShort[key];
+    const shortName = Object.hasOwn(longNameToShort, key) ? longNameToShort[key] : undefined;
     if (shortName === undefined) {
         console.error(`${path}: Invalid highlight type "${key}"`);
         process.exit(1);
-- 
2.43.0


From ed100324251ff3dead1e3fffc1f77420e35147ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 097/123] fix: find the start of the first line in the live
 editor

With the cursor at the start of the text, a line break or brace that
follows the cursor was taken for one that precedes it.
---
 www/js/live_edit.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/www/js/live_edit.js b/www/js/live_edit.js
index 2564c35..dea425d 100644
--- a/www/js/live_edit.js
+++ b/www/js/live_edit.js
@@ -162,7 +162,7 @@ codeInput.addEventListener('keydown', (e) => {
         const start = codeInput.selectionStart;
         const end = codeInput.selectionEnd;
 
-        const beforeLineStart = codeInput.value.lastIndexOf('\n', Math.max(0, start - 1));
+        const beforeLineStart = codeInput.value.substring(0, start).lastIndexOf('\n');
         if (e.shiftKey) {
             const firstNonIndent = codeInput.value.indexNotOf(' ', beforeLineStart + 1);
             let indentEnd = firstNonIndent < 0 ? start : firstNonIndent;
@@ -192,12 +192,12 @@ codeInput.addEventListener('keydown', (e) => {
         }
 
         e.preventDefault();
-        const beforeLineStart = codeInput.value.lastIndexOf('\n', Math.max(0, start - 1));
+        const beforeLineStart = codeInput.value.substring(0, start).lastIndexOf('\n');
         const firstNonIndent = codeInput.value.indexNotOf(' \t', beforeLineStart + 1);
         const indentEnd = firstNonIndent < 0 ? start : firstNonIndent;
         const currentIndent = codeInput.value.substring(beforeLineStart + 1, indentEnd);
 
-        const previousNonWhitespace = codeInput.value.lastIndexNotOf(' \t\r', Math.max(0, start - 1));
+        const previousNonWhitespace = codeInput.value.lastIndexNotOf(' \t\r', start - 1);
         const newScopeIndent = previousNonWhitespace !== -1 && codeInput.value[previousNonWhitespace] === '{'
             ? indent : '';
 
-- 
2.43.0


From 2d7d5043a25cb06199a209dfd7af85428d262af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 098/123] fix: keep the cursor on its line when unindenting in
 the live editor

With the cursor within the removed indentation, the selection moved to
the previous line or to the end of the text. In the last line, spaces
behind the cursor did not count as indentation.
---
 www/js/live_edit.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/www/js/live_edit.js b/www/js/live_edit.js
index dea425d..cb94074 100644
--- a/www/js/live_edit.js
+++ b/www/js/live_edit.js
@@ -165,7 +165,7 @@ codeInput.addEventListener('keydown', (e) => {
         const beforeLineStart = codeInput.value.substring(0, start).lastIndexOf('\n');
         if (e.shiftKey) {
             const firstNonIndent = codeInput.value.indexNotOf(' ', beforeLineStart + 1);
-            let indentEnd = firstNonIndent < 0 ? start : firstNonIndent;
+            let indentEnd = firstNonIndent < 0 ? codeInput.value.length : firstNonIndent;
             const currentIndentLength
                 = indentEnd - (beforeLineStart + 1);
             if (currentIndentLength === 0) {
@@ -173,7 +173,10 @@ codeInput.addEventListener('keydown', (e) => {
             }
             const removalSize = Math.min(currentIndentLength, indent.length);
             codeInput.value = codeInput.value.removeAt(removalSize, beforeLineStart + 1);
-            codeInput.setSelectionRange(start - removalSize, end - removalSize);
+            codeInput.setSelectionRange(
+                Math.max(beforeLineStart + 1, start - removalSize),
+                Math.max(beforeLineStart + 1, end - removalSize)
+            );
         } else {
             // this is actually correct even if '\n' couldn't be found and -1 is returned
             codeInput.value = codeInput.value.insertAt(indent, beforeLineStart + 1);
-- 
2.43.0


From 1e5808dc01ba0c3b2ef954952783d41b1f842650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 099/123] fix: keep highlighting in the live editor when the
 contents cannot be stored

---
 www/js/live_edit.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/www/js/live_edit.js b/www/js/live_edit.js
index cb94074..85a6d3e 100644
--- a/www/js/live_edit.js
+++ b/www/js/live_edit.js
@@ -56,7 +56,11 @@ function setVisibleLineNumbers(e, n) {
 
 function onCodeInput(persist) {
     if (persist) {
-        localStorage.setItem(editorContentsItem, codeInput.value);
+        try {
+            localStorage.setItem(editorContentsItem, codeInput.value);
+        } catch (e) {
+            console.warn(`Unable to store the editor contents: ${e.message}`);
+        }
     }
 
     try {
-- 
2.43.0


From 84f2de670a92397b3ff8557310ee993c4fa0a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 100/123] fix: do not run the live editor before its page is
 complete

With the async attribute, the script may run while the elements that it
looks up do not exist yet.
---
 www/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/www/index.html b/www/index.html
index e486947..8858254 100644
--- a/www/index.html
+++ b/www/index.html
@@ -30,7 +30,7 @@
 
     <script src="js/live_edit_core.js" type="module"></script>
     <script src="js/ulight.js" type="module"></script>
-    <script src="js/live_edit.js" type="module" async></script>
+    <script src="js/live_edit.js" type="module"></script>
 
     <header>
         <h1>&micro;light</h1>
-- 
2.43.0


From cd80d3f49a8e6f81a82f93e4c9e4aefa4df79144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 101/123] fix: return to the enclosing CSS block after nested
 blocks and at-rules

A declaration without a semicolon before the closing brace of a nested
block made everything after it a value, and at-rules that end with a
semicolon made everything after them in the block a selector.
---
 src/main/cpp/lang/css.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index f00e3e2..c72c389 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -300,7 +300,7 @@ public:
                     context = Context::block;
                 }
                 else if (context == Context::at_prelude) {
-                    context = Context::top_level;
+                    context = brace_level == 0 ? Context::top_level : Context::block;
                 }
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 break;
@@ -380,9 +380,7 @@ public:
                 if (brace_level != 0) {
                     --brace_level;
                 }
-                if (brace_level == 0) {
-                    context = Context::top_level;
-                }
+                context = brace_level == 0 ? Context::top_level : Context::block;
                 emit_and_advance(1, Highlight_Type::symbol_brace);
                 break;
             }
-- 
2.43.0


From 33f59270204b70f3c03179b2f12512a148aa79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 102/123] fix: highlight identifiers that begin with a hyphen
 like others in CSS

---
 src/main/cpp/lang/css.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index c72c389..adcab23 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -257,8 +257,9 @@ public:
                         emit_and_advance(cdc_token.length(), Highlight_Type::comment_delim);
                         break;
                     }
-                    if (starts_with_ident_sequence(remainder.substr(1))) {
-                        consume_ident_like_token(Highlight_Type::name);
+                    if (starts_with_ident_sequence(remainder)
+                        || remainder.starts_with(u8"--")) {
+                        consume_ident_like_token(contextual_highlight_type);
                         break;
                     }
                 }
-- 
2.43.0


From e9069525a581c49b6f19260733e921a5d2093461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 103/123] fix: highlight the next-sibling combinator as a part
 of CSS selectors

---
 src/main/cpp/lang/css.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index adcab23..b9c4190 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -263,6 +263,11 @@ public:
                         break;
                     }
                 }
+                if (c == u8'+' && context == Context::top_level) {
+                    // Example: "ul + li"
+                    emit_and_advance(1, selector_highlight_type, Coalescing::forced);
+                    break;
+                }
                 emit_and_advance(
                     1,
                     context == Context::value || context == Context::at_prelude
-- 
2.43.0


From a89d602e60d97de530912d20800cfe9c978eecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 104/123] fix: do not highlight the beginning of other words as
 !important in CSS

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index b9c4190..fa01f5d 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -350,7 +350,7 @@ public:
                 const std::size_t white_length = html::match_whitespace(remainder.substr(1));
                 if (const std::size_t name_length
                     = match_ident_sequence(remainder.substr(1 + white_length))) {
-                    if (ascii::starts_with_ignore_case(
+                    if (ascii::equals_ignore_case(
                             remainder.substr(1 + white_length, name_length), important
                         )) {
                         emit_and_advance(
-- 
2.43.0


From 2506ddb9ba9e01220864a43b332dfea3306b32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:12 +0000
Subject: [PATCH 105/123] fix: let CSS identifiers begin with two hyphens

---
 src/main/cpp/lang/css.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index fa01f5d..4f9758a 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -42,7 +42,7 @@ bool starts_with_ident_sequence(std::u8string_view str)
         return false;
     }
     if (str[0] == u8'-') {
-        return (str.length() > 1 && is_css_identifier_start(str[1]))
+        return (str.length() > 1 && (str[1] == u8'-' || is_css_identifier_start(str[1])))
             || starts_with_valid_escape(str.substr(1));
     }
     return is_css_identifier_start(str[0]) || starts_with_valid_escape(str);
@@ -257,8 +257,7 @@ public:
                         emit_and_advance(cdc_token.length(), Highlight_Type::comment_delim);
                         break;
                     }
-                    if (starts_with_ident_sequence(remainder)
-                        || remainder.starts_with(u8"--")) {
+                    if (starts_with_ident_sequence(remainder)) {
                         consume_ident_like_token(contextual_highlight_type);
                         break;
                     }
-- 
2.43.0


From ff4e66f01e42cda5dc8dfc7b495a6cf9d58f8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 106/123] fix: end cowel line splices at line ends after white
 space

---
 src/main/cpp/lang/cowel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index a624e83..ae4da7f 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -456,7 +456,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 continue;
             }
 
-            const std::size_t whitespace = match_whitespace(remainder);
+            const std::size_t whitespace
+                = ascii::length_if(remainder, is_horizontal_whitespace);
             if (whitespace) {
                 advance(whitespace);
                 continue;
-- 
2.43.0


From 26c0081b3dba59d5a57ed87ff84f3df229cc8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 107/123] fix: end cowel line splices after calls without a
 block

---
 src/main/cpp/lang/cowel.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index ae4da7f..f3eff2e 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -725,8 +725,13 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
         emit_and_advance(name_length, Highlight_Type::markup_tag);
         consume_blank();
         expect_group();
-        consume_blank();
-        expect_block();
+        // If there is no block, what follows is not a part of the call;
+        // a line terminator may end the surrounding expression-line-splice.
+        const std::size_t blank_before_block = match_blank(remainder);
+        if (remainder.substr(blank_before_block).starts_with(u8'{')) {
+            consume_blank();
+            expect_block();
+        }
         return true;
     }
 
-- 
2.43.0


From 5e752c46aa78c4dfaffbcee18f2c445d71841658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 108/123] fix: match yaml special values against the whole
 plain scalar

---
 src/main/cpp/lang/yaml.cpp | 89 +++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 49 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index c91e5e4..50235d0 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1175,58 +1175,45 @@ private:
     void consume_plain_scalar(const bool is_key = false)
     {
         // https://yaml.org/spec/1.2.2/#ns-plain
-        // First, check for special plain values: null, bool, number
-        if (remainder.starts_with(u8'~')) {
+        const std::size_t length = match_plain_scalar();
+        if (length == 0) {
+            return;
+        }
+        const std::u8string_view scalar = trim_whitespace_right(remainder.substr(0, length));
+
+        // First, check for special plain values: null, bool, number.
+        // These have to make up the whole scalar;
+        // otherwise "true story" would be split into bool + unhighlighted text.
+        if (scalar == u8"~") {
             emit_and_advance(1, Highlight_Type::null);
             return;
         }
 
-        // Check for null/boolean identifiers
-        if (const Plain_Identifier_Result id = match_plain_identifier(remainder)) {
-            if (id.length >= remainder.length() || is_yaml_word_terminator(remainder[id.length])
-                || match_line_break(remainder.substr(id.length)) || remainder[id.length] == u8':'
-                || remainder[id.length] == u8'-') {
-                const auto highlight = id.type == Plain_Identifier_Type::null ? Highlight_Type::null
-                    : id.type == Plain_Identifier_Type::bool_true  ? Highlight_Type::bool_
-                    : id.type == Plain_Identifier_Type::bool_false ? Highlight_Type::bool_
-                                                                   : Highlight_Type::name;
-                emit_and_advance(id.length, highlight);
-                return;
-            }
+        const Plain_Identifier_Result id = match_plain_identifier(scalar);
+        if (id && id.length == scalar.length()) {
+            const auto highlight = id.type == Plain_Identifier_Type::null ? Highlight_Type::null
+                                                                          : Highlight_Type::bool_;
+            emit_and_advance(id.length, highlight);
+            return;
         }
 
-        // Check for number.
-        // Only treat as a number if we've consumed the entire plain scalar
-        // (up to a plain-terminator, not a generic word-terminator).
-        // Otherwise "123 Main St" would be split into number + unhighlighted text.
-        if (const Common_Number_Result num = match_number(remainder)) {
-            if (num.length >= remainder.length()) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
-            const char8_t peek = remainder[num.length];
-            const bool number_terminates
-                = is_yaml_plain_terminator(peek) || match_line_break(remainder.substr(num.length));
-            const bool number_followed_by_colon = peek == u8':'
-                && (num.length + 1 >= remainder.length() || remainder[num.length + 1] == u8' '
-                    || match_line_break(remainder.substr(num.length + 1)));
-            // Space + flow indicator (e.g. "42 }" in flow mappings) or space + comment.
-            const bool number_then_terminating_space = num.length + 1 < remainder.length()
-                && peek == u8' '
-                && (remainder[num.length + 1] == u8'#'
-                    || is_yaml_flow_indicator(remainder[num.length + 1]));
-            if (number_terminates || peek == u8']' || peek == u8'}' || number_followed_by_colon
-                || number_then_terminating_space) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
+        const Common_Number_Result num = match_number(scalar);
+        if (num && num.length == scalar.length()) {
+            const auto highlight = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
+            emit_and_advance(num.length, highlight);
+            return;
         }
 
-        // Plain string: consume until end of line or special character
+        const Highlight_Type type = is_key ? Highlight_Type::markup_attr : Highlight_Type::string;
+        emit_and_advance(length, type);
+    }
+
+    /// @brief Returns the length of the plain scalar at the start of the remaining source,
+    /// up to the end of the line, a comment, or a terminating character.
+    [[nodiscard]]
+    std::size_t match_plain_scalar() const
+    {
+        // https://yaml.org/spec/1.2.2/#ns-plain
         std::size_t length = 0;
         while (length < remainder.length()) {
             const char8_t c = remainder[length];
@@ -1242,7 +1229,7 @@ private:
             // (i.e. when followed by space/newline/end AND we're past the first
             // character of the scalar).
             // A colon at position zero is just part of the scalar content
-            // (e.g. \":value\" inside a flow sequence).
+            // (e.g. ":value" inside a flow sequence).
             if (c == u8':' && length > 0) {
                 if (length + 1 >= remainder.length() || remainder[length + 1] == u8' '
                     || match_line_break(remainder.substr(length + 1))) {
@@ -1251,12 +1238,16 @@ private:
             }
             ++length;
         }
+        return length;
+    }
 
-        if (length > 0) {
-            const Highlight_Type type
-                = is_key ? Highlight_Type::markup_attr : Highlight_Type::string;
-            emit_and_advance(length, type);
+    [[nodiscard]]
+    static std::u8string_view trim_whitespace_right(std::u8string_view str)
+    {
+        while (!str.empty() && is_yaml_whitespace(str.back())) {
+            str.remove_suffix(1);
         }
+        return str;
     }
 
     // ========================================================================
-- 
2.43.0


From 671d97073dbf58bb79ae1074acb4a4752fbd2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 109/123] fix: let yaml plain scalars in block context contain
 flow indicators

---
 src/main/cpp/lang/yaml.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 50235d0..1403f90 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -252,6 +252,9 @@ struct Highlighter : Highlighter_Base {
 
     Indent_Stack indent_stack;
 
+    /// @brief The amount of flow collections which contain the current position.
+    std::size_t flow_depth = 0;
+
 public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
@@ -781,13 +784,17 @@ private:
 
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
+            ++flow_depth;
             consume_flow_sequence(indent);
+            --flow_depth;
             return;
         }
 
         // Flow mapping: {...}
         if (remainder.starts_with(u8'{')) {
+            ++flow_depth;
             consume_flow_mapping(indent);
+            --flow_depth;
             return;
         }
 
@@ -1217,7 +1224,10 @@ private:
         std::size_t length = 0;
         while (length < remainder.length()) {
             const char8_t c = remainder[length];
-            if (is_yaml_plain_terminator(c)) {
+            const bool is_terminator = flow_depth != 0 || length == 0
+                ? is_yaml_plain_terminator(c)
+                : match_line_break(remainder.substr(length)) != 0;
+            if (is_terminator) {
                 break;
             }
             // '#' only begins a comment if it is separated by whitespace.
-- 
2.43.0


From 7cef5d1489d1615e0d088679523120121eea9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:55 +0000
Subject: [PATCH 110/123] fix: recognize yaml sequence entries at the end of a
 line

---
 src/main/cpp/lang/yaml.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 1403f90..b3fd680 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -595,12 +595,12 @@ private:
             }
 
             // Handle block sequence entry: - item
-            if (remainder.starts_with(u8"- ")) {
+            if (is_sequence_entry(remainder)) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
-                if (!remainder.empty() && remainder[0] == u8' ') {
-                    advance(1);
+                consume_inline_whitespace();
+                if (remainder.starts_with(u8'#')) {
+                    consume_comment();
                 }
-                consume_whitespace_and_comments();
 
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
                     try_consume_compact_sequence_or_mapping(line_indent + 1);
@@ -640,6 +640,16 @@ private:
         }
     }
 
+    /// @brief Returns `true` if `str` begins with the `-` of a block sequence entry.
+    [[nodiscard]]
+    static bool is_sequence_entry(const std::u8string_view str)
+    {
+        // https://yaml.org/spec/1.2.2/#rule-c-l-block-seq-entry
+        return str.starts_with(u8'-')
+            && (str.length() == 1 || is_yaml_whitespace(str[1])
+                || match_line_break(str.substr(1)) != 0);
+    }
+
     /// @brief Try to consume a block mapping key at the given indentation.
     /// Returns `true` if a key/value pair was consumed.
     [[nodiscard]]
@@ -754,7 +764,7 @@ private:
         }
 
         // Compact sequence: another "- " on the same line
-        if (remainder.starts_with(u8"- ")) {
+        if (is_sequence_entry(remainder)) {
             consume_block_node(indent, 1);
             return;
         }
-- 
2.43.0


From b521a26d0c6a83a0deada8b1362eedd91ab7ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:15 +0000
Subject: [PATCH 111/123] fix: tell implicit yaml keys from values which
 contain a colon

---
 src/main/cpp/lang/yaml.cpp | 236 ++++++++++++++++++++++---------------
 1 file changed, 141 insertions(+), 95 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index b3fd680..f32337c 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <memory_resource>
+#include <optional>
 #include <string_view>
 #include <vector>
 
@@ -655,104 +656,152 @@ private:
     [[nodiscard]]
     bool try_consume_block_mapping_key(const std::size_t line_indent)
     {
-        // Look for "key: value" pattern on the current line.
-        // We need to find the ': ' separator.
-        const std::u8string_view line = remainder;
-        std::size_t colon_pos = 0;
-        bool in_quote = false;
-        char8_t quote_char = 0;
-
-        while (colon_pos < line.length() && line[colon_pos] != u8'\r' && line[colon_pos] != u8'\n'
-        ) {
-            const char8_t c = line[colon_pos];
-            if (in_quote) {
-                if (c == quote_char) {
-                    in_quote = false;
-                }
-                else if (c == u8'\\' && quote_char == u8'"') {
-                    ++colon_pos; // skip escaped char
+        const std::optional<std::size_t> colon_pos = match_implicit_key();
+        if (!colon_pos) {
+            return false;
+        }
+
+        // Highlight the key
+        const std::u8string_view key_part = remainder.substr(0, *colon_pos);
+        consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
+
+        // Highlight the colon
+        emit_and_advance(1, Highlight_Type::symbol_punc);
+
+        // Skip space after colon
+        if (!remainder.empty() && remainder[0] == u8' ') {
+            advance(1);
+        }
+        // Skip additional inline whitespace (but NOT newlines).
+        while (!remainder.empty()
+               && (remainder[0] == u8' ' || remainder[0] == u8'\t')) {
+            advance(1);
+        }
+
+        // Check for block structure indicators on the value line.
+        // These must be handled before flow-node, otherwise the first
+        // entry gets consumed as a plain scalar instead of sym_punc.
+        if (!remainder.empty()
+            && (remainder.starts_with(u8"- ") || remainder.starts_with(u8"? "))) {
+            skip_line();
+            skip_blank_and_comment_lines();
+            if (!remainder.empty() && remainder[0] != u8'\r'
+                && remainder[0] != u8'\n') {
+                const std::size_t next_indent = current_indent();
+                if (next_indent > line_indent) {
+                    consume_block_node(line_indent, 0);
                 }
             }
-            else {
-                if (c == u8'"' || c == u8'\'') {
-                    in_quote = true;
-                    quote_char = c;
-                }
-                else if (c == u8'#') {
-                    // Comment starts - no colon after this
-                    break;
-                }
-                else if (c == u8':') {
-                    // Found colon! Check if followed by space or end of line
-                    if (colon_pos + 1 >= line.length() || line[colon_pos + 1] == u8' '
-                        || match_line_break(line.substr(colon_pos + 1))) {
-                        // It's a mapping key!
-                        // Highlight the key
-                        const std::u8string_view key_part = remainder.substr(0, colon_pos);
-                        consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
-
-                        // Highlight the colon
-                        emit_and_advance(1, Highlight_Type::symbol_punc);
-
-                        // Skip space after colon
-                        if (!remainder.empty() && remainder[0] == u8' ') {
-                            advance(1);
-                        }
-                        // Skip additional inline whitespace (but NOT newlines).
-                        while (!remainder.empty()
-                               && (remainder[0] == u8' ' || remainder[0] == u8'\t')) {
-                            advance(1);
-                        }
-
-                        // Check for block structure indicators on the value line.
-                        // These must be handled before flow-node, otherwise the first
-                        // entry gets consumed as a plain scalar instead of sym_punc.
-                        if (!remainder.empty()
-                            && (remainder.starts_with(u8"- ") || remainder.starts_with(u8"? "))) {
-                            skip_line();
-                            skip_blank_and_comment_lines();
-                            if (!remainder.empty() && remainder[0] != u8'\r'
-                                && remainder[0] != u8'\n') {
-                                const std::size_t next_indent = current_indent();
-                                if (next_indent > line_indent) {
-                                    consume_block_node(line_indent, 0);
-                                }
-                            }
-                            return true;
-                        }
-
-                        // Value
-                        const bool is_block_scalar = !remainder.empty()
-                            && (remainder[0] == u8'|' || remainder[0] == u8'>');
-                        const bool has_inline_value = !remainder.empty()
-                            && !match_line_break(remainder) && remainder[0] != u8'#';
-                        if (has_inline_value) {
-                            consume_flow_node(line_indent);
-                        }
-                        // Block scalars are self-contained and consume their own content lines;
-                        // do not skip_line() or descend into block_node for them.
-                        if (is_block_scalar) {
-                            return true;
-                        }
-                        skip_line();
+            return true;
+        }
 
-                        // If value was on the next line(s), parse block value.
-                        skip_blank_and_comment_lines();
-                        if (!remainder.empty() && !match_line_break(remainder)) {
-                            const std::size_t next_indent = current_indent();
-                            if (next_indent > line_indent) {
-                                consume_block_node(line_indent, 0);
-                            }
-                        }
+        // Value
+        const bool is_block_scalar = !remainder.empty()
+            && (remainder[0] == u8'|' || remainder[0] == u8'>');
+        const bool has_inline_value = !remainder.empty()
+            && !match_line_break(remainder) && remainder[0] != u8'#';
+        if (has_inline_value) {
+            consume_flow_node(line_indent);
+        }
+        // Block scalars are self-contained and consume their own content lines;
+        // do not skip_line() or descend into block_node for them.
+        if (is_block_scalar) {
+            return true;
+        }
+        skip_line();
+
+        // If value was on the next line(s), parse block value.
+        skip_blank_and_comment_lines();
+        if (!remainder.empty() && !match_line_break(remainder)) {
+            const std::size_t next_indent = current_indent();
+            if (next_indent > line_indent) {
+                consume_block_node(line_indent, 0);
+            }
+        }
+
+        return true;
+    }
 
-                        return true;
+    /// @brief Returns `true` if the `:` at `pos` separates a key from a value.
+    [[nodiscard]]
+    bool is_value_indicator(const std::size_t pos) const
+    {
+        if (pos >= remainder.length() || remainder[pos] != u8':') {
+            return false;
+        }
+        return pos + 1 == remainder.length() || is_yaml_whitespace(remainder[pos + 1])
+            || match_line_break(remainder.substr(pos + 1)) != 0;
+    }
+
+    /// @brief Returns the length of the implicit key at the start of the remaining source,
+    /// up to the `:` that follows it,
+    /// or `std::nullopt` if the current line does not start with an implicit key.
+    [[nodiscard]]
+    std::optional<std::size_t> match_implicit_key() const
+    {
+        // https://yaml.org/spec/1.2.2/#rule-ns-l-block-map-implicit-entry
+        const std::u8string_view line = remainder.substr(
+            0, ascii::length_if_not(remainder, Charset256(u8"\r\n"))
+        );
+        std::size_t pos = 0;
+
+        // Quotes and brackets are only special at the start of a key;
+        // within a plain scalar, they are ordinary characters.
+        if (const std::size_t json_length = match_json_key(line)) {
+            pos = json_length;
+            pos += ascii::length_if(line.substr(pos), is_yaml_whitespace);
+            return is_value_indicator(pos) ? std::optional { pos } : std::nullopt;
+        }
+
+        for (; pos < line.length(); ++pos) {
+            // '#' only begins a comment if it is separated by whitespace.
+            if (line[pos] == u8'#' && pos > 0 && is_yaml_whitespace(line[pos - 1])) {
+                break;
+            }
+            if (is_value_indicator(pos)) {
+                return pos;
+            }
+        }
+        return std::nullopt;
+    }
+
+    /// @brief Returns the length of the quoted scalar or flow collection at the start of `line`.
+    /// If it does not end on the line, it extends to the end of the line.
+    /// If there is none, returns zero.
+    [[nodiscard]]
+    static std::size_t match_json_key(const std::u8string_view line)
+    {
+        static constexpr Charset256 is_scalar_prefix { u8" \t,:[]{}'\"" };
+
+        std::size_t pos = 0;
+        std::size_t depth = 0;
+        while (pos < line.length()) {
+            const char8_t c = line[pos];
+            if (c == u8'[' || c == u8'{') {
+                ++depth;
+            }
+            else if (depth != 0 && (c == u8']' || c == u8'}')) {
+                --depth;
+            }
+            else if ((c == u8'"' || c == u8'\'')
+                     && (pos == 0 || is_scalar_prefix(line[pos - 1]))) {
+                for (++pos; pos < line.length() && line[pos] != c; ++pos) {
+                    if (c == u8'"' && line[pos] == u8'\\') {
+                        ++pos; // skip escaped char
                     }
                 }
             }
-            ++colon_pos;
+            else if (depth == 0) {
+                break;
+            }
+            ++pos;
+            // '' within single quotes is an escaped quote, not the end of the scalar.
+            const bool is_escaped_quote = c == u8'\'' && pos < line.length() && line[pos] == c;
+            if (depth == 0 && !is_escaped_quote) {
+                break;
+            }
         }
-
-        return false;
+        return std::min(pos, line.length());
     }
 
     /// @brief Try to consume a compact block sequence or mapping
@@ -1250,11 +1299,8 @@ private:
             // character of the scalar).
             // A colon at position zero is just part of the scalar content
             // (e.g. ":value" inside a flow sequence).
-            if (c == u8':' && length > 0) {
-                if (length + 1 >= remainder.length() || remainder[length + 1] == u8' '
-                    || match_line_break(remainder.substr(length + 1))) {
-                    break;
-                }
+            if (length > 0 && is_value_indicator(length)) {
+                break;
             }
             ++length;
         }
-- 
2.43.0


From 036931fdfa796323e508aebc8ff4c68c7ca5bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 112/123] fix: skip yaml lines which consist of white space

---
 src/main/cpp/lang/yaml.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index f32337c..83985d9 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -521,14 +521,19 @@ private:
                 skip_line_break();
                 continue;
             }
-            // Skip lines that are just a comment (possibly indented).
-            const std::size_t indent = current_indent();
+            // Skip lines that are just white space and a comment.
+            const std::size_t indent = ascii::length_if(remainder, is_yaml_whitespace);
             if (indent < remainder.length() && remainder[indent] == u8'#') {
-                consume_indent(indent);
+                advance(indent);
                 consume_comment();
                 skip_line_break();
                 continue;
             }
+            if (indent == remainder.length() || match_line_break(remainder.substr(indent))) {
+                advance(indent);
+                skip_line_break();
+                continue;
+            }
             break;
         }
     }
-- 
2.43.0


From a8729d5b447841a65edec173e2e2b5c93c387e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 113/123] fix: keep the line after a yaml block scalar with
 node properties

---
 src/main/cpp/lang/yaml.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 83985d9..6c0675c 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -579,9 +579,13 @@ private:
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 consume_whitespace_and_comments();
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    consume_flow_node(line_indent + 1);
+                    if (!consume_flow_node(line_indent + 1)) {
+                        skip_line();
+                    }
+                }
+                else {
+                    skip_line();
                 }
-                skip_line();
                 // Expect : value on next line(s)
                 consume_whitespace_and_comments();
                 if (!remainder.empty() && remainder.starts_with(u8": ")) {
@@ -637,8 +641,9 @@ private:
 
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                consume_flow_node(line_indent);
-                skip_line();
+                if (!consume_flow_node(line_indent)) {
+                    skip_line();
+                }
                 continue;
             }
 
@@ -701,13 +706,9 @@ private:
         }
 
         // Value
-        const bool is_block_scalar = !remainder.empty()
-            && (remainder[0] == u8'|' || remainder[0] == u8'>');
         const bool has_inline_value = !remainder.empty()
             && !match_line_break(remainder) && remainder[0] != u8'#';
-        if (has_inline_value) {
-            consume_flow_node(line_indent);
-        }
+        const bool is_block_scalar = has_inline_value && consume_flow_node(line_indent);
         // Block scalars are self-contained and consume their own content lines;
         // do not skip_line() or descend into block_node for them.
         if (is_block_scalar) {
@@ -833,17 +834,19 @@ private:
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
-    void consume_flow_node(const std::size_t indent, const bool is_key = false)
+    /// @returns `true` if the node is a block scalar,
+    /// which is self-contained and consumes its own content lines.
+    bool consume_flow_node(const std::size_t indent, const bool is_key = false)
     {
         consume_whitespace_and_comments();
         if (remainder.empty() || match_line_break(remainder)) {
-            return;
+            return false;
         }
 
         // Check for node properties: tag and/or anchor
         consume_node_properties();
         if (remainder.starts_with(u8'#')) {
-            return;
+            return false;
         }
 
         // Flow sequence: [...]
@@ -851,7 +854,7 @@ private:
             ++flow_depth;
             consume_flow_sequence(indent);
             --flow_depth;
-            return;
+            return false;
         }
 
         // Flow mapping: {...}
@@ -859,17 +862,18 @@ private:
             ++flow_depth;
             consume_flow_mapping(indent);
             --flow_depth;
-            return;
+            return false;
         }
 
         // Block scalars: | or >
         if (remainder.starts_with(u8'|') || remainder.starts_with(u8'>')) {
             consume_block_scalar(indent);
-            return;
+            return true;
         }
 
         // Flow scalars
         consume_flow_scalar(is_key);
+        return false;
     }
 
     /// @brief Consume flow node content of a specific length with given highlight type.
-- 
2.43.0


From 504679909f751d11b82becebf0f41e0990032a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 114/123] fix: track yaml indentation by nesting

Every block collection entry entered another level of recursion for the rest
of the document, so that a flat list of 50000 items exhausted the stack.
The content of compact nodes was also measured from the wrong column.
---
 src/main/cpp/lang/yaml.cpp | 205 ++++++++++++-------------------------
 1 file changed, 66 insertions(+), 139 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 6c0675c..bf5267a 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -412,7 +412,7 @@ private:
         }
 
         // Parse the document body (a block node at indent -1 conceptually)
-        consume_block_node(0, 0);
+        consume_block_node();
     }
 
     void consume_directives()
@@ -538,21 +538,23 @@ private:
         }
     }
 
-    /// @brief Consume a block node at the given indentation level.
-    /// @param block_indent The indentation level of the parent block collection.
-    /// @param seq_offset Extra indentation offset for nested block sequences
-    ///   (to account for the "- " prefix being perceived as indentation).
-    void consume_block_node(const std::size_t block_indent, const std::size_t seq_offset)
+    /// @brief Consume a block node and everything else
+    /// that is indented further than the innermost block collection.
+    /// @param column The column of the current position,
+    ///   which is nonzero for a compact node that follows "- " on the same line.
+    void consume_block_node(std::size_t column = 0)
     {
-        const std::size_t effective_indent = block_indent - seq_offset;
         while (!eof()) {
             // Skip blank lines and comment lines, preserving indentation.
-            skip_blank_and_comment_lines();
-            if (eof()) {
-                break;
+            if (column == 0) {
+                skip_blank_and_comment_lines();
+                if (eof()) {
+                    break;
+                }
             }
 
-            const std::size_t line_indent = current_indent();
+            const std::size_t space = current_indent();
+            const std::size_t line_indent = column + space;
 
             // Document markers at indent 0 stop block parsing.
             if (line_indent == 0
@@ -561,87 +563,38 @@ private:
             }
 
             // Check for de-dent.
-            if (line_indent < effective_indent && !indent_stack.empty()
-                && line_indent <= indent_stack.top()) {
-                while (!indent_stack.empty() && line_indent <= indent_stack.top()) {
-                    indent_stack.pop();
-                }
+            if (!indent_stack.empty() && line_indent <= indent_stack.top()) {
                 return;
             }
 
             // Consume the indentation (no highlighting).
-            consume_indent(line_indent);
+            consume_indent(space);
+            column = 0;
 
             // Handle explicit mapping key: ? key
             if (remainder.starts_with(u8"? ") || //
                 (remainder.starts_with(u8"?") && remainder.length() > 1
                  && match_line_break(remainder.substr(1)))) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
-                consume_whitespace_and_comments();
-                if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    if (!consume_flow_node(line_indent + 1)) {
-                        skip_line();
-                    }
-                }
-                else {
-                    skip_line();
-                }
-                // Expect : value on next line(s)
-                consume_whitespace_and_comments();
-                if (!remainder.empty() && remainder.starts_with(u8": ")) {
-                    consume_indent(line_indent);
-                    emit_and_advance(1, Highlight_Type::symbol_punc);
-                    consume_whitespace_and_comments();
-                    if (!remainder.empty() && !match_line_break(remainder)
-                        && remainder[0] != u8'#') {
-                        consume_block_node(line_indent, 0);
-                    }
-                    else {
-                        skip_line();
-                        consume_block_node(line_indent, 0);
-                    }
-                }
+                consume_block_collection_entry(line_indent);
                 continue;
             }
 
             // Handle block sequence entry: - item
             if (is_sequence_entry(remainder)) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
-                consume_inline_whitespace();
-                if (remainder.starts_with(u8'#')) {
-                    consume_comment();
-                }
-
-                if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    try_consume_compact_sequence_or_mapping(line_indent + 1);
-                }
-                if (!remainder.empty() && match_line_break(remainder)) {
-                    skip_line();
-                }
-                indent_stack.push(line_indent);
-                consume_block_node(line_indent, 0);
-                continue;
-            }
-
-            // Handle block scalar: | or > as a standalone block entry.
-            const bool is_block_scalar_header = remainder.starts_with(u8"| ")
-                || remainder.starts_with(u8"> ")
-                || (remainder.starts_with(u8"|") && match_line_break(remainder.substr(1)))
-                || (remainder.starts_with(u8">") && match_line_break(remainder.substr(1)));
-            if (is_block_scalar_header) {
-                consume_block_scalar(line_indent);
+                consume_block_collection_entry(line_indent);
                 continue;
             }
 
             // Handle block mapping entry: key: value
             if (try_consume_block_mapping_key(line_indent)) {
-                indent_stack.push(line_indent);
                 continue;
             }
 
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                if (!consume_flow_node(line_indent)) {
+                if (!consume_flow_node()) {
                     skip_line();
                 }
                 continue;
@@ -651,6 +604,27 @@ private:
         }
     }
 
+    /// @brief Consume what follows the indicator of a block collection entry.
+    /// @param indent The column of the indicator, which is one code unit long.
+    void consume_block_collection_entry(const std::size_t indent)
+    {
+        const std::size_t space = ascii::length_if(remainder, is_yaml_whitespace);
+        advance(space);
+        if (remainder.starts_with(u8'#')) {
+            consume_comment();
+        }
+
+        indent_stack.push(indent);
+        if (match_line_break(remainder)) {
+            skip_line_break();
+            consume_block_node();
+        }
+        else {
+            consume_block_node(indent + 1 + space);
+        }
+        indent_stack.pop();
+    }
+
     /// @brief Returns `true` if `str` begins with the `-` of a block sequence entry.
     [[nodiscard]]
     static bool is_sequence_entry(const std::u8string_view str)
@@ -678,52 +652,28 @@ private:
         // Highlight the colon
         emit_and_advance(1, Highlight_Type::symbol_punc);
 
-        // Skip space after colon
-        if (!remainder.empty() && remainder[0] == u8' ') {
-            advance(1);
-        }
-        // Skip additional inline whitespace (but NOT newlines).
-        while (!remainder.empty()
-               && (remainder[0] == u8' ' || remainder[0] == u8'\t')) {
-            advance(1);
-        }
-
-        // Check for block structure indicators on the value line.
-        // These must be handled before flow-node, otherwise the first
-        // entry gets consumed as a plain scalar instead of sym_punc.
-        if (!remainder.empty()
-            && (remainder.starts_with(u8"- ") || remainder.starts_with(u8"? "))) {
-            skip_line();
-            skip_blank_and_comment_lines();
-            if (!remainder.empty() && remainder[0] != u8'\r'
-                && remainder[0] != u8'\n') {
-                const std::size_t next_indent = current_indent();
-                if (next_indent > line_indent) {
-                    consume_block_node(line_indent, 0);
-                }
-            }
+        // The value of an explicit key (": value") may be any block node.
+        if (*colon_pos == 0) {
+            consume_block_collection_entry(line_indent);
             return true;
         }
 
+        // Skip inline whitespace (but NOT newlines).
+        consume_inline_whitespace();
+
         // Value
+        indent_stack.push(line_indent);
         const bool has_inline_value = !remainder.empty()
             && !match_line_break(remainder) && remainder[0] != u8'#';
-        const bool is_block_scalar = has_inline_value && consume_flow_node(line_indent);
         // Block scalars are self-contained and consume their own content lines;
-        // do not skip_line() or descend into block_node for them.
-        if (is_block_scalar) {
-            return true;
+        // do not skip_line() for them.
+        if (!has_inline_value || !consume_flow_node()) {
+            skip_line();
         }
-        skip_line();
 
         // If value was on the next line(s), parse block value.
-        skip_blank_and_comment_lines();
-        if (!remainder.empty() && !match_line_break(remainder)) {
-            const std::size_t next_indent = current_indent();
-            if (next_indent > line_indent) {
-                consume_block_node(line_indent, 0);
-            }
-        }
+        consume_block_node();
+        indent_stack.pop();
 
         return true;
     }
@@ -810,33 +760,10 @@ private:
         return std::min(pos, line.length());
     }
 
-    /// @brief Try to consume a compact block sequence or mapping
-    /// starting on the same line as a block entry indicator.
-    void try_consume_compact_sequence_or_mapping(const std::size_t indent)
-    {
-        if (remainder.empty()) {
-            return;
-        }
-
-        // Compact sequence: another "- " on the same line
-        if (is_sequence_entry(remainder)) {
-            consume_block_node(indent, 1);
-            return;
-        }
-
-        // Compact mapping: "key: value" on the same line
-        if (try_consume_block_mapping_key(indent)) {
-            return;
-        }
-
-        // Otherwise, just a flow node
-        consume_flow_node(indent);
-    }
-
     /// @brief Consume a flow-level node (inline value on a single logical line).
     /// @returns `true` if the node is a block scalar,
     /// which is self-contained and consumes its own content lines.
-    bool consume_flow_node(const std::size_t indent, const bool is_key = false)
+    bool consume_flow_node(const bool is_key = false)
     {
         consume_whitespace_and_comments();
         if (remainder.empty() || match_line_break(remainder)) {
@@ -852,7 +779,7 @@ private:
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
             ++flow_depth;
-            consume_flow_sequence(indent);
+            consume_flow_sequence();
             --flow_depth;
             return false;
         }
@@ -860,14 +787,14 @@ private:
         // Flow mapping: {...}
         if (remainder.starts_with(u8'{')) {
             ++flow_depth;
-            consume_flow_mapping(indent);
+            consume_flow_mapping();
             --flow_depth;
             return false;
         }
 
         // Block scalars: | or >
         if (remainder.starts_with(u8'|') || remainder.starts_with(u8'>')) {
-            consume_block_scalar(indent);
+            consume_block_scalar();
             return true;
         }
 
@@ -1001,7 +928,7 @@ private:
         }
     }
 
-    void consume_flow_sequence(const std::size_t indent)
+    void consume_flow_sequence()
     {
         // https://yaml.org/spec/1.2.2/#c-flow-sequence
         ULIGHT_ASSERT(remainder.starts_with(u8'['));
@@ -1024,12 +951,12 @@ private:
                 continue;
             default: break;
             }
-            consume_flow_node(indent);
+            consume_flow_node();
             consume_whitespace_and_comments();
         }
     }
 
-    void consume_flow_mapping(const std::size_t indent)
+    void consume_flow_mapping()
     {
         // https://yaml.org/spec/1.2.2/#c-flow-mapping
         ULIGHT_ASSERT(remainder.starts_with(u8'{'));
@@ -1054,21 +981,21 @@ private:
             }
 
             // Parse key: value pair
-            consume_flow_mapping_entry(indent);
+            consume_flow_mapping_entry();
             consume_whitespace_and_comments();
         }
     }
 
-    void consume_flow_mapping_entry(const std::size_t indent)
+    void consume_flow_mapping_entry()
     {
         // Key
         if (remainder.starts_with(u8'?')) {
             emit_and_advance(1, Highlight_Type::symbol_punc);
             consume_whitespace_and_comments();
-            consume_flow_node(indent, true);
+            consume_flow_node(true);
         }
         else {
-            consume_flow_node(indent, true);
+            consume_flow_node(true);
         }
 
         consume_whitespace_and_comments();
@@ -1092,7 +1019,7 @@ private:
         const bool has_value = !remainder.empty() && remainder[0] != u8',' && remainder[0] != u8'}'
             && !match_line_break(remainder);
         if (has_value) {
-            consume_flow_node(indent);
+            consume_flow_node();
         }
     }
 
@@ -1329,7 +1256,7 @@ private:
     // Block scalars (| and >)
     // ========================================================================
 
-    void consume_block_scalar(const std::size_t indent)
+    void consume_block_scalar()
     {
         // https://yaml.org/spec/1.2.2/#c-l+literal / #c-l+folded
         ULIGHT_ASSERT(remainder.starts_with(u8'|') || remainder.starts_with(u8'>'));
@@ -1357,7 +1284,7 @@ private:
             skip_line_break();
         }
         const std::size_t content_indent = current_indent();
-        if (content_indent <= indent && !remainder.empty()) {
+        if (!indent_stack.empty() && content_indent <= indent_stack.top()) {
             return;
         }
 
-- 
2.43.0


From 201ba90048af08fb84397a944b204e9f9eb5839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 115/123] fix: keep blank lines and explicit indentation in
 yaml block scalars

---
 src/main/cpp/lang/yaml.cpp | 52 +++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index bf5267a..4b12a30 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -316,6 +316,13 @@ private:
         return ascii::length_if(remainder, [](char8_t c) { return c == u8' '; });
     }
 
+    /// @brief Returns `true` if the current line consists of spaces, and is terminated.
+    [[nodiscard]]
+    bool is_blank_line() const
+    {
+        return match_line_break(remainder.substr(current_indent())) != 0;
+    }
+
     /// @brief Consume the given number of indentation spaces.
     void consume_indent(const std::size_t n)
     {
@@ -1264,12 +1271,19 @@ private:
         // Block scalar indicator
         emit_and_advance(1, Highlight_Type::string_delim);
 
-        // Optional chomping indicator (+ or -)
-        if (!remainder.empty() && (remainder[0] == u8'+' || remainder[0] == u8'-')) {
-            emit_and_advance(1, Highlight_Type::number_decor);
-        }
-        // Optional indentation indicator (1-9)
-        if (!remainder.empty() && remainder[0] >= u8'1' && remainder[0] <= u8'9') {
+        // Optional chomping indicator (+ or -) and indentation indicator (1-9) in any order
+        std::size_t explicit_indent = 0;
+        bool has_chomping = false;
+        while (!remainder.empty()) {
+            if (!has_chomping && (remainder[0] == u8'+' || remainder[0] == u8'-')) {
+                has_chomping = true;
+            }
+            else if (explicit_indent == 0 && remainder[0] >= u8'1' && remainder[0] <= u8'9') {
+                explicit_indent = std::size_t(remainder[0] - u8'0');
+            }
+            else {
+                break;
+            }
             emit_and_advance(1, Highlight_Type::number_decor);
         }
         // Optional comment after header
@@ -1280,10 +1294,16 @@ private:
 
         // Determine content indentation from the first non-empty content line.
         // Skip leading blank lines first.
-        while (!remainder.empty() && match_line_break(remainder)) {
+        while (is_blank_line()) {
+            consume_indent(current_indent());
             skip_line_break();
         }
         const std::size_t content_indent = current_indent();
+        // With an explicit indentation indicator,
+        // lines may be indented less than the first one.
+        const std::size_t min_indent = explicit_indent == 0
+            ? content_indent
+            : explicit_indent + (indent_stack.empty() ? 0 : indent_stack.top());
         if (!indent_stack.empty() && content_indent <= indent_stack.top()) {
             return;
         }
@@ -1294,19 +1314,21 @@ private:
         while (!remainder.empty()) {
             const std::size_t line_indent = current_indent();
 
-            // De-dent past the content indentation ends the block scalar.
-            if (line_indent < content_indent && !match_line_break(remainder)) {
-                break;
-            }
-
             // Empty lines are part of the content.
-            if (match_line_break(remainder)) {
+            if (line_indent <= min_indent && is_blank_line()) {
+                consume_indent(line_indent);
                 skip_line_break();
                 continue;
             }
 
-            // Comments at lower indentation end the block scalar.
-            if (remainder[0] == u8'#' && line_indent < content_indent) {
+            // De-dent past the content indentation ends the block scalar.
+            if (line_indent < min_indent) {
+                break;
+            }
+
+            // Document markers end the block scalar.
+            if (line_indent == 0
+                && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
                 break;
             }
 
-- 
2.43.0


From e8b442ef2fd15360a60c547d3b8ad8af0fab2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 116/123] fix: highlight yaml content which follows a document
 start marker

---
 src/main/cpp/lang/yaml.cpp | 68 +++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 4b12a30..fb8c79f 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -360,22 +360,10 @@ private:
                 break;
             }
             // Document end marker: ...
-            if (remainder.starts_with(u8"...")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    continue;
-                }
-            }
-            // Directives end marker: ---
-            if (remainder.starts_with(u8"---")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    break; // Start of next document
-                }
+            if (is_document_marker(u8"...")) {
+                emit_and_advance(3, Highlight_Type::symbol_punc);
+                skip_line();
+                continue;
             }
             break;
         }
@@ -393,14 +381,9 @@ private:
         const std::size_t indent = current_indent();
 
         // Check for directives end marker (explicit document start)
-        if (indent == 0 && remainder.starts_with(u8"---")) {
-            consume_indent(0);
-            emit_and_advance(3, Highlight_Type::symbol_punc);
-            skip_line();
-            consume_whitespace_and_comments();
-            if (eof()) {
-                return;
-            }
+        if (is_document_marker(u8"---")) {
+            consume_document_start();
+            return;
         }
 
         // Check for directives (must be at indent 0)
@@ -408,10 +391,9 @@ private:
             consume_directives();
             // After directives, expect ---
             consume_whitespace_and_comments();
-            if (!remainder.empty() && remainder.starts_with(u8"---")) {
-                emit_and_advance(3, Highlight_Type::symbol_punc);
-                skip_line();
-                consume_whitespace_and_comments();
+            if (is_document_marker(u8"---")) {
+                consume_document_start();
+                return;
             }
             if (eof()) {
                 return;
@@ -422,6 +404,32 @@ private:
         consume_block_node();
     }
 
+    /// @brief Consume a document which begins with a directives end marker.
+    void consume_document_start()
+    {
+        // https://yaml.org/spec/1.2.2/#rule-l-explicit-document
+        emit_and_advance(3, Highlight_Type::symbol_punc);
+        consume_inline_whitespace();
+        const bool has_inline_content = !remainder.empty() && !match_line_break(remainder)
+            && remainder[0] != u8'#';
+        if (!has_inline_content || !consume_flow_node()) {
+            skip_line();
+        }
+        consume_block_node();
+    }
+
+    /// @brief Returns `true` if the current line begins with the given document marker.
+    [[nodiscard]]
+    bool is_document_marker(const std::u8string_view marker) const
+    {
+        // https://yaml.org/spec/1.2.2/#rule-c-forbidden
+        if (!remainder.starts_with(marker)) {
+            return false;
+        }
+        const std::u8string_view rest = remainder.substr(marker.length());
+        return rest.empty() || is_yaml_whitespace(rest[0]) || match_line_break(rest) != 0;
+    }
+
     void consume_directives()
     {
         // https://yaml.org/spec/1.2.2/#l-directive
@@ -565,7 +573,7 @@ private:
 
             // Document markers at indent 0 stop block parsing.
             if (line_indent == 0
-                && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
+                && (is_document_marker(u8"---") || is_document_marker(u8"..."))) {
                 return;
             }
 
@@ -1328,7 +1336,7 @@ private:
 
             // Document markers end the block scalar.
             if (line_indent == 0
-                && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
+                && (is_document_marker(u8"---") || is_document_marker(u8"..."))) {
                 break;
             }
 
-- 
2.43.0


From 70beb21a654af9ffa408f4a86d8e59ecaa0a4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 117/123] fix: keep the indentation of the first line of a yaml
 document

---
 src/main/cpp/lang/yaml.cpp | 42 +++++++-------------------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index fb8c79f..33376c1 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -338,24 +338,16 @@ private:
     void consume_document_prefix()
     {
         // https://yaml.org/spec/1.2.2/#l-document-prefix
-        while (!eof()) {
-            consume_whitespace_and_comments();
-            if (eof()) {
-                break;
-            }
-            // The prefix is just comments and blank lines.
-            // If we see anything else, it's the start of a document.
-            if (!expect_comment_or_blank()) {
-                break;
-            }
-        }
+        // The prefix is just comments and blank lines.
+        // If we see anything else, it's the start of a document.
+        skip_blank_and_comment_lines();
     }
 
     void consume_document_suffix()
     {
         // https://yaml.org/spec/1.2.2/#l-document-suffix
         while (!eof()) {
-            consume_whitespace_and_comments();
+            skip_blank_and_comment_lines();
             if (eof()) {
                 break;
             }
@@ -373,7 +365,7 @@ private:
     {
         // https://yaml.org/spec/1.2.2/#l-any-document
         indent_stack.reset();
-        consume_whitespace_and_comments();
+        skip_blank_and_comment_lines();
         if (eof()) {
             return;
         }
@@ -390,7 +382,7 @@ private:
         if (indent == 0 && remainder.starts_with(u8'%')) {
             consume_directives();
             // After directives, expect ---
-            consume_whitespace_and_comments();
+            skip_blank_and_comment_lines();
             if (is_document_marker(u8"---")) {
                 consume_document_start();
                 return;
@@ -434,7 +426,7 @@ private:
     {
         // https://yaml.org/spec/1.2.2/#l-directive
         while (!eof()) {
-            consume_whitespace_and_comments();
+            skip_blank_and_comment_lines();
             if (eof() || !remainder.starts_with(u8'%')) {
                 break;
             }
@@ -508,26 +500,6 @@ private:
         }
     }
 
-    [[nodiscard]]
-    bool expect_comment_or_blank()
-    {
-        consume_whitespace_and_comments();
-        if (eof()) {
-            return true;
-        }
-        // If we're at a comment or line break, consume and return true
-        if (remainder[0] == u8'#') {
-            consume_comment();
-            skip_line_break();
-            return true;
-        }
-        if (match_line_break(remainder)) {
-            skip_line_break();
-            return true;
-        }
-        return false;
-    }
-
     /// @brief Skip blank lines and comment-only lines without consuming indentation spaces.
     void skip_blank_and_comment_lines()
     {
-- 
2.43.0


From 39121e0bd7b589c49df8042eb103e868f25102cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 118/123] fix: highlight comments after yaml directives

---
 src/main/cpp/lang/yaml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 33376c1..fd86ba7 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -454,6 +454,9 @@ private:
         while (!remainder.empty() && !match_line_break(remainder)) {
             if (is_yaml_whitespace(remainder[0])) {
                 advance(1);
+                if (remainder.starts_with(u8'#')) {
+                    break;
+                }
             }
             else {
                 const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
-- 
2.43.0


From 07fba1ffd5e4e61be0c6f7c4b6da0e36eb74bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 119/123] fix: highlight node properties of yaml keys

---
 src/main/cpp/lang/yaml.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index fd86ba7..0708519 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -630,6 +630,12 @@ private:
     [[nodiscard]]
     bool try_consume_block_mapping_key(const std::size_t line_indent)
     {
+        // Node properties may precede a key, a value, or stand on a line of their own.
+        consume_node_properties();
+        if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
+            return true;
+        }
+
         const std::optional<std::size_t> colon_pos = match_implicit_key();
         if (!colon_pos) {
             return false;
-- 
2.43.0


From 1f0289046f5f94fce5c5f320ed53679a08d0876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 120/123] fix: recognize yaml pairs in flow sequences and empty
 values in flow collections

---
 src/main/cpp/lang/yaml.cpp | 76 +++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 0708519..512eff6 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -682,7 +682,8 @@ private:
             return false;
         }
         return pos + 1 == remainder.length() || is_yaml_whitespace(remainder[pos + 1])
-            || match_line_break(remainder.substr(pos + 1)) != 0;
+            || match_line_break(remainder.substr(pos + 1)) != 0
+            || (flow_depth != 0 && is_yaml_flow_indicator(remainder[pos + 1]));
     }
 
     /// @brief Returns the length of the implicit key at the start of the remaining source,
@@ -692,22 +693,19 @@ private:
     std::optional<std::size_t> match_implicit_key() const
     {
         // https://yaml.org/spec/1.2.2/#rule-ns-l-block-map-implicit-entry
-        const std::u8string_view line = remainder.substr(
-            0, ascii::length_if_not(remainder, Charset256(u8"\r\n"))
-        );
-        std::size_t pos = 0;
-
         // Quotes and brackets are only special at the start of a key;
         // within a plain scalar, they are ordinary characters.
-        if (const std::size_t json_length = match_json_key(line)) {
-            pos = json_length;
-            pos += ascii::length_if(line.substr(pos), is_yaml_whitespace);
+        if (std::size_t pos = match_json_key(remainder)) {
+            pos += ascii::length_if(remainder.substr(pos), is_yaml_whitespace);
             return is_value_indicator(pos) ? std::optional { pos } : std::nullopt;
         }
 
-        for (; pos < line.length(); ++pos) {
+        for (std::size_t pos = 0; pos < remainder.length(); ++pos) {
+            if (match_line_break(remainder.substr(pos))) {
+                break;
+            }
             // '#' only begins a comment if it is separated by whitespace.
-            if (line[pos] == u8'#' && pos > 0 && is_yaml_whitespace(line[pos - 1])) {
+            if (remainder[pos] == u8'#' && pos > 0 && is_yaml_whitespace(remainder[pos - 1])) {
                 break;
             }
             if (is_value_indicator(pos)) {
@@ -717,30 +715,34 @@ private:
         return std::nullopt;
     }
 
-    /// @brief Returns the length of the quoted scalar or flow collection at the start of `line`.
-    /// If it does not end on the line, it extends to the end of the line.
+    /// @brief Returns the length of the quoted scalar or flow collection at the start of `str`.
+    /// If it does not end on the first line, it extends to the end of that line.
     /// If there is none, returns zero.
     [[nodiscard]]
-    static std::size_t match_json_key(const std::u8string_view line)
+    static std::size_t match_json_key(const std::u8string_view str)
     {
         static constexpr Charset256 is_scalar_prefix { u8" \t,:[]{}'\"" };
 
         std::size_t pos = 0;
         std::size_t depth = 0;
-        while (pos < line.length()) {
-            const char8_t c = line[pos];
+        while (pos < str.length() && !match_line_break(str.substr(pos))) {
+            const char8_t c = str[pos];
             if (c == u8'[' || c == u8'{') {
                 ++depth;
             }
             else if (depth != 0 && (c == u8']' || c == u8'}')) {
                 --depth;
             }
-            else if ((c == u8'"' || c == u8'\'')
-                     && (pos == 0 || is_scalar_prefix(line[pos - 1]))) {
-                for (++pos; pos < line.length() && line[pos] != c; ++pos) {
-                    if (c == u8'"' && line[pos] == u8'\\') {
-                        ++pos; // skip escaped char
-                    }
+            else if ((c == u8'"' || c == u8'\'') && (pos == 0 || is_scalar_prefix(str[pos - 1]))) {
+                ++pos;
+                while (pos < str.length() && str[pos] != c && !match_line_break(str.substr(pos))) {
+                    // skip escaped char
+                    const bool is_escape = c == u8'"' && str[pos] == u8'\\'
+                        && pos + 1 < str.length() && !match_line_break(str.substr(pos + 1));
+                    pos += is_escape ? 2 : 1;
+                }
+                if (pos == str.length() || str[pos] != c) {
+                    break;
                 }
             }
             else if (depth == 0) {
@@ -748,12 +750,12 @@ private:
             }
             ++pos;
             // '' within single quotes is an escaped quote, not the end of the scalar.
-            const bool is_escaped_quote = c == u8'\'' && pos < line.length() && line[pos] == c;
+            const bool is_escaped_quote = c == u8'\'' && pos < str.length() && str[pos] == c;
             if (depth == 0 && !is_escaped_quote) {
                 break;
             }
         }
-        return std::min(pos, line.length());
+        return pos;
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
@@ -947,11 +949,26 @@ private:
                 continue;
             default: break;
             }
-            consume_flow_node();
+            consume_node_properties();
+            consume_flow_entry(is_flow_key());
             consume_whitespace_and_comments();
         }
     }
 
+    /// @brief Returns `true` if the remaining source starts with a scalar
+    /// which is the key of a single pair within a flow sequence.
+    [[nodiscard]]
+    bool is_flow_key() const
+    {
+        // https://yaml.org/spec/1.2.2/#rule-ns-flow-pair
+        if (remainder.starts_with(u8'"') || remainder.starts_with(u8'\'')) {
+            std::size_t pos = match_json_key(remainder);
+            pos += ascii::length_if(remainder.substr(pos), is_yaml_whitespace);
+            return pos < remainder.length() && remainder[pos] == u8':';
+        }
+        return is_value_indicator(match_plain_scalar());
+    }
+
     void consume_flow_mapping()
     {
         // https://yaml.org/spec/1.2.2/#c-flow-mapping
@@ -977,21 +994,22 @@ private:
             }
 
             // Parse key: value pair
-            consume_flow_mapping_entry();
+            consume_flow_entry(true);
             consume_whitespace_and_comments();
         }
     }
 
-    void consume_flow_mapping_entry()
+    void consume_flow_entry(const bool is_key)
     {
         // Key
-        if (remainder.starts_with(u8'?')) {
+        if (remainder.starts_with(u8'?') && remainder.length() > 1
+            && (is_yaml_whitespace(remainder[1]) || match_line_break(remainder.substr(1)))) {
             emit_and_advance(1, Highlight_Type::symbol_punc);
             consume_whitespace_and_comments();
             consume_flow_node(true);
         }
         else {
-            consume_flow_node(true);
+            consume_flow_node(is_key);
         }
 
         consume_whitespace_and_comments();
-- 
2.43.0


From b168be11d87299b19aaa02d0b25ce5a16288b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 121/123] fix: highlight the colon after yaml keys which end in
 white space

---
 src/main/cpp/lang/yaml.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 512eff6..294bb3e 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -642,8 +642,11 @@ private:
         }
 
         // Highlight the key
-        const std::u8string_view key_part = remainder.substr(0, *colon_pos);
-        consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
+        const std::u8string_view key_part = trim_whitespace_right(remainder.substr(0, *colon_pos));
+        if (!key_part.empty()) {
+            emit_and_advance(key_part.length(), Highlight_Type::markup_attr);
+        }
+        consume_inline_whitespace();
 
         // Highlight the colon
         emit_and_advance(1, Highlight_Type::symbol_punc);
@@ -801,18 +804,6 @@ private:
         return false;
     }
 
-    /// @brief Consume flow node content of a specific length with given highlight type.
-    void consume_flow_node_content(std::size_t length, const Highlight_Type type)
-    {
-        // Trim trailing whitespace from the content
-        while (length > 0 && is_yaml_whitespace(remainder[length - 1])) {
-            --length;
-        }
-        if (length > 0) {
-            emit_and_advance(length, type);
-        }
-    }
-
     void consume_node_properties()
     {
         // https://yaml.org/spec/1.2.2/#c-ns-properties
-- 
2.43.0


From 75a7b67d1481e383e23561609d838cfc3e7178d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 122/123] fix: do not match lone signs as yaml numbers

---
 src/main/cpp/lang/yaml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 294bb3e..d28ebee 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -126,7 +126,10 @@ Common_Number_Result match_number(const std::u8string_view str)
     }
 
     // General decimal / float.
-    {
+    // A sign on its own is an ordinary plain scalar.
+    const std::size_t sign_length = str.starts_with(u8'+') || str.starts_with(u8'-') ? 1 : 0;
+    if (str.length() > sign_length
+        && (is_ascii_digit(str[sign_length]) || str[sign_length] == u8'.')) {
         static constexpr Exponent_Separator exponent_separators[] {
             { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 },
             { u8"E+", 10 }, { u8"E-", 10 }, { u8"E", 10 },
@@ -138,6 +141,7 @@ Common_Number_Result match_number(const std::u8string_view str)
         };
         return match_common_number(str, options);
     }
+    return {};
 }
 
 Plain_Identifier_Result match_plain_identifier(const std::u8string_view str)
-- 
2.43.0


From 6cb180427ab11b8687504749f0f96ad6cc39b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:38 +0000
Subject: [PATCH 123/123] fix: recognize explicit yaml keys before tabs and the
 end of the source

---
 src/main/cpp/lang/yaml.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index d28ebee..d2a8762 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -566,16 +566,14 @@ private:
             column = 0;
 
             // Handle explicit mapping key: ? key
-            if (remainder.starts_with(u8"? ") || //
-                (remainder.starts_with(u8"?") && remainder.length() > 1
-                 && match_line_break(remainder.substr(1)))) {
+            if (is_entry_indicator(u8'?')) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 consume_block_collection_entry(line_indent);
                 continue;
             }
 
             // Handle block sequence entry: - item
-            if (is_sequence_entry(remainder)) {
+            if (is_entry_indicator(u8'-')) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 consume_block_collection_entry(line_indent);
                 continue;
@@ -619,14 +617,15 @@ private:
         indent_stack.pop();
     }
 
-    /// @brief Returns `true` if `str` begins with the `-` of a block sequence entry.
+    /// @brief Returns `true` if the remaining source begins with the given indicator
+    /// of a block collection entry, i.e. `-` or `?`.
     [[nodiscard]]
-    static bool is_sequence_entry(const std::u8string_view str)
+    bool is_entry_indicator(const char8_t indicator) const
     {
         // https://yaml.org/spec/1.2.2/#rule-c-l-block-seq-entry
-        return str.starts_with(u8'-')
-            && (str.length() == 1 || is_yaml_whitespace(str[1])
-                || match_line_break(str.substr(1)) != 0);
+        return remainder.starts_with(indicator)
+            && (remainder.length() == 1 || is_yaml_whitespace(remainder[1])
+                || match_line_break(remainder.substr(1)) != 0);
     }
 
     /// @brief Try to consume a block mapping key at the given indentation.
@@ -945,7 +944,9 @@ private:
             default: break;
             }
             consume_node_properties();
-            consume_flow_entry(is_flow_key());
+            const bool is_key = !remainder.starts_with(u8'*') && !is_entry_indicator(u8'?')
+                && is_flow_key();
+            consume_flow_entry(is_key);
             consume_whitespace_and_comments();
         }
     }
@@ -997,8 +998,7 @@ private:
     void consume_flow_entry(const bool is_key)
     {
         // Key
-        if (remainder.starts_with(u8'?') && remainder.length() > 1
-            && (is_yaml_whitespace(remainder[1]) || match_line_break(remainder.substr(1)))) {
+        if (is_entry_indicator(u8'?')) {
             emit_and_advance(1, Highlight_Type::symbol_punc);
             consume_whitespace_and_comments();
             consume_flow_node(true);
-- 
2.43.0

