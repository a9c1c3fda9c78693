From 8eba75bcd4b6052321ef490c1fe6a92bc0ce5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 01/99] fix: is_high_surrogate() accepted U+D7FF, U+E000 and
 low surrogates

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..78580aa 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -86,7 +86,7 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From 6a133401dae95d5b5f68e4870666d86e7b96f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 02/99] fix: decoder<char32_t>::from_codepoint() reported 3
 processed bytes for 4-byte codepoints

---
 include/papilio/utf/codepoint.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..e135fdd 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -99,7 +99,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
         result <<= 6;
         result |= bytes[3] & 0b0011'1111;
 
-        return std::make_pair(result, std::uint8_t(3));
+        return std::make_pair(result, std::uint8_t(4));
     }
 
     return std::make_pair(U'\0', std::uint8_t(0));
-- 
2.43.0


From 5dcf1f0c75ad0536747ebc1e0b7817db7fb16143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/99] fix: decoder<char16_t>::to_codepoint(first, second)
 ignored the number of processed units

---
 include/papilio/utf/codepoint.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index e135fdd..16c80ef 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -158,7 +158,9 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(std
 
 constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(char16_t first, char16_t second)
 {
-    return decoder<char32_t>::to_codepoint(to_char32_t(first, second).first);
+    char16_t tmp[2] = {first, second};
+
+    return to_codepoint(std::u16string_view(tmp, 2));
 }
 
 constexpr auto decoder<char16_t>::from_codepoint(codepoint cp) -> from_codepoint_result
-- 
2.43.0


From 8a9463608d11c4a3d64d6b67cce68607c5c2fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 04/99] fix: strlen(const CharT*, max_chars) read one unit past
 the limit

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 78580aa..6efa0d0 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -122,7 +122,7 @@ constexpr std::size_t strlen(
     std::size_t result = 0;
     std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < max_chars && str[i] != CharT(0);)
     {
         if(bytes != 0)
         {
-- 
2.43.0


From b3389d0ae87bd8fcafd284813a8e653e46824da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 05/99] fix: strlen(const char32_t*, max_chars) had no return
 value without a terminator

---
 include/papilio/utf/stralgo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 6efa0d0..f490b44 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -314,6 +314,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
-- 
2.43.0


From faf386baca278db0e77f16d0ead9ca88251c4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 06/99] fix: index_offset(reverse_index, ...) of an empty
 UTF-32 string wrapped around

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f490b44..8a8802b 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -474,7 +474,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From d318ff9d10271bd7bf8bfd4966b03b868c3241f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 07/99] fix: strlen() of UTF-16 text mishandled BMP characters
 and unpaired surrogates

---
 include/papilio/utf/stralgo.hpp | 65 +++++++++++++--------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 8a8802b..cf077e9 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -238,46 +238,35 @@ PAPILIO_EXPORT template <
     char16_like CharT>
 [[nodiscard]]
 constexpr std::size_t strlen(
-    const CharT* str, std::size_t max_chars
+    std::basic_string_view<CharT> str
 ) noexcept(OnInvalid != strlen_behavior::exception)
 {
     std::size_t result = 0;
 
-    if constexpr(OnInvalid == strlen_behavior::ignore || OnInvalid == strlen_behavior::replace)
+    for(std::size_t i = 0; i < str.size(); ++i)
     {
-        for(std::size_t i = 0; i < max_chars && str[i] != CharT(0); ++i)
+        std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
+
+        if(PAPILIO_NS utf::is_high_surrogate(ch) &&
+           i + 1 < str.size() &&
+           PAPILIO_NS utf::is_low_surrogate(static_cast<std::uint16_t>(str[i + 1])))
         {
-            if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
-                ++result;
+            ++i;
+            ++result;
         }
-    }
-    else
-    {
-        bool prev_is_high = false;
-        for(std::size_t i = 0; i < max_chars && str[i] != CharT(0); ++i)
+        else if(PAPILIO_NS utf::is_high_surrogate(ch) || PAPILIO_NS utf::is_low_surrogate(ch)) [[unlikely]]
         {
-            std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
-
-            if(PAPILIO_NS utf::is_high_surrogate(ch))
-            {
-                if(prev_is_high) [[unlikely]]
-                {
-                    // Invalid surrogate
-                    if constexpr(OnInvalid == strlen_behavior::stop)
-                        return result;
-                    else
-                        throw invalid_surrogate(ch);
-                }
-
-                prev_is_high = true;
-            }
-            else
-            {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
-
-                prev_is_high = false;
+            // Unpaired surrogate
+            if constexpr(OnInvalid == strlen_behavior::replace)
                 ++result;
-            }
+            else if constexpr(OnInvalid == strlen_behavior::stop)
+                return result;
+            else if constexpr(OnInvalid == strlen_behavior::exception)
+                throw invalid_surrogate(ch);
+        }
+        else
+        {
+            ++result;
         }
     }
 
@@ -289,18 +278,14 @@ PAPILIO_EXPORT template <
     char16_like CharT>
 [[nodiscard]]
 constexpr std::size_t strlen(
-    std::basic_string_view<CharT> str
+    const CharT* str, std::size_t max_chars
 ) noexcept(OnInvalid != strlen_behavior::exception)
 {
-    std::size_t result = 0;
-
-    for(std::size_t i = 0; i < str.size(); ++i)
-    {
-        if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
-            ++result;
-    }
+    std::size_t len = 0;
+    while(len < max_chars && str[len] != CharT(0))
+        ++len;
 
-    return result;
+    return strlen<OnInvalid, CharT>(std::basic_string_view<CharT>(str, len));
 }
 
 PAPILIO_EXPORT template <
-- 
2.43.0


From 66b0535adb6a57cd1f99a1d64f738998d6df321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 08/99] fix: index_offset() asserted on an empty string without
 storage instead of reporting npos

---
 include/papilio/utf/stralgo.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index cf077e9..9a1482f 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -330,7 +330,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::uint8_t len = 0;
     std::size_t ch_count = 0;
@@ -365,7 +365,7 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
     for(std::size_t i = max_chars; i != 0; --i)
@@ -388,7 +388,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::uint8_t len = 0;
     std::size_t ch_count = 0;
@@ -423,7 +423,7 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
     for(std::size_t i = max_chars; i != 0; --i)
@@ -446,7 +446,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     (void)str; // Unused
     return idx < max_chars ? idx : npos;
-- 
2.43.0


From 84a9d482783d3cd0b07ceab851faa96ed0b33571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 09/99] fix: codepoint::replace() did not compile for char32_t
 strings

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 94889f8..6b3e5b1 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -433,7 +433,7 @@ public:
         {
             str.replace(pos, count, std::basic_string_view<CharT>(*this));
         }
-        else if(char16_like<CharT>)
+        else if constexpr(char16_like<CharT>)
         {
             auto result = decoder<CharT>::from_codepoint(*this);
             str.replace(pos, count, result.get());
-- 
2.43.0


From 3328d23ff490a630b1c1e45d0a184542b9f0a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 10/99] fix: basic_string_container::assign(count, ch) returned
 nothing

---
 include/papilio/utf/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..7818fa0 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -963,6 +963,8 @@ public:
     {
         string_type& str = to_str();
         str.assign(count, ch);
+
+        return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
-- 
2.43.0


From 6d2dd9499d2242bedd599ab160e8e002a253999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 11/99] fix: basic_string_container::iterator looked at the
 wrong unit when advancing

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 7818fa0..6655ca5 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1451,7 +1451,7 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(to_address()[m_offset]);
+            m_offset += m_str->ch_size_for_cp(*to_address());
             if(m_offset > m_str->size())
                 m_offset = m_str->size();
         }
-- 
2.43.0


From 70f9477f7c15f6bf88089e556f65400ffb8ffebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 12/99] fix: assigning independent() of a constant view to a
 string container did not copy it

---
 include/papilio/utf/string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 6655ca5..deaea07 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1079,6 +1079,11 @@ public:
         return assign(independent, str);
     }
 
+    basic_string_container& operator=(independent_proxy<const string_view_type> str)
+    {
+        return assign(independent, str);
+    }
+
     [[nodiscard]]
     constexpr bool empty() const noexcept
     {
-- 
2.43.0


From 3cf42c80326371dae27616f11567de71dc1ca7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 13/99] fix: basic_string_container::assign(count, codepoint)
 kept the previous text

---
 include/papilio/utf/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index deaea07..e23ee92 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -970,6 +970,7 @@ public:
     basic_string_container& assign(size_type count, codepoint cp)
     {
         string_type& str = to_str();
+        str.clear();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
-- 
2.43.0


From 612a1bf81f40cd49c2d5799d564b50a8cfd3b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 14/99] fix: basic_string_container::assign_range() truncated
 codepoints to one unit

---
 include/papilio/utf/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index e23ee92..7953321 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1041,7 +1041,9 @@ public:
     template <std::ranges::input_range R>
     basic_string_container& assign_range(R&& r) noexcept
     {
-        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
+        // A codepoint is also convertible to CharT, but only by truncating it
+        if constexpr(std::integral<std::remove_cvref_t<std::ranges::range_reference_t<R>>> &&
+                     std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
         {
             string_type buf;
             if constexpr(std::ranges::sized_range<R>)
-- 
2.43.0


From 6d03baba6a3846c6945ebdadc6b8d07c8007c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 15/99] fix: copying a small_vector and
 small_vector::get_allocator() did not compile

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..93f9ab1 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -568,6 +568,11 @@ private:
         return m_data.second();
     }
 
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
-- 
2.43.0


From 86f90a8d9da077aec62edd7efac571436ab6de2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 16/99] fix: small_vector::append_range() reserved too little
 for a non-empty vector

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 93f9ab1..54d15d5 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -858,7 +858,7 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From 5f45a81b0fc22fd8b4b0b4c03ed27b79f1e231fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 17/99] fix: small_vector::emplace_back() of its own element
 used it after the reallocation

---
 include/papilio/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 54d15d5..8dfd991 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,8 +441,11 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // the arguments may refer to an element of this container
+            value_type tmp(std::forward<Args>(args)...);
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+            return emplace_back_impl(std::move(tmp));
         }
         return emplace_back_impl(std::forward<Args>(args)...);
     }
-- 
2.43.0


From 8ecce8d5b5c24e78a06a3f6d9f142daea9aa3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 18/99] fix: small_vector::insert() of its own element used it
 after it was moved

---
 include/papilio/container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 8dfd991..bb2f9ab 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -634,14 +634,16 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
-        reserve(this->size() + 1);
-
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back(std::forward<Args>(args)...);
             return std::prev(this->end());
         }
 
+        // the arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
+        reserve(this->size() + 1);
+
         emplace_back_impl(std::move(this->back()));
 
         auto move_dst = std::prev(this->end());
@@ -649,7 +651,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
-- 
2.43.0


From 52e1cb443bfbab079eef14d99deb31f1d606a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 19/99] fix: small_vector::resize() to copies of its own
 element used it after the reallocation

---
 include/papilio/container.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index bb2f9ab..94a35cf 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -499,9 +499,11 @@ public:
         }
         else if(count > this->size())
         {
+            // the value may be an element of this container
+            const value_type tmp(val);
             reserve(count);
             while(this->size() != count)
-                emplace_back_impl(val);
+                emplace_back_impl(tmp);
         }
     }
 
-- 
2.43.0


From f96c87733ee3b21d01fb0847d2b50a24ebe15cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 20/99] fix: swap(small_vector, small_vector) did not compile

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 94a35cf..cf3effb 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -542,7 +542,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From da7c5e56455489d629ad761bc9557ec9b814dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 21/99] fix: fixed_vector constructors leaked the elements
 constructed before an exception

---
 include/papilio/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index cf3effb..7ed1f9b 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -919,6 +919,7 @@ public:
         : m_size(0) {}
 
     fixed_vector(const fixed_vector& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -927,6 +928,7 @@ public:
     }
 
     fixed_vector(fixed_vector&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -935,6 +937,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From f0b210cbca1addff30f136759d50cd930801d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 22/99] fix: fixed_vector::insert() of its own element used it
 after it was moved

---
 include/papilio/container.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 7ed1f9b..40ac983 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1091,6 +1091,8 @@ public:
             throw_length_error();
         }
 
+        // the arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1101,7 +1103,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 88cde7bfc7e43bcd08fb1eee77fc1c22e79cdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 23/99] fix: fixed_flat_map::find() read past the end when the
 key is greater than all keys

---
 include/papilio/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 40ac983..dbf7360 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1395,28 +1395,28 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
-- 
2.43.0


From 47af02a957d5cba2c000e38f63e4cbd53a05353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 24/99] fix: assigning an optional_unique_ptr did not compile

---
 include/papilio/memory.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..c39715b 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -205,7 +205,19 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != &other)
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != &other)
+        {
+            reset(nullptr);
+            m_ptr = std::exchange(other.m_ptr, pointer());
+            m_has_ownership = std::exchange(other.m_has_ownership, false);
+        }
         return *this;
     }
 
@@ -379,7 +391,19 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != &other)
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != &other)
+        {
+            reset(nullptr);
+            m_ptr = std::exchange(other.m_ptr, pointer());
+            m_has_ownership = std::exchange(other.m_has_ownership, false);
+        }
         return *this;
     }
 
-- 
2.43.0


From ae5a2ceabd369aa3336f5fc49bb56c83129257d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 25/99] fix: moving and swapping an optional_unique_ptr left
 its deleter behind

---
 include/papilio/memory.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index c39715b..152ed23 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -178,7 +178,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
@@ -216,6 +216,7 @@ public:
         {
             reset(nullptr);
             m_ptr = std::exchange(other.m_ptr, pointer());
+            m_del = std::move(other.m_del);
             m_has_ownership = std::exchange(other.m_has_ownership, false);
         }
         return *this;
@@ -292,6 +293,7 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
@@ -368,7 +370,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     template <typename U>
@@ -402,6 +404,7 @@ public:
         {
             reset(nullptr);
             m_ptr = std::exchange(other.m_ptr, pointer());
+            m_del = std::move(other.m_del);
             m_has_ownership = std::exchange(other.m_has_ownership, false);
         }
         return *this;
@@ -473,6 +476,7 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
-- 
2.43.0


From 73af458b88d9a698290ee6d900e87c387d3ef137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 26/99] fix: optional_unique_ptr<T[]> took and exchanged
 pointers of the wrong type and dropped the ownership

---
 include/papilio/memory.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 152ed23..3674438 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -364,8 +364,8 @@ public:
           m_has_ownership(false) {}
 
     template <typename D>
-    optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr), m_del(), m_has_ownership(false)
+    optional_unique_ptr(const optional_unique_ptr<T[], D>& other)
+        : m_ptr(other.get()), m_del(), m_has_ownership(false)
     {}
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
@@ -380,10 +380,10 @@ public:
     {}
 
     template <typename D>
-    optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
+    optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
@@ -439,7 +439,7 @@ public:
     }
 
     template <typename D>
-    void reset(std::unique_ptr<T, D>&& ptr) noexcept
+    void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
@@ -472,7 +472,7 @@ public:
     }
 
     template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr<T[], D>& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
-- 
2.43.0


From 1ecac7286927092f46bed07cb4ee290c3b0710c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 27/99] fix: optional_unique_ptr dropped the deleter of the
 unique_ptr it took over

---
 include/papilio/memory.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 3674438..d24aae9 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -196,6 +196,8 @@ public:
         : m_ptr(ptr.release())
     {
         m_has_ownership = m_ptr;
+        if constexpr(std::is_assignable_v<Deleter&, D&&>)
+            m_del = std::forward<D>(ptr.get_deleter());
     }
 
     ~optional_unique_ptr()
@@ -263,6 +265,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::forward<D>(ptr.get_deleter());
         }
     }
 
@@ -384,6 +388,8 @@ public:
         : m_ptr(ptr.release())
     {
         m_has_ownership = static_cast<bool>(m_ptr);
+        if constexpr(std::is_assignable_v<Deleter&, D&&>)
+            m_del = std::forward<D>(ptr.get_deleter());
     }
 
     ~optional_unique_ptr()
@@ -446,6 +452,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::forward<D>(ptr.get_deleter());
         }
     }
 
-- 
2.43.0


From 777f9e849df440c653b36c6f41bded0ac4d83f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 28/99] fix: an optional_unique_ptr made from a null pointer
 claimed to own it

---
 include/papilio/memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index d24aae9..6deadbc 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -184,12 +184,12 @@ public:
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(ownership) {}
+          m_has_ownership(ownership && m_ptr) {}
 
     optional_unique_ptr(independent_t, pointer ptr) noexcept
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(true) {}
+          m_has_ownership(static_cast<bool>(m_ptr)) {}
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
@@ -380,7 +380,7 @@ public:
     template <typename U>
     requires detail::optional_arr_ptr_acceptable<U, pointer, element_type>
     optional_unique_ptr(U ptr, bool ownership) noexcept
-        : m_ptr(ptr), m_del(), m_has_ownership(ownership)
+        : m_ptr(ptr), m_del(), m_has_ownership(ownership && m_ptr)
     {}
 
     template <typename D>
-- 
2.43.0


From 98d4c31743d3059d5b3595f7e143e5dee9fa4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 29/99] fix: copying an optional_unique_ptr with another
 deleter type did not compile

---
 include/papilio/memory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 6deadbc..f22f146 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -172,7 +172,7 @@ public:
 
     template <typename D>
     optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr),
+        : m_ptr(other.get()),
           m_has_ownership(false)
     {}
 
-- 
2.43.0


From 40e42358fd0dfe15b5e056db1de770b1bf783baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 30/99] fix: compressed_pair with an empty second type
 forwarded its arguments as each other

---
 include/papilio/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..ee9e4bb 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -561,7 +561,7 @@ namespace detail
 
         template <typename U1, typename U2>
         constexpr compressed_pair_impl(U1&& v1, U2&& v2)
-            : T2(std::forward<U1>(v2)), m_first(std::forward<U2>(v1))
+            : T2(std::forward<U2>(v2)), m_first(std::forward<U1>(v1))
         {}
 
 
-- 
2.43.0


From 49cccea7ae23a2ff0c885ebcc1ea18ec25698e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 31/99] fix: compressed_pair with an empty first type could not
 be constructed piecewise from rvalues

---
 include/papilio/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index ee9e4bb..1998321 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -504,7 +504,7 @@ namespace detail
     protected:
         template <typename Tuple1, typename Tuple2, std::size_t... Indices1, std::size_t... Indices2>
         constexpr compressed_pair_impl(
-            Tuple1& args1, Tuple2 args2, std::index_sequence<Indices1...>, std::index_sequence<Indices2...>
+            Tuple1& args1, Tuple2& args2, std::index_sequence<Indices1...>, std::index_sequence<Indices2...>
         )
             : T1(std::get<Indices1>(std::move(args1))...), m_second(std::get<Indices2>(std::move(args2))...)
         {}
-- 
2.43.0


From 89f28adb8d2dca83e831a9923041ad482b04f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 32/99] fix: a character with a width but without an alignment
 ran into undefined behaviour

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..3bb20e7 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5099,6 +5099,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From d3e41c60ee4185f2bd04698ecc430f73cf1b4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 33/99] fix: {:c} accepted integers that are no code points

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3bb20e7..2d66603 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5541,7 +5541,7 @@ public:
     {
         if(m_data.type == U'c')
         {
-            if(std::cmp_greater(val, std::numeric_limits<std::uint32_t>::max()))
+            if(std::cmp_less(val, 0) || std::cmp_greater(val, 0x10FFFFu))
                 throw format_error("integer value out of range");
 
             codepoint_formatter fmt;
-- 
2.43.0


From 8cc1f78de81648d64950691af61498614bb5ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 34/99] fix: the 0 option was ignored for floating points

---
 include/papilio/core.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 2d66603..54fa33f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4872,7 +4872,9 @@ public:
 
         data() = dt;
         data().fill = dt.fill_or(U' ');
-        if(data().align == format_align::default_align)
+        if(data().align != format_align::default_align)
+            data().fill_zero = false;
+        else
             data().align = format_align::right;
     }
 
@@ -4910,7 +4912,11 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        auto [left, right] = fill_size(used);
+        const bool fill_zero = data().fill_zero && std::isfinite(val);
+
+        auto [left, right] = fill_zero ?
+                                 std::make_pair<std::size_t, std::size_t>(0, 0) :
+                                 fill_size(used);
 
         fill(ctx, left);
 
@@ -4934,6 +4940,9 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
+        if(fill_zero && used < data().width)
+            context_t::append(ctx, static_cast<CharT>('0'), data().width - used);
+
         context_t::append(ctx, buf, buf + fp_size);
 
         fill(ctx, right);
-- 
2.43.0


From 6f2cff343d46392f2ab06df0174292a9a20f5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 35/99] fix: floating points without type and precision were
 not written in the shortest form

---
 include/papilio/core.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 54fa33f..ad71e14 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4855,7 +4855,7 @@ private:
  * - `g`, `G`: General format. The precision will be 6 if not specified.
  * - `e`, `E`: Scientific format. The precision will be 6 if not specified.
  * - `a`, `A`: Hexadecimal format.
- * - none: Same as the general (`g`) format.
+ * - none: Same as the general (`g`) format if the precision is specified, otherwise the shortest format.
  *
  * The uppercase types will replace all letters with their uppercase version.
  * For example, `E` format will use the letter E to indicate the exponent.
@@ -5045,7 +5045,9 @@ private:
         char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
         char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
 
-        if(precision == 0)
+        if(precision == 0 && data().type == U'\0')
+            result = std::to_chars(start, stop, val);
+        else if(precision == 0)
             result = std::to_chars(start, stop, val, ch_fmt);
         else
             result = std::to_chars(start, stop, val, ch_fmt, precision);
-- 
2.43.0


From 29f4407941c08c67af537af10ee8cbf0bfdc94bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 36/99] fix: floating points longer than 32 characters could
 not be formatted

---
 include/papilio/core.hpp | 62 ++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index ad71e14..7f803cb 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4884,14 +4884,13 @@ public:
     {
         using context_t = format_context_traits<FormatContext>;
 
-        CharT buf[buf_size];
-
-        std::size_t fp_size = 0;
+        small_vector<char, buf_size> buf;
+        buf.resize(buf_size);
 
         bool neg = std::signbit(val);
         val = std::abs(val);
 
-        fp_size = conv<CharT>(buf, val);
+        const std::size_t fp_size = conv(buf, val);
 
         std::size_t used = fp_size;
 
@@ -4943,7 +4942,7 @@ public:
         if(fill_zero && used < data().width)
             context_t::append(ctx, static_cast<CharT>('0'), data().width - used);
 
-        context_t::append(ctx, buf, buf + fp_size);
+        context_t::append(ctx, buf.data(), buf.data() + fp_size);
 
         fill(ctx, right);
 
@@ -4951,6 +4950,7 @@ public:
     }
 
 private:
+    // Size of the initial buffer
     static constexpr std::size_t buf_size = 32;
 
     std::pair<std::chars_format, bool> get_chars_fmt() const
@@ -4994,8 +4994,7 @@ private:
         return std::make_pair(ch_fmt, uppercase);
     }
 
-    template <char8_like U>
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
+    std::size_t conv(small_vector<char, buf_size>& buf, T val) const
     {
         using namespace std::literals;
 
@@ -5035,6 +5034,8 @@ private:
             return 3;
         }
 
+        if(std::cmp_greater(data().precision, std::numeric_limits<int>::max())) [[unlikely]]
+            throw format_error("invalid precision");
         int precision = static_cast<int>(data().precision);
         if(precision == 0 &&
            U"fFeEgG"sv.find(data().type) != std::u32string::npos)
@@ -5042,28 +5043,27 @@ private:
             precision = 6;
         }
 
-        char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
-        char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
+        for(;;)
+        {
+            char* start = buf.data();
+            char* stop = buf.data() + buf.size();
 
-        if(precision == 0 && data().type == U'\0')
-            result = std::to_chars(start, stop, val);
-        else if(precision == 0)
-            result = std::to_chars(start, stop, val, ch_fmt);
-        else
-            result = std::to_chars(start, stop, val, ch_fmt, precision);
+            if(precision == 0 && data().type == U'\0')
+                result = std::to_chars(start, stop, val);
+            else if(precision == 0)
+                result = std::to_chars(start, stop, val, ch_fmt);
+            else
+                result = std::to_chars(start, stop, val, ch_fmt, precision);
 
-        if(result.ec == std::errc::value_too_large) [[unlikely]]
-        {
-            throw format_error("value too large");
-        }
-        else if(result.ec != std::errc())
-        {
-            PAPILIO_UNREACHABLE();
+            if(result.ec != std::errc::value_too_large) [[likely]]
+                break;
+
+            buf.resize(buf.size() * 2);
         }
 
-        std::size_t size = static_cast<std::size_t>(
-            result.ptr - std::bit_cast<char*>(buf.data())
-        );
+        PAPILIO_ASSERT(result.ec == std::errc());
+
+        std::size_t size = static_cast<std::size_t>(result.ptr - buf.data());
 
         if(uppercase)
         {
@@ -5076,18 +5076,6 @@ private:
 
         return size;
     }
-
-    template <typename U>
-    requires(!char8_like<U>)
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
-    {
-        char narrow_buf[buf_size];
-        std::size_t size = conv<char>(narrow_buf, val);
-        PAPILIO_ASSERT(size <= buf.size());
-
-        std::copy_n(narrow_buf, size, buf.begin());
-        return size;
-    }
 };
 
 /**
-- 
2.43.0


From 6a3cf92c45d8dd62e7dbbc6cff7cbf7a4798e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 37/99] fix: the debug output of a lone trailing byte was
 sign-extended

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7f803cb..b9e6ba5 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2530,7 +2530,7 @@ private:
             }
             else
             {
-                append_hex_digits(ctx, str[i], false);
+                append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
                 ++i;
             }
         }
-- 
2.43.0


From 2f0fade502396f7fac02ad1887c2cfb8b4eb42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 38/99] fix: the debug output dropped the character after an
 unpaired high surrogate

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b9e6ba5..b626096 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2558,13 +2558,13 @@ private:
                 else if(!PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
                 {
                     append_hex_digits(ctx, ch, false);
+                    ++i;
                 }
                 else
                 {
                     append(ctx, str.begin() + i, str.begin() + i + 2);
+                    i += 2;
                 }
-
-                i += 2;
             }
             else
             {
-- 
2.43.0


From 67c4c7658fa633e0c7d5560c266c8911674a9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 39/99] fix: the debug output of invalid UTF-32 units was not
 escaped

---
 include/papilio/core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b626096..fce87e2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2591,6 +2591,11 @@ private:
             {
                 append_as_esc_seq<true, false>(ctx, static_cast<std::uint32_t>(ch));
             }
+            else if(std::uint32_t val = static_cast<std::uint32_t>(ch);
+                    val > 0x10FFFF || (0xD800 <= val && val <= 0xDFFF))
+            {
+                append_hex_digits(ctx, val, false);
+            }
             else
             {
                 append(ctx, ch, 1);
-- 
2.43.0


From c8484daf14765322f251de6d60a13beccc166bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 40/99] fix: the bytes F8 to FF were taken for leading bytes,
 with undefined behaviour in byte_count()

---
 include/papilio/utf/stralgo.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 9a1482f..ed826ba 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -57,7 +57,7 @@ private:
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_leading_byte(std::uint8_t ch) noexcept
 {
-    return (ch & 0b1100'0000) != 0b1000'0000;
+    return (ch & 0b1100'0000) != 0b1000'0000 && ch < 0b1111'1000;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
@@ -140,8 +140,6 @@ constexpr std::size_t strlen(
         }
         else [[unlikely]]
         {
-            PAPILIO_ASSERT(PAPILIO_NS utf::is_trailing_byte(ch));
-
             if constexpr(OnInvalid == strlen_behavior::replace)
             {
                 ++result;
@@ -201,8 +199,6 @@ constexpr std::size_t strlen(
         }
         else [[unlikely]]
         {
-            PAPILIO_ASSERT(PAPILIO_NS utf::is_trailing_byte(ch));
-
             if constexpr(OnInvalid == strlen_behavior::replace)
             {
                 ++result;
-- 
2.43.0


From b983192d6da5f97850b2d3352593ec3c8c737a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 41/99] fix: the debug output of U+007F was not escaped

---
 include/papilio/core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index fce87e2..122256f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2332,6 +2332,7 @@ other_ch:
     static bool has_esc_seq(int_type val) noexcept
     {
         return val < ' ' ||
+               val == 0x7F ||
                val == '\t' ||
                val == '\n' ||
                val == '\r' ||
-- 
2.43.0


From 82f8d4938aebe77a1d8f1852bf23e4b978e3721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 42/99] fix: the debug output escaped the characters after a
 truncated UTF-8 sequence

---
 include/papilio/core.hpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 122256f..1c07e94 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2483,24 +2483,18 @@ private:
             if(PAPILIO_NS utf::is_leading_byte(str[i]))
             {
                 std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
-                if(i + size_bytes > str.size())
-                {
-                    for(std::size_t j = i; j < str.size(); ++j)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
-                    }
-                    return;
-                }
+
+                auto stop = std::find_if_not(
+                    str.begin() + i + 1,
+                    str.begin() + std::min<std::size_t>(i + size_bytes, str.size()),
+                    &utf::is_trailing_byte
+                );
 
                 if(has_esc_seq<true, false>(str[i]))
                 {
                     append_as_esc_seq<true, false>(ctx, str[i]);
                 }
-                else if(std::all_of(
-                            str.begin() + i + 1,
-                            str.begin() + i + size_bytes,
-                            &utf::is_trailing_byte
-                        ))
+                else if(std::distance(str.begin() + i, stop) == size_bytes)
                 {
                     append(
                         ctx,
@@ -2512,12 +2506,6 @@ private:
                 }
                 else
                 {
-                    auto stop = std::find_if_not(
-                        str.begin() + i + 1,
-                        str.begin() + i + size_bytes,
-                        &utf::is_trailing_byte
-                    );
-
                     for(auto it = str.begin() + i; it != stop; ++it)
                     {
                         append_hex_digits(ctx, static_cast<std::uint8_t>(*it), false);
-- 
2.43.0


From ccaa90096ca099d228c736136f1bbca59da12863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 43/99] fix: the debug output of overlong and surrogate UTF-8
 sequences was not escaped

---
 include/papilio/core.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1c07e94..81acc4f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2342,6 +2342,14 @@ other_ch:
                val < U' ';
     }
 
+    // Check if a sequence of a leading byte and trailing bytes is the UTF-8 encoding of a Unicode scalar value.
+    static bool is_scalar_value(char32_t val, std::uint8_t size_bytes) noexcept
+    {
+        return val <= 0x10FFFF &&
+               !(0xD800 <= val && val <= 0xDFFF) &&
+               utf::decoder<char32_t>::size_bytes(val) == size_bytes;
+    }
+
 public:
     /**
      * @brief Get the output iterator from the context.
@@ -2494,7 +2502,8 @@ private:
                 {
                     append_as_esc_seq<true, false>(ctx, str[i]);
                 }
-                else if(std::distance(str.begin() + i, stop) == size_bytes)
+                else if(std::distance(str.begin() + i, stop) == size_bytes &&
+                        is_scalar_value(utf::codepoint(str.data() + i, size_bytes), size_bytes))
                 {
                     append(
                         ctx,
-- 
2.43.0


From cefc78051303639bcb944622729609f5e38bf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 44/99] fix: enumeration values outside [-128, 128) were looked
 up outside the table of names

---
 include/papilio/core.hpp    | 14 +++++++++++---
 include/papilio/utility.hpp |  9 +++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 81acc4f..d56ea23 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5258,13 +5258,22 @@ public:
             return fmt.format(PAPILIO_NS to_underlying(e), ctx);
         }
 #ifdef PAPILIO_HAS_ENUM_NAME
+        else if(const std::string_view name = enum_name<Enum>(e); name.empty())
+        {
+            // Out of the range supported by "enum-to-string", fallback to integer representation
+            std_formatter_data int_data = m_data;
+            int_data.type = U'd';
+
+            int_formatter<std::underlying_type_t<Enum>, CharT> fmt;
+            fmt.set_data(int_data);
+            return fmt.format(PAPILIO_NS to_underlying(e), ctx);
+        }
         else
         {
             string_formatter<CharT> fmt;
             fmt.set_data(m_data);
             if constexpr(char8_like<CharT>)
             {
-                std::string_view name = enum_name<Enum>(e);
                 auto name_conv = std::basic_string_view<CharT>(
                     std::bit_cast<const CharT*>(name.data()),
                     name.size()
@@ -5276,8 +5285,7 @@ public:
             }
             else
             {
-                utf::string_ref name = enum_name<Enum>(e);
-                auto name_conv = name.to_string<CharT>();
+                auto name_conv = utf::string_ref(name).to_string<CharT>();
                 return fmt.format(
                     name_conv,
                     ctx
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 1998321..59903d8 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -981,7 +981,8 @@ constexpr std::string_view static_enum_name()
  * @param value The enum value.
  *
  * @warning This function has some limitations.
- * - It can only convert valid enum values ranging from -128 to 128.
+ * - It can only convert valid enum values ranging from -128 to 128 (exclusive).
+ *   The result for other values is an empty string.
  *
  * @sa static_enum_name
  */
@@ -996,7 +997,11 @@ constexpr std::string_view enum_name(T value) noexcept
         };
     }(std::make_index_sequence<256>());
 
-    return names[static_cast<std::size_t>(value) + 128];
+    const std::size_t idx = static_cast<std::size_t>(value) + 128;
+    if(idx >= names.size())
+        return std::string_view(); // out of range
+
+    return names[idx];
 }
 
 #if defined PAPILIO_COMPILER_CLANG
-- 
2.43.0


From 8cc8cd972d192f739b2433b390579a2f064c67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 45/99] fix: accept every upper case letter in field and
 attribute names

---
 src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.cpp b/src/core.cpp
index 5cbaee3..6adfae0 100644
--- a/src/core.cpp
+++ b/src/core.cpp
@@ -137,7 +137,7 @@ bool script_base::is_field_name_ch(char32_t ch, bool first) noexcept
         return false;
 
     return digit ||
-           (U'A' <= ch && ch <= U'A') ||
+           (U'A' <= ch && ch <= U'Z') ||
            (U'a' <= ch && ch <= U'z') ||
            ch == U'_' ||
            ch >= 128;
-- 
2.43.0


From 384fc25ce3782db91eeda6091b7f587fc40248ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 46/99] fix: report the position of an unexpected end of string
 in debug mode

---
 include/papilio/core.hpp | 54 ++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index d56ea23..8b823bd 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3217,6 +3217,12 @@ protected:
         }
     }
 
+    [[noreturn]]
+    static void throw_end_of_string(iterator it)
+    {
+        throw_error(script_error_code::end_of_string, std::move(it));
+    }
+
     // Skips white spaces
     static iterator skip_ws(iterator start, iterator stop) noexcept
     {
@@ -3239,7 +3245,7 @@ protected:
     static std::pair<op_id, iterator> parse_op(iterator start, iterator stop)
     {
         if(start == stop) [[unlikely]]
-            throw_end_of_string();
+            throw_end_of_string(start);
 
         char32_t first_ch = *start;
         if(first_ch == U'=')
@@ -3258,7 +3264,7 @@ protected:
         {
             ++start;
             if(start == stop)
-                throw_end_of_string();
+                throw_end_of_string(start);
             if(*start != U'=') [[unlikely]]
                 throw_error(script_error_code::invalid_operator, start);
             ++start;
@@ -3316,7 +3322,7 @@ protected:
     static std::pair<T, iterator> parse_integer(iterator start, iterator stop)
     {
         if(start == stop) [[unlikely]]
-            throw_end_of_string();
+            throw_end_of_string(start);
 
         T value = 0;
         bool negative = false;
@@ -3459,7 +3465,7 @@ protected:
     static std::pair<indexing_value_type, iterator> parse_indexing_value(iterator start, iterator stop)
     {
         if(start == stop) [[unlikely]]
-            throw_end_of_string();
+            throw_end_of_string(start);
 
         char32_t first_ch = *start;
         if(first_ch == U'\'')
@@ -3479,7 +3485,7 @@ protected:
             {
                 ++next_it;
                 if(next_it == stop) [[unlikely]]
-                    throw_end_of_string();
+                    throw_end_of_string(next_it);
 
                 char32_t next_ch = *next_it;
                 ssize_t next_idx = index_range::npos;
@@ -3499,7 +3505,7 @@ protected:
         {
             ++start;
             if(start == stop) [[unlikely]]
-                throw_end_of_string();
+                throw_end_of_string(start);
 
             char32_t next_ch = *start;
             if(next_ch == U'-' || PAPILIO_NS utf::is_digit(next_ch))
@@ -3652,7 +3658,7 @@ public:
         {
             intp_ctx.input_next();
             if(intp_ctx.input_at_end()) [[unlikely]]
-                my_base::throw_end_of_string();
+                my_base::throw_end_of_string(intp_ctx.input());
             if(intp_ctx.input_value() != U'}') [[unlikely]]
                 my_base::throw_error(script_error_code::unenclosed_brace, intp_ctx.input());
 
@@ -3663,7 +3669,7 @@ public:
         {
             intp_ctx.input_next();
             if(intp_ctx.input_at_end()) [[unlikely]]
-                my_base::throw_end_of_string();
+                my_base::throw_end_of_string(intp_ctx.input());
 
             ch = intp_ctx.input_value();
             if(ch == U'{')
@@ -3681,7 +3687,7 @@ public:
 
                 intp_ctx.advance_input_to(intp_ctx.parse_begin());
                 if(intp_ctx.input_at_end()) [[unlikely]]
-                    my_base::throw_end_of_string();
+                    my_base::throw_end_of_string(intp_ctx.input());
                 if(intp_ctx.input_value() != U'}') [[unlikely]]
                     my_base::throw_error(script_error_code::unenclosed_brace, intp_ctx.input());
                 intp_ctx.input_next();
@@ -3693,7 +3699,7 @@ public:
 
                 intp_ctx.advance_input_to(intp_ctx.parse_begin());
                 if(intp_ctx.input_at_end()) [[unlikely]]
-                    my_base::throw_end_of_string();
+                    my_base::throw_end_of_string(intp_ctx.input());
                 if(intp_ctx.input_value() != U'}') [[unlikely]]
                     my_base::throw_error(script_error_code::unenclosed_brace, intp_ctx.input());
                 intp_ctx.input_next();
@@ -3763,7 +3769,7 @@ private:
     static std::pair<format_arg_type, iterator> access_impl(parse_context& ctx, iterator start, iterator stop)
     {
         if(start == stop) [[unlikely]]
-            my_base::throw_end_of_string();
+            my_base::throw_end_of_string(start);
 
         auto [arg, next_it] = parse_field_name(ctx, start, stop);
 
@@ -3777,7 +3783,7 @@ private:
         auto [arg, next_it] = access(parse_ctx);
 
         if(next_it == parse_ctx.end()) [[unlikely]]
-            my_base::throw_end_of_string();
+            my_base::throw_end_of_string(next_it);
         if(*next_it == U':')
             ++next_it;
 
@@ -3811,7 +3817,7 @@ private:
 
             start = parse_ctx.begin();
             if(start == parse_ctx.end()) [[unlikely]]
-                my_base::throw_end_of_string();
+                my_base::throw_end_of_string(start);
             if(*start != U'}') [[unlikely]]
                 my_base::throw_error(script_error_code::unenclosed_brace, start);
             ++start;
@@ -3852,7 +3858,7 @@ private:
 
             start = parse_ctx.begin();
             if(start == parse_ctx.end()) [[unlikely]]
-                my_base::throw_end_of_string();
+                my_base::throw_end_of_string(start);
             if(*start != U'}') [[unlikely]]
                 my_base::throw_error(script_error_code::unenclosed_brace, start);
             ++start;
@@ -3875,7 +3881,7 @@ private:
         const auto stop = parse_ctx.end();
 
         if(start == stop) [[unlikely]]
-            my_base::throw_end_of_string();
+            my_base::throw_end_of_string(start);
         parse_ctx.advance_to(start);
 
         if(cond)
@@ -3949,7 +3955,7 @@ private:
         auto [arg, next_it] = access(parse_ctx);
 
         if(next_it == parse_ctx.end()) [[unlikely]]
-            my_base::throw_end_of_string();
+            my_base::throw_end_of_string(next_it);
         if(*next_it == U':')
             ++next_it;
 
@@ -3960,7 +3966,7 @@ private:
     static std::pair<variable_type, iterator> parse_variable(parse_context& ctx, iterator start, iterator stop)
     {
         if(start == stop) [[unlikely]]
-            my_base::throw_end_of_string();
+            my_base::throw_end_of_string(start);
 
         char32_t first_ch = *start;
         if(first_ch == U'{')
@@ -3968,7 +3974,7 @@ private:
             ++start;
             auto [arg, next_it] = access_impl(ctx, start, stop);
             if(next_it == stop) [[unlikely]]
-                my_base::throw_end_of_string();
+                my_base::throw_end_of_string(next_it);
             if(*next_it != U'}') [[unlikely]]
                 my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
@@ -4020,7 +4026,7 @@ private:
     {
         start = my_base::skip_ws(start, stop);
         if(start == stop) [[unlikely]]
-            my_base::throw_end_of_string();
+            my_base::throw_end_of_string(start);
 
         char32_t first_ch = *start;
         if(first_ch == U'!')
@@ -4031,7 +4037,7 @@ private:
             auto [var, next_it] = parse_variable(ctx, start, stop);
             next_it = my_base::skip_ws(next_it, stop);
             if(next_it == stop) [[unlikely]]
-                my_base::throw_end_of_string();
+                my_base::throw_end_of_string(next_it);
             if(*next_it != my_base::condition_end) [[unlikely]]
                 my_base::throw_error(script_error_code::invalid_condition, next_it);
 
@@ -4044,7 +4050,7 @@ private:
 
             next_it = my_base::skip_ws(next_it, stop);
             if(next_it == stop) [[unlikely]]
-                my_base::throw_end_of_string();
+                my_base::throw_end_of_string(next_it);
 
             char32_t ch = *next_it;
             if(ch == my_base::condition_end)
@@ -4063,7 +4069,7 @@ private:
                 next_it = my_base::skip_ws(next_it_2, stop);
 
                 if(next_it == stop) [[unlikely]]
-                    my_base::throw_end_of_string();
+                    my_base::throw_end_of_string(next_it);
                 if(*next_it != my_base::condition_end) [[unlikely]]
                     my_base::throw_error(script_error_code::invalid_condition, next_it);
 
@@ -4085,7 +4091,7 @@ private:
     )
     {
         if(start == stop) [[unlikely]]
-            my_base::throw_end_of_string();
+            my_base::throw_end_of_string(start);
 
         if(char32_t first_ch = *start; utf::is_digit(first_ch))
         {
@@ -4158,7 +4164,7 @@ private:
                 ++start;
                 auto [idx, next_it] = my_base::parse_indexing_value(start, stop);
                 if(next_it == stop) [[unlikely]]
-                    my_base::throw_end_of_string();
+                    my_base::throw_end_of_string(next_it);
                 if(*next_it != U']') [[unlikely]]
                     my_base::throw_error(script_error_code::invalid_index, next_it);
                 ++next_it;
-- 
2.43.0


From c1fedd5c07c3ad6b8f8e9b7e69d2ee7a0bcc33f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 47/99] fix: do not read past the end of an unterminated string
 constant

---
 include/papilio/core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8b823bd..d0f9702 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3456,6 +3456,9 @@ protected:
             }
         }
 
+        if(it == stop) [[unlikely]]
+            throw_end_of_string(it);
+
         return std::make_pair(
             string_container_type(start, it),
             std::next(it) // +1 to skip '\''
-- 
2.43.0


From 3859a45e8f42041d829d239e95bbc3621a7c1490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 48/99] fix: do not read past the end of an unterminated index

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index d0f9702..e964db2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3484,6 +3484,8 @@ protected:
                 start, stop
             );
 
+            if(next_it == stop) [[unlikely]]
+                throw_end_of_string(next_it);
             if(*next_it == U':')
             {
                 ++next_it;
-- 
2.43.0


From 8294372b93284623fcafc08e8036b721d67c71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 49/99] fix: an argument index that is too large no longer
 wraps around

---
 include/papilio/core.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e964db2..d02477f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4109,8 +4109,10 @@ private:
                 if(!utf::is_digit(ch))
                     break;
 
-                idx *= 10;
-                idx += static_cast<std::size_t>(ch - U'0');
+                const auto digit = static_cast<std::size_t>(ch - U'0');
+                constexpr auto max_idx = static_cast<std::size_t>(std::numeric_limits<ssize_t>::max());
+                // An index that is too large must not wrap around and select another argument
+                idx = idx > (max_idx - digit) / 10 ? max_idx : idx * 10 + digit;
                 ++start;
             }
 
-- 
2.43.0


From 7c6b4b73e19c339199ee7fc12aac8c8f5b228551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 50/99] fix: reject characters between the argument id and the
 end of a field

---
 include/papilio/core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index d02477f..3a8a78e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3791,6 +3791,8 @@ private:
             my_base::throw_end_of_string(next_it);
         if(*next_it == U':')
             ++next_it;
+        else if(*next_it != U'}') [[unlikely]]
+            my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
         parse_ctx.advance_to(next_it);
         arg.skip_spec(parse_ctx);
@@ -3963,6 +3965,8 @@ private:
             my_base::throw_end_of_string(next_it);
         if(*next_it == U':')
             ++next_it;
+        else if(*next_it != U'}') [[unlikely]]
+            my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
         parse_ctx.advance_to(next_it);
         arg.format(parse_ctx, fmt_ctx);
-- 
2.43.0


From 595f8172d59b7d0f2c6638863c0deaed728fd829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 51/99] fix: a script field has at most one final alternative

---
 include/papilio/core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3a8a78e..47cca00 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3942,12 +3942,12 @@ private:
             }
             else
             {
-                bool exec_this_branch = !executed;
-
+                // The alternative is the last branch
                 parse_ctx.advance_to(start);
                 start = exec_branch_if(
-                    exec_this_branch, parse_ctx, fmt_ctx
+                    !executed, parse_ctx, fmt_ctx
                 );
+                break;
             }
         }
 
-- 
2.43.0


From c8180928ce01ae3d49ed3f609d92b0527f981d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 52/99] fix: keep the ownership of a string converted to a
 script variable

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 47cca00..7fe4321 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -456,7 +456,7 @@ private:
             {
                 return convert_arg(std::forward<T>(v));
             },
-            var
+            std::forward<Variant>(var)
         );
     }
 
-- 
2.43.0


From 9629cd2b0b3bc092e914cf26e4c0463a3edb434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 53/99] fix: a malformed specification in a skipped branch no
 longer terminates the program

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7fe4321..8692069 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2924,7 +2924,7 @@ struct formatter_traits
      * @param parse_ctx Parse context
      */
     template <typename ParseContext>
-    static void skip_spec(ParseContext& parse_ctx) noexcept
+    static void skip_spec(ParseContext& parse_ctx)
     {
         if constexpr(parsable<ParseContext>())
         {
-- 
2.43.0


From 90110b6c1408dcb6be2b73f39cf8bff9c58e17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 54/99] fix: a written width or precision that is too large no
 longer wraps around

---
 include/papilio/core.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8692069..312b9fe 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4343,8 +4343,10 @@ namespace detail
                     char32_t ch = *start;
                     if(!utf::is_digit(ch))
                         break;
-                    val *= 10;
-                    val += static_cast<std::size_t>(ch - U'0');
+                    const auto digit = static_cast<std::size_t>(ch - U'0');
+                    if(val > (std::numeric_limits<std::size_t>::max() - digit) / 10) [[unlikely]]
+                        throw format_error("value out of range");
+                    val = val * 10 + digit;
 
                     ++start;
                 }
-- 
2.43.0


From c31530526cb88b574946952bd0d8d3ab9e579d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 55/99] fix: equal infinities compare equal as script variables

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 312b9fe..6d5331a 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -732,7 +732,7 @@ private:
 
     static bool equal_impl(float_type epsilon, float_type lhs, float_type rhs) noexcept
     {
-        return std::abs(lhs - rhs) < epsilon;
+        return lhs == rhs || std::abs(lhs - rhs) < epsilon;
     }
 
     template <std::integral T>
-- 
2.43.0


From fe57c8621663e7a55521678b6e51350e43b08c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 56/99] fix: reject integers without digits and integers out of
 range in scripts

---
 include/papilio/core.hpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 6d5331a..74786e9 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3332,23 +3332,30 @@ protected:
             ++start;
         }
 
+        if(start == stop) [[unlikely]]
+            throw_end_of_string(start);
+        if(!utf::is_digit(*start)) [[unlikely]]
+            throw_error(script_error_code::invalid_index, start);
+        if constexpr(!std::is_signed_v<T>)
+        {
+            if(negative)
+                throw std::out_of_range("integer value out of range");
+        }
+
         while(start != stop)
         {
             char32_t ch = *start;
             if(!utf::is_digit(ch))
                 break;
 
-            value *= 10;
-            value += ch - U'0';
-            ++start;
-        }
-
-        if(negative)
-        {
-            if constexpr(std::is_signed_v<T>)
-                value = -value;
-            else
+            const T digit = static_cast<T>(ch - U'0');
+            bool overflow = negative ?
+                                value < static_cast<T>((std::numeric_limits<T>::min() + digit) / 10) :
+                                value > static_cast<T>((std::numeric_limits<T>::max() - digit) / 10);
+            if(overflow) [[unlikely]]
                 throw std::out_of_range("integer value out of range");
+            value = static_cast<T>(value * 10 + (negative ? -digit : digit));
+            ++start;
         }
 
         return std::make_pair(value, start);
@@ -4007,10 +4014,13 @@ private:
             iterator int_end = std::find_if_not(
                 negative ? start + 1 : start, stop, utf::is_digit
             );
+            bool no_digit = int_end == (negative ? start + 1 : start);
             if(int_end != stop && *int_end == U'.')
             {
                 ++int_end;
                 iterator float_end = std::find_if_not(int_end, stop, utf::is_digit);
+                if(no_digit && float_end == int_end) [[unlikely]]
+                    my_base::throw_error(script_error_code::invalid_condition, start);
 
                 using float_type = typename variable_type::float_type;
                 float_type val = my_base::conv_float(
@@ -4021,6 +4031,9 @@ private:
             }
             else
             {
+                if(no_digit) [[unlikely]]
+                    my_base::throw_error(script_error_code::invalid_condition, start);
+
                 using int_t = typename variable_type::int_type;
                 int_t val = my_base::template parse_integer<int_t>(start, int_end).first;
 
-- 
2.43.0


From f8bbfe9a3e017a72c91ab1464d171a2347d38da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 57/99] fix: dynamic and static argument lists agree about
 repeated names

---
 include/papilio/core.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 74786e9..fbf5d78 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1764,8 +1764,9 @@ public:
     [[nodiscard]]
     size_type named_size() const noexcept override
     {
-        PAPILIO_ASSERT(m_named_args.size() == NamedArgumentCount);
-        return NamedArgumentCount;
+        // Arguments with the same name are merged
+        PAPILIO_ASSERT(m_named_args.size() <= NamedArgumentCount);
+        return m_named_args.size();
     }
 
 private:
@@ -1847,10 +1848,10 @@ public:
                 "Invalid char type"
             );
 
-            m_named_args.emplace(std::make_pair(
-                PAPILIO_NS forward_like<T>(val.name),
-                PAPILIO_NS forward_like<T>(val.value)
-            ));
+            m_named_args.insert_or_assign(
+                string_type(PAPILIO_NS forward_like<T>(val.name)),
+                format_arg_type(PAPILIO_NS forward_like<T>(val.value))
+            );
         }
         else
         {
-- 
2.43.0


From e6fe76690858c27954194af2640ace02074b4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 58/99] fix: formatting with a named argument no longer moves
 from a string of the caller

---
 include/papilio/core.hpp    | 16 ++++++++++------
 include/papilio/utility.hpp | 20 ++++++++++++++++----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index fbf5d78..035d10b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1799,10 +1799,11 @@ private:
     requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
     void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
     {
-        m_named_args.insert_or_assign(
-            na.name,
-            PAPILIO_NS forward_like<T>(na.value)
-        );
+        // Only move from a temporary value
+        if(na.is_temporary())
+            m_named_args.insert_or_assign(na.name, PAPILIO_NS forward_like<T>(na.value));
+        else
+            m_named_args.insert_or_assign(na.name, na.value);
     }
 };
 
@@ -1848,9 +1849,12 @@ public:
                 "Invalid char type"
             );
 
+            // Only move from a temporary value
             m_named_args.insert_or_assign(
-                string_type(PAPILIO_NS forward_like<T>(val.name)),
-                format_arg_type(PAPILIO_NS forward_like<T>(val.value))
+                string_type(val.name),
+                val.is_temporary() ?
+                    format_arg_type(PAPILIO_NS forward_like<T>(val.value)) :
+                    format_arg_type(val.value)
             );
         }
         else
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 59903d8..c07db20 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -236,8 +236,8 @@ struct basic_named_arg
     basic_named_arg() = delete;
     constexpr basic_named_arg(const basic_named_arg&) noexcept = default;
 
-    constexpr basic_named_arg(string_view_type arg_name, reference arg_value) noexcept
-        : name(arg_name), value(arg_value) {}
+    constexpr basic_named_arg(string_view_type arg_name, reference arg_value, bool temporary = false) noexcept
+        : name(arg_name), value(arg_value), m_temporary(temporary) {}
 
     basic_named_arg& operator=(const basic_named_arg&) = delete;
 
@@ -251,6 +251,18 @@ struct basic_named_arg
     {
         return value;
     }
+
+    /**
+     * @brief Check if the value is a temporary object, which means it can be moved from.
+     */
+    [[nodiscard]]
+    constexpr bool is_temporary() const noexcept
+    {
+        return m_temporary;
+    }
+
+private:
+    bool m_temporary = false;
 };
 
 PAPILIO_EXPORT template <typename T>
@@ -274,13 +286,13 @@ constexpr inline bool is_named_arg_v = is_named_arg<T>::value;
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const CharT* name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value, !std::is_lvalue_reference_v<T>);
 }
 
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const std::basic_string_view<CharT> name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value, !std::is_lvalue_reference_v<T>);
 }
 
 namespace detail
-- 
2.43.0


From be6e8bc68e8083277cdffdbfba4a217be33c5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 59/99] fix: a named argument given as an lvalue terminated the
 program

---
 include/papilio/core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 035d10b..e89cc56 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1789,15 +1789,15 @@ private:
     map_type m_named_args;
 
     template <typename T>
-    requires(!is_named_arg_v<T>)
+    requires(!is_named_arg_v<std::remove_cvref_t<T>>)
     void emplace(T&& val) noexcept(std::is_nothrow_constructible_v<format_arg_type, T>)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
 
     template <typename T>
-    requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
-    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
+    requires(is_named_arg_v<std::remove_cvref_t<T>> && std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>)
+    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename std::remove_cvref_t<T>::value_type>)
     {
         // Only move from a temporary value
         if(na.is_temporary())
@@ -1845,7 +1845,7 @@ public:
         if constexpr(is_named_arg_v<std::remove_cvref_t<T>>)
         {
             static_assert(
-                std::is_same_v<char_type, typename T::char_type>,
+                std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>,
                 "Invalid char type"
             );
 
-- 
2.43.0


From 4bb5a60d6037cdd49d69374a7940c87e6945c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 60/99] fix: converting a script variable to an integer type
 that cannot hold its value is reported

---
 include/papilio/core.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e89cc56..dc97b9a 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -653,6 +653,31 @@ public:
 private:
     variant_type m_var;
 
+    // Conversion between arithmetic types that reports values which the target type cannot represent
+    template <typename Target, typename T>
+    static Target arithmetic_as_impl(T v)
+    {
+        if constexpr(std::integral<Target> && std::is_same_v<T, float_type>)
+        {
+            using limits = std::numeric_limits<Target>;
+            // max() + 1 and min() are exactly representable
+            constexpr auto upper = static_cast<float_type>(limits::max() / 2 + 1) * 2;
+            constexpr auto lower = static_cast<float_type>(limits::min());
+
+            const float_type truncated = std::trunc(v);
+            if(!(truncated >= lower && truncated < upper))
+                throw_invalid_conversion();
+        }
+        else if constexpr(std::integral<Target> && std::is_same_v<T, int_type>)
+        {
+            const auto result = static_cast<Target>(v);
+            if(static_cast<int_type>(result) != v || (v < 0) != (result < Target(0)))
+                throw_invalid_conversion();
+        }
+
+        return static_cast<Target>(v);
+    }
+
     template <typename Target, typename T>
     static Target as_impl(const T& v)
     {
@@ -670,7 +695,7 @@ private:
             if constexpr(is_same_v<T, string_container_type>)
                 throw_invalid_conversion();
             else // bool, int_type, and float_type
-                return static_cast<Target>(v);
+                return arithmetic_as_impl<Target>(v);
         }
         else if constexpr(basic_string_like<Target, CharT>)
         {
-- 
2.43.0


From 24846e31385f902e1a31266c19d3977fcd2f0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 61/99] fix: the specification given for the elements of a
 range is not replaced by the debug format

---
 include/papilio/core.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index dc97b9a..60f3cbe 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5474,10 +5474,6 @@ public:
             fmt_t::try_set_brackets(m_underlying, string_view_type(), string_view_type());
             fmt_t::try_set_separator(m_underlying, PAPILIO_TSTRING_VIEW(CharT, ": "));
         }
-        else if(m_type == U'\0')
-        {
-            fmt_t::try_set_debug_format(m_underlying);
-        }
         else if(m_type == U's' && m_debug)
             fmt_t::try_set_debug_format(m_underlying);
 
-- 
2.43.0


From 248560051a1d0ef169ec3573693319e6aa342647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 62/99] fix: a second alignment character in a specification is
 an error

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 60f3cbe..1d64ace 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4443,7 +4443,7 @@ public:
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start; result.align == format_align::default_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
@@ -4531,7 +4531,7 @@ public:
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start; result.align == format_align::default_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
-- 
2.43.0


From f0c5fbfa14d153cd2f8912269ad8aaaf81a3611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 63/99] fix: calendar times with a long year, or fields without
 a name, are not cut off or read out of bounds

---
 include/papilio/formatter/chrono.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index 96c8684..ec24c5a 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -73,12 +73,13 @@ public:
     {
         if(m_data.chrono_spec.empty())
         {
-            CharT buf[24];
-            default_tm_fmt_impl(val, buf);
+            // Large enough for five integers of any value and the two names
+            CharT buf[80];
+            const std::size_t size = default_tm_fmt_impl(val, buf);
 
             string_formatter<CharT> fmt;
             fmt.set_data(m_data.basic);
-            return fmt.format(std::basic_string_view<CharT>(buf, 24), ctx);
+            return fmt.format(std::basic_string_view<CharT>(buf, size), ctx);
         }
         else
         {
@@ -99,7 +100,7 @@ private:
     chrono_formatter_data<CharT> m_data;
 
     // Simulating `asctime()` but without the trailing newline
-    static void default_tm_fmt_impl(const std::tm& val, std::span<CharT, 24> buf)
+    static std::size_t default_tm_fmt_impl(const std::tm& val, std::span<CharT, 80> buf)
     {
         constexpr CharT weekdays[7][3] = {
             {'S', 'u', 'n'},
@@ -125,18 +126,26 @@ private:
             {'D', 'e', 'c'}
         };
 
-        PAPILIO_NS format_to_n(
+        // The same text as `asctime()` for values that have no name
+        constexpr CharT unknown[3] = {'?', '?', '?'};
+
+        const bool has_wday = val.tm_wday >= 0 && val.tm_wday < 7;
+        const bool has_mon = val.tm_mon >= 0 && val.tm_mon < 12;
+
+        const auto result = PAPILIO_NS format_to_n(
             buf.data(),
             buf.size(),
             PAPILIO_TSTRING_VIEW(CharT, "{} {} {:2d} {:02d}:{:02d}:{:02d} {:4d}"),
-            std::basic_string_view<CharT>(weekdays[val.tm_wday], 3),
-            std::basic_string_view<CharT>(months[val.tm_mon], 3),
+            std::basic_string_view<CharT>(has_wday ? weekdays[val.tm_wday] : unknown, 3),
+            std::basic_string_view<CharT>(has_mon ? months[val.tm_mon] : unknown, 3),
             val.tm_mday,
             val.tm_hour,
             val.tm_min,
             val.tm_sec,
-            val.tm_year + 1900
+            static_cast<long long>(val.tm_year) + 1900
         );
+
+        return static_cast<std::size_t>(result.size);
     }
 };
 } // namespace papilio
-- 
2.43.0


From 5e41c14c378874d7de6178186b9a7712515c6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 64/99] fix: the year of a calendar time does not overflow

---
 include/papilio/accessor/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/accessor/chrono.hpp b/include/papilio/accessor/chrono.hpp
index 0e9a105..a47ebe2 100644
--- a/include/papilio/accessor/chrono.hpp
+++ b/include/papilio/accessor/chrono.hpp
@@ -18,7 +18,7 @@ struct accessor<std::tm, Context>
     static format_arg_type attribute(const std::tm& val, const attribute_name_type& attr)
     {
         if(attr == PAPILIO_TSTRING_VIEW(char_type, "year"))
-            return val.tm_year + 1900;
+            return static_cast<long long>(val.tm_year) + 1900;
         else if(attr == PAPILIO_TSTRING_VIEW(char_type, "month"))
             return val.tm_mon;
         else if(attr == PAPILIO_TSTRING_VIEW(char_type, "mday"))
-- 
2.43.0


From 18980230a37c7d32a0d8e9c1910f9458322e05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 65/99] fix: a slice of a range that starts before its
 beginning is not read out of bounds

---
 include/papilio/accessor/ranges.hpp | 3 +++
 include/papilio/utility.hpp         | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..6500f3c 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -94,6 +94,9 @@ struct contiguous_range_accessor
         std::size_t sz = stdr::size(rng);
         s = s.normalize(sz);
 
+        if(s.first < 0)
+            s.first = 0;
+
         if(std::cmp_greater_equal(s.first, sz))
             return format_arg_type();
         else if(std::cmp_greater(s.second, sz))
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index c07db20..bcd1ac6 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -208,8 +208,8 @@ public:
     [[nodiscard]]
     constexpr size_type length() const noexcept
     {
-        PAPILIO_ASSERT(first > 0);
-        PAPILIO_ASSERT(second > 0);
+        PAPILIO_ASSERT(first >= 0);
+        PAPILIO_ASSERT(second >= 0);
         PAPILIO_ASSERT(second != npos);
         return static_cast<size_type>(second - first);
     }
-- 
2.43.0


From 511ebfe1fa2cd9ddca79773e78841ddaee125b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 66/99] fix: an index that the key type of a map cannot
 represent does not find another key

---
 include/papilio/accessor/ranges.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index 6500f3c..d05d400 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -208,13 +208,12 @@ struct map_accessor
     static format_arg_type index(const MapType& m, ssize_t i)
         requires(std::integral<key_type>)
     {
-        if constexpr(std::is_unsigned_v<key_type>)
-        {
-            if(i < 0)
-                return format_arg_type();
-        }
+        // The index may be a value that the key type cannot represent
+        const key_type k = static_cast<key_type>(i);
+        if(static_cast<ssize_t>(k) != i || (k < key_type()) != (i < 0))
+            return format_arg_type();
 
-        auto it = m.find(static_cast<key_type>(i));
+        auto it = m.find(k);
         return it != m.end() ?
                    static_cast<mapped_type>(it->second) :
                    format_arg_type();
-- 
2.43.0


From 46450062f19342e6d1d11d9b6703b1330ce9c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 67/99] fix: indexing a map does not refer to a destroyed copy
 of the mapped value

---
 include/papilio/accessor/ranges.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index d05d400..c95b45e 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -215,7 +215,7 @@ struct map_accessor
 
         auto it = m.find(k);
         return it != m.end() ?
-                   static_cast<mapped_type>(it->second) :
+                   format_arg_type(it->second) :
                    format_arg_type();
     }
 
@@ -227,14 +227,14 @@ struct map_accessor
         {
             auto it = m.find(k);
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
         else
         {
             auto it = m.find(static_cast<key_type>(k));
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
     }
-- 
2.43.0


From a0a86a383662fd3648f3cea3fc5a899fa13efd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 68/99] fix: the first access in a chain refers to the argument
 itself and not to a copy of it

---
 include/papilio/core.hpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1d64ace..7a33485 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3813,11 +3813,9 @@ private:
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string(start);
 
-        auto [arg, next_it] = parse_field_name(ctx, start, stop);
+        auto [base_arg, next_it] = parse_field_name(ctx, start, stop);
 
-        std::tie(arg, next_it) = parse_chained_access(arg, next_it, stop);
-
-        return std::make_pair(std::move(arg), next_it);
+        return parse_chained_access(base_arg, next_it, stop);
     }
 
     static void skip_repl(parse_context& parse_ctx)
@@ -4138,7 +4136,8 @@ private:
         my_base::throw_error(script_error_code::invalid_condition, start);
     }
 
-    static std::pair<format_arg_type, iterator> parse_field_name(
+    // The result refers to an argument stored in the context
+    static std::pair<const format_arg_type&, iterator> parse_field_name(
         parse_context& ctx, iterator start, iterator stop
     )
     {
@@ -4164,7 +4163,7 @@ private:
             }
 
             ctx.check_arg_id(idx);
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            return {ctx.get_args()[static_cast<ssize_t>(idx)], start};
         }
         else if(my_base::is_field_name_ch(first_ch, true))
         {
@@ -4174,26 +4173,29 @@ private:
 
             string_ref_type name(str_start, str_end);
 
-            return std::make_pair(
+            return {
                 ctx.get_args().get(string_view_type(name)),
                 str_end
-            );
+            };
         }
         else if(my_base::is_field_name_end_ch(first_ch)) // use default value
         {
             std::size_t idx = ctx.current_arg_id();
             ctx.next_arg_id();
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            return {ctx.get_args()[static_cast<ssize_t>(idx)], start};
         }
 
         my_base::throw_error(script_error_code::invalid_field_name, start);
     }
 
     static std::pair<format_arg_type, iterator> parse_chained_access(
-        format_arg_type& base_arg, iterator start, iterator stop
+        const format_arg_type& base_arg, iterator start, iterator stop
     )
     {
-        format_arg_type current = base_arg;
+        // The first access is done on the stored argument itself,
+        // because the result may refer to a part of the value
+        const format_arg_type* target = std::addressof(base_arg);
+        format_arg_type current;
 
         while(start != stop)
         {
@@ -4209,7 +4211,8 @@ private:
                 if(attr_name.empty())
                     my_base::throw_error(script_error_code::invalid_attribute, str_end);
 
-                current = current.attribute(attr_name);
+                current = target->attribute(attr_name);
+                target = std::addressof(current);
 
                 start = str_end;
             }
@@ -4223,7 +4226,8 @@ private:
                     my_base::throw_error(script_error_code::invalid_index, next_it);
                 ++next_it;
 
-                current = current.index(idx);
+                current = target->index(idx);
+                target = std::addressof(current);
 
                 start = next_it;
             }
@@ -4233,6 +4237,8 @@ private:
             }
         }
 
+        if(target == std::addressof(base_arg))
+            return std::make_pair(base_arg, start);
         return std::make_pair(std::move(current), start);
     }
 };
-- 
2.43.0


From a053cc86abf7d29c1c238202467f41a524454fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 69/99] fix: a slice that starts or ends at the smallest index
 has defined behaviour

---
 include/papilio/utf/string.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 7953321..b37474f 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -323,12 +323,10 @@ public:
             }
             else
             {
-                idx = -idx; // abs(idx)
-
                 const auto sentinel = cbegin();
 
                 const_iterator it = cend();
-                for(index_range::index_type i = 0; i < idx; ++i)
+                for(index_range::index_type i = 0; i > idx; --i)
                 {
                     if(it == sentinel)
                     {
-- 
2.43.0


From 6182173bb6e2fbfe039e821ccc7a9663e41816cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 70/99] fix: strings inside ranges are formatted as strings and
 not as lists of bytes

---
 include/papilio/core.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7a33485..c6c8880 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5865,6 +5865,37 @@ private:
     std_formatter_data m_data;
 };
 
+/**
+ * @brief Formatters for strings that are not arguments themselves, e.g., elements of a range.
+ *
+ * @sa formatter<utf::basic_string_container<CharT>, CharT>
+ */
+PAPILIO_EXPORT template <typename CharT, typename Traits, typename Allocator>
+class formatter<std::basic_string<CharT, Traits, Allocator>, CharT> :
+    public formatter<utf::basic_string_container<CharT>, CharT>
+{
+public:
+    template <typename FormatContext>
+    auto format(const std::basic_string<CharT, Traits, Allocator>& str, FormatContext& ctx) const -> typename FormatContext::iterator
+    {
+        using my_base = formatter<utf::basic_string_container<CharT>, CharT>;
+        return my_base::format(utf::basic_string_container<CharT>(str.data(), str.size()), ctx);
+    }
+};
+
+PAPILIO_EXPORT template <typename CharT, typename Traits>
+class formatter<std::basic_string_view<CharT, Traits>, CharT> :
+    public formatter<utf::basic_string_container<CharT>, CharT>
+{
+public:
+    template <typename FormatContext>
+    auto format(std::basic_string_view<CharT, Traits> str, FormatContext& ctx) const -> typename FormatContext::iterator
+    {
+        using my_base = formatter<utf::basic_string_container<CharT>, CharT>;
+        return my_base::format(utf::basic_string_container<CharT>(str.data(), str.size()), ctx);
+    }
+};
+
 /**
  * @brief Formatter for pointers.
  *
-- 
2.43.0


From 9683880bc4d802dc4a43395a955e9f9ea0f20ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 71/99] fix: formatting ill-formed text does not read past its
 end or terminate the program

---
 include/papilio/utf/codepoint.hpp | 23 +++++++----
 include/papilio/utf/codepoint.inl | 10 ++++-
 include/papilio/utf/stralgo.hpp   |  2 +-
 include/papilio/utf/string.hpp    | 65 ++++++++++++++++---------------
 4 files changed, 59 insertions(+), 41 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 6b3e5b1..c6a9031 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -507,7 +507,7 @@ namespace detail
                 m_offset = next_offset;
                 char8_t ch = static_cast<char8_t>(m_str[next_offset]);
                 if(is_leading_byte(ch))
-                    m_len = byte_count(ch);
+                    set_len(byte_count(ch));
                 else
                     m_len = 1;
             }
@@ -535,7 +535,7 @@ namespace detail
                 else if(PAPILIO_NS utf::is_leading_byte(ch))
                 {
                     m_offset = next_offset;
-                    m_len = PAPILIO_NS utf::byte_count(ch);
+                    set_len(PAPILIO_NS utf::byte_count(ch));
                     break;
                 }
                 else if(next_offset == 0)
@@ -575,6 +575,13 @@ namespace detail
         string_view_type m_str;
         size_type m_offset = 0;
         std::uint8_t m_len = 0;
+
+        // The sequence at the end of an ill-formed string may be truncated
+        constexpr void set_len(std::uint8_t len) noexcept
+        {
+            size_type remaining = m_str.size() - m_offset;
+            m_len = len <= remaining ? len : static_cast<std::uint8_t>(remaining);
+        }
     };
 
     template <char16_like CharT>
@@ -601,7 +608,7 @@ namespace detail
             {
                 m_offset = next_offset;
                 std::uint16_t ch = m_str[next_offset];
-                if(PAPILIO_NS utf::is_high_surrogate(ch))
+                if(PAPILIO_NS utf::is_high_surrogate(ch) && m_str.size() - next_offset > 1)
                     m_len = 2;
                 else
                     m_len = 1;
@@ -617,10 +624,10 @@ namespace detail
         {
             PAPILIO_ASSERT(m_offset != 0);
             --m_offset;
-            while(PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
+            while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
                 --m_offset;
 
-            m_len = utf::is_high_surrogate(m_str[m_offset]) ? 2 : 1;
+            m_len = utf::is_high_surrogate(m_str[m_offset]) && m_str.size() - m_offset > 1 ? 2 : 1;
         }
 
         constexpr bool to_bool() const noexcept
@@ -748,17 +755,17 @@ public:
 
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const noexcept(!char16_like<CharT>)
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        constexpr operator codepoint() const noexcept(!char16_like<CharT>)
         {
             return decoder<CharT>::to_codepoint(std::basic_string_view<CharT>(m_ptr, m_len)).first;
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const noexcept(!char16_like<CharT>)
         {
             return static_cast<codepoint>(*this);
         }
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 16c80ef..bc577fb 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -16,6 +16,8 @@ constexpr std::uint8_t decoder<char32_t>::size_bytes(char32_t ch) noexcept
 
 constexpr std::pair<codepoint, std::uint8_t> decoder<char32_t>::to_codepoint(char32_t ch) noexcept
 {
+    if(ch > 0x10FFFF) [[unlikely]]
+        ch = U'\xFFFD'; // Not a code point, use the replacement character
     std::uint8_t len = size_bytes(ch);
     char8_t bytes[4] = {0, 0, 0, 0};
     switch(len)
@@ -114,7 +116,11 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char8_t>::to_codepoint(std:
 {
     if(ch.empty()) [[unlikely]]
         return std::make_pair(codepoint(), std::uint8_t(0));
+    if(!PAPILIO_NS utf::is_leading_byte(ch[0])) [[unlikely]]
+        return std::make_pair(codepoint(U'\xFFFD'), std::uint8_t(1));
     std::uint8_t len = size_bytes(ch[0]);
+    if(ch.size() < len) [[unlikely]] // Truncated sequence
+        return std::make_pair(codepoint(U'\xFFFD'), static_cast<std::uint8_t>(ch.size()));
     return std::make_pair(codepoint(ch.data(), len), len);
 }
 
@@ -206,12 +212,14 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
         std::uint8_t ch_size = PAPILIO_NS utf::is_leading_byte(ch) ?
                                    PAPILIO_NS utf::byte_count(ch) :
                                    1;
+        if(ch_size > str.size()) [[unlikely]] // Truncated sequence
+            ch_size = static_cast<std::uint8_t>(str.size());
         return result_t(str, 0, ch_size);
     }
     else if constexpr(char16_like<CharU>)
     {
         std::uint16_t ch = str[0];
-        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) ?
+        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) && str.size() > 1 ?
                                    2 :
                                    1;
         return result_t(str, 0, ch_size);
diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index ed826ba..7cb9366 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -343,7 +343,7 @@ constexpr inline std::size_t index_offset(
         }
 
         std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
-        if(PAPILIO_NS utf::is_trailing_byte(ch))
+        if(!PAPILIO_NS utf::is_leading_byte(ch))
         {
             return npos;
         }
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index b37474f..2fbb12e 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -104,8 +104,8 @@ public:
 private:
     constexpr const_reference make_const_reference(size_type off) const noexcept
     {
-        const CharT* p = data() + off;
-        return const_reference(p, ch_size_for_cp(*p));
+        string_view_type str = get_view();
+        return const_reference(str.data() + off, ch_size_at(str, off));
     }
 
 public:
@@ -152,7 +152,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(size_type i, codepoint default_val) const noexcept(!char16_like<CharT>)
     {
         size_type off = get_offset(i);
         if(off == npos) return default_val;
@@ -160,7 +160,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const noexcept(!char16_like<CharT>)
     {
         size_type off = get_offset(reverse_index, i);
         if(off == npos) return default_val;
@@ -367,37 +367,42 @@ protected:
         return as_derived().to_string_view();
     }
 
-    // Calculates how many characters are required by a codepoint.
-    static constexpr std::uint8_t ch_size_for_cp(CharT ch) noexcept
+    // Calculates how many characters are required by the codepoint at the offset.
+    // The result never exceeds the remaining characters of the string.
+    static constexpr std::uint8_t ch_size_at(string_view_type str, size_type off) noexcept
     {
-        if constexpr(char8_like<CharT>)
+        if constexpr(char32_like<CharT>)
         {
-            return utf::byte_count(std::uint8_t(ch));
-        }
-        else if constexpr(char16_like<CharT>)
-        {
-            return utf::is_high_surrogate(ch) ? 2 : 1;
+            return 1;
         }
-        else // char32_like
+        else
         {
-            return 1;
+            std::uint8_t result = 1;
+            if constexpr(char8_like<CharT>)
+            {
+                std::uint8_t ch = static_cast<std::uint8_t>(str[off]);
+                if(utf::is_leading_byte(ch)) [[likely]]
+                    result = utf::byte_count(ch);
+            }
+            else // char16_like
+            {
+                if(utf::is_high_surrogate(str[off]))
+                    result = 2;
+            }
+
+            size_type remaining = str.size() - off;
+            return result <= remaining ? result : static_cast<std::uint8_t>(remaining);
         }
     }
 
-    constexpr codepoint cp_from_off(size_type off) const noexcept
+    constexpr codepoint cp_from_off(size_type off) const noexcept(!char16_like<CharT>)
     {
         string_view_type str = get_view();
         PAPILIO_ASSERT(off < str.size());
 
-        if constexpr(char8_like<CharT>)
-        {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]);
-            return codepoint(str.data() + off, ch_size);
-        }
-        else if constexpr(char16_like<CharT>)
+        if constexpr(!char32_like<CharT>)
         {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]) ? 2 : 1;
-            return decoder<CharT>::to_codepoint(str.substr(off, ch_size)).first;
+            return decoder<CharT>::to_codepoint(str.substr(off, ch_size_at(str, off))).first;
         }
         else // char32_like
         {
@@ -1277,17 +1282,17 @@ public:
     public:
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const noexcept(!char16_like<CharT>)
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        constexpr operator codepoint() const noexcept(!char16_like<CharT>)
         {
             return m_str->cp_from_off(m_offset);
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const noexcept(!char16_like<CharT>)
         {
             return static_cast<codepoint>(*this);
         }
@@ -1315,7 +1320,7 @@ public:
 
         void assign_cp(const codepoint& cp) const
         {
-            std::uint8_t len = m_str->ch_size_for_cp(*&*this);
+            std::uint8_t len = basic_string_container::ch_size_at(*m_str, m_offset);
 
             string_type& str = m_str->to_str();
             cp.replace(str, m_offset, len);
@@ -1457,9 +1462,7 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(*to_address());
-            if(m_offset > m_str->size())
-                m_offset = m_str->size();
+            m_offset += basic_string_container::ch_size_at(*m_str, m_offset);
         }
 
         constexpr void prev_pos()
@@ -1499,7 +1502,7 @@ public:
 
                 PAPILIO_ASSERT(m_offset != 0);
                 --m_offset;
-                while(PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
+                while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
                     --m_offset;
             }
             else
-- 
2.43.0


From 39e9ecab98a981278fe8da4f0f138e2ad0a08687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 72/99] fix: a precision for a type that has none is an error

---
 include/papilio/core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index c6c8880..afcd15f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4587,6 +4587,9 @@ public:
             goto parse_end;
         if(*start == U'.')
         {
+            if constexpr(!EnablePrecision)
+                throw format_error("invalid format");
+
             ++start;
             if(start == stop)
                 throw format_error("invalid precision");
@@ -5652,7 +5655,7 @@ public:
     {
         using namespace std::literals;
 
-        using parser_t = std_formatter_parser<ParseContext, false>;
+        using parser_t = std_formatter_parser<ParseContext, true>;
 
         parser_t parser;
 
@@ -5915,7 +5918,7 @@ public:
     {
         using namespace std::literals;
 
-        using parser_t = std_formatter_parser<ParseContext, true>;
+        using parser_t = std_formatter_parser<ParseContext, false>;
 
         parser_t parser;
 
-- 
2.43.0


From 1d76650c0450c9a0c2158a132ee831f33b3736ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 73/99] fix: dynamic width of any character type reports the
 same error

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index afcd15f..2535530 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4365,10 +4365,10 @@ namespace detail
                 }
                 ++next_it;
 
-                auto var = variable(arg.to_variant());
+                auto var = basic_variable<typename ParseContext::char_type>(arg.to_variant());
                 if(!var.holds_int())
                     throw format_error("invalid type");
-                ssize_t val = var.as<ssize_t>();
+                ssize_t val = var.template as<ssize_t>();
                 if constexpr(IsPrecision)
                 {
                     if(val < 0)
-- 
2.43.0


From 2d8d5fe332b69527f90c987322e4f42a184cfc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 74/99] fix: format_to with an output iterator compiles for u8,
 u16 and u32 formats

---
 include/papilio/xchar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/xchar.hpp b/include/papilio/xchar.hpp
index f9b2007..d0b7cc9 100644
--- a/include/papilio/xchar.hpp
+++ b/include/papilio/xchar.hpp
@@ -60,7 +60,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char8_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -157,7 +157,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char16_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -255,7 +255,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char32_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
-- 
2.43.0


From 203f77af11c6ff8a04e75669401813e3961f0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 75/99] fix: iterating over a formatted_range gives each
 character once, also after moves

---
 include/papilio/format.hpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 207b09f..fff184b 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -65,7 +65,7 @@ public:
         const_iterator(const_iterator&& other) noexcept
             : m_fmt_ctx(std::back_inserter(m_buf), other.m_intp_ctx.input_context().get_args()),
               m_intp(),
-              m_intp_ctx(m_intp.create_context(other.m_intp_ctx.input_context(), m_fmt_ctx)),
+              m_intp_ctx(m_intp.create_context(other.current_input_context(), m_fmt_ctx)),
               m_buf(std::move(other.m_buf)),
               m_offset(std::exchange(other.m_offset, 0)) {}
 
@@ -77,16 +77,18 @@ public:
         const_iterator& operator=(const_iterator&& rhs) noexcept
         {
             m_fmt_ctx = format_context_type(std::back_inserter(m_buf), rhs.m_intp_ctx.input_context().get_args());
-            m_intp_ctx = m_intp.create_context(rhs.m_intp_ctx.input_context(), m_fmt_ctx);
+            m_intp_ctx = m_intp.create_context(rhs.current_input_context(), m_fmt_ctx);
             m_buf = std::move(rhs.m_buf);
             m_offset = std::exchange(rhs.m_offset, 0);
+
+            return *this;
         }
 
         bool operator==(sentinel_t) const
         {
-            if(m_offset < m_buf.size())
-                return false;
-            return m_intp_ctx.input_at_end();
+            // The remaining input may produce no output
+            fetch();
+            return m_offset >= m_buf.size();
         }
 
         /**
@@ -105,14 +107,25 @@ public:
 
         CharT operator*() const
         {
-            if(m_offset >= m_buf.size())
-            {
-                m_intp.run_n(m_intp_ctx, m_buf.size() - m_offset + 1);
-            }
+            fetch();
             return m_buf[m_offset];
         }
 
     private:
+        // Run the interpreter until the current character is available or the end is reached
+        void fetch() const
+        {
+            while(m_offset >= m_buf.size() && !m_intp_ctx.input_at_end())
+                m_intp.run_once(m_intp_ctx);
+        }
+
+        // The input context, which has advanced to the current position of the interpreter
+        parse_context& current_input_context() const noexcept
+        {
+            m_intp_ctx.update_input_context();
+            return m_intp_ctx.input_context();
+        }
+
         mutable format_context_type m_fmt_ctx;
         mutable intp_t m_intp;
         mutable intp_ctx_t m_intp_ctx;
-- 
2.43.0


From 0a1d2d26673cebb53892a0154c3ad0d71e7dc4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 76/99] fix: format_to_n accepts output iterators without a
 value type

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index fff184b..e812ff3 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -251,7 +251,7 @@ namespace detail
     {
     public:
         using iterator_category = std::output_iterator_tag;
-        using value_type = std::iter_value_t<OutputIt>;
+        using value_type = CharT;
         using difference_type = std::iter_difference_t<OutputIt>;
         using pointer = void;
         using reference = void;
-- 
2.43.0


From d1d37cb4ae26985f96d8116ed82553ff2464399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 77/99] fix: times with a time format are formatted in all
 character types

---
 include/papilio/formatter/chrono.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index ec24c5a..db7fd8b 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -83,16 +83,30 @@ public:
         }
         else
         {
-            std::basic_stringstream<CharT> ss;
+            // The required facets are only available for char and wchar_t
+            constexpr bool has_facet = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;
+
+            std::basic_stringstream<std::conditional_t<has_facet, CharT, wchar_t>> ss;
             if(m_data.basic.use_locale)
                 ss.imbue(ctx.getloc());
             else
                 ss.imbue(std::locale::classic());
-            ss << std::put_time(&val, m_data.chrono_spec.c_str());
 
             string_formatter<CharT> fmt;
             fmt.set_data(m_data.basic);
-            return fmt.format(std::move(ss).str(), ctx);
+
+            if constexpr(has_facet)
+            {
+                ss << std::put_time(&val, m_data.chrono_spec.c_str());
+                return fmt.format(std::move(ss).str(), ctx);
+            }
+            else
+            {
+                const std::wstring spec = utf::basic_string_ref<CharT>(m_data.chrono_spec).to_wstring();
+                ss << std::put_time(&val, spec.c_str());
+                const std::wstring str = std::move(ss).str();
+                return fmt.format(utf::wstring_ref(str).template to_string<CharT>(), ctx);
+            }
         }
     }
 
-- 
2.43.0


From 17e850078eb11217f408a3b2bcb55e541a9a5fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 78/99] fix: thread ids are formatted in all character types
 and under any global locale

---
 include/papilio/formatter/misc.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/papilio/formatter/misc.hpp b/include/papilio/formatter/misc.hpp
index 14e81e8..3cd005d 100644
--- a/include/papilio/formatter/misc.hpp
+++ b/include/papilio/formatter/misc.hpp
@@ -28,11 +28,16 @@ public:
     template <typename FormatContext>
     auto format(const std::thread::id& id, FormatContext& ctx) const
     {
-        std::basic_stringstream<CharT> ss;
+        // The required facets are only available for char and wchar_t
+        constexpr bool has_facet = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;
+
+        std::basic_stringstream<std::conditional_t<has_facet, CharT, char>> ss;
+        ss.imbue(std::locale::classic());
         ss << id;
 
         using context_t = format_context_traits<FormatContext>;
-        context_t::append(ctx, std::move(ss).str());
+        const auto str = std::move(ss).str();
+        context_t::append(ctx, std::basic_string<CharT>(str.begin(), str.end()));
 
         return ctx.out();
     }
-- 
2.43.0


From 69dd70b628cc0b4ad5ec94c5c7861183f9b44476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 79/99] fix: a failure to flush printed output is reported

---
 src/os/general.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/os/general.cpp b/src/os/general.cpp
index 3b0438c..8648c58 100644
--- a/src/os/general.cpp
+++ b/src/os/general.cpp
@@ -13,14 +13,13 @@ void output_nonconv(
     size_t result = fwrite(
         out.data(), 1, out.size(), file
     );
-    if(result < out.size())
+    // Buffered output may fail when it is flushed
+    if(result < out.size() || fflush(file) != 0)
     {
         throw std::system_error(
             std::make_error_code(std::errc::io_error)
         );
     }
-
-    fflush(file);
 }
 } // namespace papilio::os
 
-- 
2.43.0


From bfec1df2593fbd5589d552b396fe10ab2cfee0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 80/99] fix: basic_variable::to_variant() of a temporary did
 not compile

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 2535530..6021946 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -584,7 +584,7 @@ public:
     [[nodiscard]]
     variant_type&& to_variant() && noexcept
     {
-        return m_var;
+        return std::move(m_var);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 7c08418aaa69e8384428d2bc8ecee386cf25cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 81/99] fix: copying a handle that is not const made a handle
 of the handle

---
 include/papilio/core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 6021946..798f68e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1127,6 +1127,7 @@ public:
         }
 
         template <typename T>
+        requires(!std::is_same_v<std::remove_cvref_t<T>, handle>)
         explicit handle(T&& val) noexcept
             : handle()
         {
-- 
2.43.0


From 9030f4b49c3d7a414bec6208d4065d166716b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 82/99] fix: handle::type() did not compile

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 798f68e..2ed88aa 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1201,7 +1201,7 @@ public:
         }
 
         [[nodiscard]]
-        std::type_info type()
+        const std::type_info& type() const noexcept
         {
             return ptr()->type();
         }
-- 
2.43.0


From eb9ddf4c1c70332dcf65c8aa49cd6d3bc3a6990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 83/99] fix: copying or moving an argument list no longer
 captures the list as an argument

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 2ed88aa..c572499 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1748,6 +1748,7 @@ public:
         std::less<>>;
 
     template <typename... Args>
+    requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, static_format_args> && ...)))
     static_format_args(Args&&... args)
     {
         construct(std::forward<Args>(args)...);
@@ -1860,6 +1861,7 @@ public:
     basic_dynamic_format_args(basic_dynamic_format_args&&) = default;
 
     template <typename... Args>
+    requires(!(sizeof...(Args) == 1 && (std::is_base_of_v<basic_dynamic_format_args, std::remove_cvref_t<Args>> && ...)))
     basic_dynamic_format_args(Args&&... args)
     {
         append(std::forward<Args>(args)...);
-- 
2.43.0


From a8d65d9e52ee54281636822376682e22406a63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:05 +0000
Subject: [PATCH 84/99] fix: get<bool>() of an argument did not compile

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index c572499..b56846a 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1526,6 +1526,8 @@ public:
     {
         if constexpr(char_like<T> || std::is_same_v<std::remove_cvref_t<T>, utf::codepoint>)
             return std::get<utf::codepoint>(val.m_val);
+        else if constexpr(std::is_same_v<std::remove_cvref_t<T>, bool>)
+            return std::get<bool>(val.m_val);
         else if constexpr(std::integral<T>)
             return std::get<detail::convert_int_t<T>>(val.m_val);
         else if constexpr(detail::acceptable_fp<T>)
-- 
2.43.0


From 6b15fea8e4e93d9b9b5ac27d826e1068f090441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 85/99] fix: exceptions thrown while a value is streamed are
 not lost with the rest of the output

---
 include/papilio/core.inl             | 4 ++++
 include/papilio/formatter/chrono.hpp | 1 +
 include/papilio/formatter/misc.hpp   | 1 +
 3 files changed, 6 insertions(+)

diff --git a/include/papilio/core.inl b/include/papilio/core.inl
index 5621600..a81d6ca 100644
--- a/include/papilio/core.inl
+++ b/include/papilio/core.inl
@@ -160,6 +160,8 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     if(use_iter_stream)
     {
         os_t os(ctx.out());
+        // Report the exceptions of the output iterator and of operator<<
+        os.exceptions(std::ios_base::badbit);
 
         setup_locale(os, ctx);
 
@@ -170,6 +172,8 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     else
     {
         std::basic_stringstream<CharT> ss;
+        // Report the exceptions of operator<<
+        ss.exceptions(std::ios_base::badbit);
 
         setup_locale(ss, ctx);
 
diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index db7fd8b..87195c8 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -87,6 +87,7 @@ public:
             constexpr bool has_facet = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;
 
             std::basic_stringstream<std::conditional_t<has_facet, CharT, wchar_t>> ss;
+            ss.exceptions(std::ios_base::badbit);
             if(m_data.basic.use_locale)
                 ss.imbue(ctx.getloc());
             else
diff --git a/include/papilio/formatter/misc.hpp b/include/papilio/formatter/misc.hpp
index 3cd005d..7edbfa0 100644
--- a/include/papilio/formatter/misc.hpp
+++ b/include/papilio/formatter/misc.hpp
@@ -32,6 +32,7 @@ public:
         constexpr bool has_facet = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;
 
         std::basic_stringstream<std::conditional_t<has_facet, CharT, char>> ss;
+        ss.exceptions(std::ios_base::badbit);
         ss.imbue(std::locale::classic());
         ss << id;
 
-- 
2.43.0


From e9fb2bff63a47d269cdbdc39a125da3a1191be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 86/99] fix: an exception while an independent argument is made
 no longer terminates the program

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b56846a..59ddbd4 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1136,8 +1136,8 @@ public:
 
         template <typename T>
         handle(independent_t, T&& val)
-            : handle()
         {
+            // Not delegating: there is nothing to destroy if this throws
             construct<T>(independent, std::forward<T>(val));
         }
 
@@ -1391,7 +1391,7 @@ public:
 
     template <typename T>
     requires(use_handle_v<T>)
-    basic_format_arg(independent_t, T&& val) noexcept
+    basic_format_arg(independent_t, T&& val)
         : m_val(std::in_place_type<handle>, independent, std::forward<T>(val))
     {}
 
-- 
2.43.0


From 3ba77fd534e36db589ec8da8edcfed0aee5e3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 87/99] fix: an exception while a static argument list is made
 no longer terminates the program

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 59ddbd4..8f39591 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1800,7 +1800,7 @@ public:
 
 private:
     template <typename... Args>
-    void construct(Args&&... args) noexcept
+    void construct(Args&&... args)
     {
         static_assert(
             detail::get_indexed_arg_count<Args...>() == IndexedArgumentCount,
-- 
2.43.0


From 57fb91a2ad05c8f267e043a9a89741945b62e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 88/99] fix: making an owning string no longer terminates the
 program if the allocation fails

---
 include/papilio/access.hpp     | 2 +-
 include/papilio/utf/string.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/access.hpp b/include/papilio/access.hpp
index b28282d..b66cdb6 100644
--- a/include/papilio/access.hpp
+++ b/include/papilio/access.hpp
@@ -143,7 +143,7 @@ public:
     {}
 
     template <basic_string_like<CharT> String>
-    basic_attribute_name(independent_t, String&& str) noexcept(std::is_nothrow_constructible_v<string_container_type, String>)
+    basic_attribute_name(independent_t, String&& str)
         : m_name(independent, std::forward<String>(str))
     {}
 
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 2fbb12e..9930fa8 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -936,10 +936,10 @@ public:
     constexpr basic_string_container(const CharT* str, size_type count) noexcept
         : m_data(std::in_place_type<string_view_type>, str, count) {}
 
-    basic_string_container(independent_t, const CharT* str) noexcept
+    basic_string_container(independent_t, const CharT* str)
         : m_data(std::in_place_type<string_type>, str) {}
 
-    constexpr basic_string_container(independent_t, const CharT* str, size_type count) noexcept
+    constexpr basic_string_container(independent_t, const CharT* str, size_type count)
         : m_data(std::in_place_type<string_type>, str, count) {}
 
     basic_string_container(const_iterator start, const_iterator stop) noexcept
@@ -1042,7 +1042,7 @@ public:
     }
 
     template <std::ranges::input_range R>
-    basic_string_container& assign_range(R&& r) noexcept
+    basic_string_container& assign_range(R&& r)
     {
         // A codepoint is also convertible to CharT, but only by truncating it
         if constexpr(std::integral<std::remove_cvref_t<std::ranges::range_reference_t<R>>> &&
-- 
2.43.0


From ef7155b0b23bf7e8e96711b1925d78bf48c74429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 89/99] fix: join() asks whether the formatter of the elements
 can parse the format, not the output

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index e812ff3..3fdb500 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -628,7 +628,7 @@ public:
     {
         using formatter_t = typename FormatContext::template formatter_type<value_type>;
 
-        if constexpr(formatter_traits<formatter_t>::template parsable<FormatContext>())
+        if constexpr(formatter_traits<formatter_t>::template parsable<ParseContext>())
         {
             formatter_t fmt;
             parse_ctx.advance_to(fmt.parse(parse_ctx));
-- 
2.43.0


From 489f4aa0fc0b58e5a8c7e98f17b46a0a538e1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 90/99] fix: join() formats elements whose formatter has no
 parser in all character types, and with the locale of the call

---
 include/papilio/format.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 3fdb500..9fa9e72 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -654,9 +654,8 @@ public:
                     append_sep(fmt_ctx, j);
                 first = false;
 
-                fmt_ctx.advance_to(
-                    PAPILIO_NS format_to(fmt_ctx.out(), "{}", i)
-                );
+                using context_t = format_context_traits<FormatContext>;
+                context_t::format_to(fmt_ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
             }
         }
 
-- 
2.43.0


From 4087716819ec4f490e0f8f9750aff7fec801e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 91/99] fix: ordering ill-formed UTF-16 text does not terminate
 the program

---
 include/papilio/core.hpp       |  6 ++--
 include/papilio/utf/string.hpp | 50 +++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8f39591..5aefd23 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -602,10 +602,10 @@ public:
      * @return std::partial_ordering The relationship between two variables.
      */
     [[nodiscard]]
-    std::partial_ordering compare(const basic_variable& var) const noexcept
+    std::partial_ordering compare(const basic_variable& var) const
     {
         return std::visit(
-            [](const auto& lhs, const auto& rhs) noexcept
+            [](const auto& lhs, const auto& rhs)
             {
                 return compare_impl(lhs, rhs);
             },
@@ -720,7 +720,7 @@ private:
     }
 
     template <typename T>
-    static std::partial_ordering compare_impl(const T& lhs, const T& rhs) noexcept
+    static std::partial_ordering compare_impl(const T& lhs, const T& rhs)
     {
         return lhs <=> rhs;
     }
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9930fa8..9c133be 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -662,25 +662,25 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -705,7 +705,7 @@ private:
     }
 
     template <typename Other>
-    constexpr int compare_impl(const Other& other) const noexcept
+    constexpr int compare_impl(const Other& other) const
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -798,43 +798,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, basic_string_ref<U> r
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
@@ -1222,31 +1222,31 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(const basic_string_container<U>& other) const noexcept
+    constexpr int compare(const basic_string_container<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -1582,7 +1582,7 @@ private:
     }
 
     template <typename U>
-    constexpr int compare_impl(basic_string_ref<U> other) const noexcept
+    constexpr int compare_impl(basic_string_ref<U> other) const
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -1661,43 +1661,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, const basic_string_co
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
-- 
2.43.0


From a7f2cfbe170e3a4282107d84ca984741ac0fbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:37 +0000
Subject: [PATCH 92/99] fix: looking for a character in ill-formed UTF-16 text
 does not terminate the program

---
 include/papilio/utf/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9c133be..7b22577 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -204,19 +204,19 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint front() const noexcept
+    constexpr codepoint front() const noexcept(!char16_like<CharT>)
     {
         return index(0);
     }
 
     [[nodiscard]]
-    constexpr codepoint back() const noexcept
+    constexpr codepoint back() const noexcept(!char16_like<CharT>)
     {
         return index(reverse_index, 0);
     }
 
     [[nodiscard]]
-    const_iterator find(codepoint ch, size_type pos = 0) const noexcept
+    const_iterator find(codepoint ch, size_type pos = 0) const noexcept(!char16_like<CharT>)
     {
         auto it = as_derived().cbegin();
         const auto sentinel = as_derived().cend();
@@ -230,7 +230,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool contains(codepoint ch) const noexcept
+    constexpr bool contains(codepoint ch) const noexcept(!char16_like<CharT>)
     {
         return find(ch) != as_derived().cend();
     }
@@ -248,7 +248,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool starts_with(codepoint cp) const noexcept
+    constexpr bool starts_with(codepoint cp) const noexcept(!char16_like<CharT>)
     {
         return !empty() && front() == cp;
     }
@@ -559,7 +559,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool ends_with(codepoint cp) const noexcept
+    constexpr bool ends_with(codepoint cp) const noexcept(!char16_like<CharT>)
     {
         return !this->empty() && this->back() == cp;
     }
-- 
2.43.0


From a871fe7d58016ac33f9d8008ab526d883f759b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:37 +0000
Subject: [PATCH 93/99] fix: the last character of text without a leading unit
 is not read out of bounds

---
 include/papilio/utf/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 7b22577..6f792b9 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -212,7 +212,8 @@ public:
     [[nodiscard]]
     constexpr codepoint back() const noexcept(!char16_like<CharT>)
     {
-        return index(reverse_index, 0);
+        // There may be no leading unit in ill-formed text
+        return index_or(reverse_index, 0, codepoint(U'\xFFFD'));
     }
 
     [[nodiscard]]
-- 
2.43.0


From aa95912836c6edb5d803b9e8e1f4db25968b187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:30 +0000
Subject: [PATCH 94/99] fix: a small_vector does not lose elements if moving
 one of them throws

---
 include/papilio/container.hpp | 36 ++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index dbf7360..aea4a3e 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -324,10 +324,23 @@ public:
             set_ptrs(getbuf(), static_capacity());
 
             PAPILIO_ASSERT(other.size() <= this->capacity());
+            // Destroy the elements already moved if moving the next one throws
+            struct guard
+            {
+                small_vector* vec;
+
+                ~guard()
+                {
+                    if(vec)
+                        vec->destroy_all();
+                }
+            } g{this};
+
             for(auto&& i : other)
             {
                 emplace_back_impl(std::move(i));
             }
+            g.vec = nullptr;
             other.clear();
         }
     }
@@ -712,9 +725,8 @@ private:
         }
         catch(...)
         {
-            std::allocator_traits<Allocator>::deallocate(
-                get_alloc(), tmp_ptr, tmp_capacity
-            );
+            // keep the elements where they are
+            set_ptrs(tmp_ptr, tmp_size, tmp_capacity);
             throw;
         }
 
@@ -805,11 +817,21 @@ private:
         pointer tmp_p_capacity = other.m_p_capacity;
         other.set_ptrs(other.getbuf(), static_capacity());
 
-        for(size_type i = 0; i < this->size(); ++i)
+        try
         {
-            other.emplace_back_impl(
-                std::move(*(m_p_begin + i))
-            );
+            for(size_type i = 0; i < this->size(); ++i)
+            {
+                other.emplace_back_impl(
+                    std::move(*(m_p_begin + i))
+                );
+            }
+        }
+        catch(...)
+        {
+            // give the dynamic allocated memory back
+            other.clear();
+            other.set_ptrs(tmp_p_begin, tmp_p_end, tmp_p_capacity);
+            throw;
         }
         destroy_all();
 
-- 
2.43.0


From e7f86a51ee634983effae4300622a33f2afe437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:05 +0000
Subject: [PATCH 95/99] fix: resetting an optional_unique_ptr while it is being
 reset does not destroy the object again

---
 include/papilio/memory.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index f22f146..f1d5a12 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -272,13 +272,13 @@ public:
 
     void reset(std::nullptr_t) noexcept
     {
-        if(has_ownership())
+        // The deleter may come back to this pointer
+        pointer old_ptr = std::exchange(m_ptr, pointer());
+        if(std::exchange(m_has_ownership, false))
         {
-            PAPILIO_ASSERT(static_cast<bool>(*this));
-            get_deleter()(get());
+            PAPILIO_ASSERT(static_cast<bool>(old_ptr));
+            get_deleter()(old_ptr);
         }
-        m_ptr = pointer();
-        m_has_ownership = false;
     }
 
     void reset() noexcept
@@ -459,13 +459,13 @@ public:
 
     void reset(std::nullptr_t) noexcept
     {
-        if(has_ownership())
+        // The deleter may come back to this pointer
+        pointer old_ptr = std::exchange(m_ptr, pointer());
+        if(std::exchange(m_has_ownership, false))
         {
-            PAPILIO_ASSERT(static_cast<bool>(*this));
-            m_del(get());
+            PAPILIO_ASSERT(static_cast<bool>(old_ptr));
+            m_del(old_ptr);
         }
-        m_ptr = pointer();
-        m_has_ownership = false;
     }
 
     void reset() noexcept
-- 
2.43.0


From 384ac60358b3d805c3d21d19be2befee4a8b040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:05 +0000
Subject: [PATCH 96/99] fix: fixed_flat_map::try_emplace() passes all arguments
 to the constructor of the value

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index aea4a3e..243294b 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1404,7 +1404,7 @@ public:
             pos,
             std::piecewise_construct,
             std::forward_as_tuple(k),
-            std::forward_as_tuple(std::forward<Args>(args))...
+            std::forward_as_tuple(std::forward<Args>(args)...)
         );
         return std::make_pair(
             pos, true
-- 
2.43.0


From b735fd3e91f7539d5080b4c70d37556f6567be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:42 +0000
Subject: [PATCH 97/99] fix: ordering a string on the left of a string
 reference or container did not compile

---
 include/papilio/utf/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 6f792b9..49aced5 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -813,7 +813,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -825,7 +825,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_s
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -837,7 +837,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::b
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT using string_ref = basic_string_ref<char>;
@@ -1676,7 +1676,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1688,7 +1688,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1700,7 +1700,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT using string_container = basic_string_container<char>;
-- 
2.43.0


From 6671da18de4c2c8bc915119147413e3077b273e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:24 +0000
Subject: [PATCH 98/99] fix: making a code point from a span of mutable bytes
 did not compile

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index c6a9031..46d3460 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -144,7 +144,7 @@ public:
     requires(sizeof(T) == 1)
     constexpr codepoint(std::span<T, 4> bytes) noexcept
     {
-        assign(bytes);
+        assign(std::span<const std::remove_const_t<T>, 4>(bytes));
     }
 
     constexpr codepoint(char32_t ch) noexcept
-- 
2.43.0


From 2bdd8680ce1a226924ad6d70da2081a54ba68d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:08 +0000
Subject: [PATCH 99/99] fix: assignments of small_vector returned memory to the
 wrong allocator

---
 include/papilio/container.hpp | 43 +++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 243294b..1936d3d 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -368,14 +368,53 @@ public:
     {
         if(this == &rhs)
             return *this;
+        if constexpr(std::allocator_traits<Allocator>::propagate_on_container_copy_assignment::value)
+        {
+            if(get_alloc() != rhs.get_alloc())
+            {
+                // The memory must be returned to the allocator that it came from
+                clear();
+                free_mem();
+                set_ptrs(getbuf(), static_capacity());
+            }
+            get_alloc() = rhs.get_alloc();
+        }
         assign(rhs.begin(), rhs.end());
 
         return *this;
     }
 
-    small_vector& operator=(small_vector&& rhs) noexcept(std::is_nothrow_move_constructible_v<small_vector>)
+    small_vector& operator=(small_vector&& rhs) noexcept(
+        std::is_nothrow_move_constructible_v<small_vector> &&
+        (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<Allocator>::is_always_equal::value)
+    )
     {
-        small_vector(std::move(rhs)).swap(*this);
+        using alloc_traits = std::allocator_traits<Allocator>;
+        constexpr bool propagate = alloc_traits::propagate_on_container_move_assignment::value;
+
+        if constexpr(!propagate && !alloc_traits::is_always_equal::value)
+        {
+            if(get_alloc() != rhs.get_alloc())
+            {
+                // The memory of another allocator cannot be taken over
+                small_vector tmp(get_alloc());
+                tmp.reserve(rhs.size());
+                for(auto&& i : rhs)
+                    tmp.emplace_back_impl(std::move(i));
+                tmp.swap(*this);
+                rhs.clear();
+
+                return *this;
+            }
+        }
+
+        small_vector tmp(std::move(rhs));
+        tmp.swap(*this);
+        if constexpr(propagate && !alloc_traits::propagate_on_container_swap::value)
+        {
+            using std::swap;
+            swap(get_alloc(), tmp.get_alloc());
+        }
 
         return *this;
     }
-- 
2.43.0

