From d02a4afc58d7c55cb9f50a4b7e97f190f3a26536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 01/21] fix: values above U+10FFFF are not encodable in UTF-16

isUcs4/isUtf8/isWstring accepted 0x110000..0x1fffff for kUtf16 although
toUtf16 cannot represent them.
---
 source/string_internal.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..5beb710 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -68,9 +68,9 @@ enum RangeTypeFlags : int {
 
     k7BitFlags  = kAsciiFlag | kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3f
     k16BitFlags =              kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3e
-    k21BitFlags =              kUtf8Flag |             kUtf16Flag | kUcs4Flag,                  // 0x1a
+    k21BitFlags =              kUtf8Flag |                          kUcs4Flag,                  // 0x12
 
-    k21BitUnicodeFlags = k21BitFlags | kUnicodeFlag,                             // 0x3a,
+    k21BitUnicodeFlags = k21BitFlags | kUtf16Flag | kUnicodeFlag,                // 0x3a,
     k31BitFlags =              kUtf8Flag |                          kUcs4Flag,   // 0x12
     k32BitFlags =                                                   kUcs4Flag    // 0x10
 };
@@ -173,7 +173,7 @@ RangeTypeFlags getCharEncodableRangeFlags(C c)
     }
     else if (c < 0x200000)
     {
-        return static_cast<RangeTypeFlags>(k21BitFlags | getUnicodeEncodableRangeFlag(c));
+        return getUnicodeEncodableRangeFlag(c) == kUnicodeFlag ? k21BitUnicodeFlags : k21BitFlags;
     }
     else
     {
-- 
2.43.0


From d24a43bc7b254f289988b2fa03943621f4d2b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 02/21] fix: toUtf8 from UTF-16 rejects an unpaired second half

It used to emit an ill-formed three-byte sequence.
---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..e093c65 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -503,6 +503,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From a121bfba4bf800e61ee78f08a62b67dfca9ad59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 03/21] fix: isUtf16 applies its predicate to the decoded code
 point

The predicate was given the first half of a surrogate pair.
---
 source/string.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index e093c65..5620b98 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -378,7 +378,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
         {
             return false;
         }
-        auto c = *p;
+        char32_t c = *p;
         RangeTypeFlags charFlag;
         /* Never hit, 2nd half UTF16 is invalid range
         if (isSecondHalfUtf16(c))
@@ -392,8 +392,9 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
             {
                 return false;
             }
+            c = rawDecodeUtf16(*(p - 1), c1);
             // Could make this function call but it is unnecessary
-            // charFlag = getCharEncodableRangeFlags(rawDecodeUtf16(c, c1));
+            // charFlag = getCharEncodableRangeFlags(c);
             charFlag = k21BitUnicodeFlags;
         }
         else
-- 
2.43.0


From c8470946293da34e7ca9e8143f58b8fb0076f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 04/21] fix: ignore a cut-off UTF-8 tail only if it could have
 been completed

Overlong, unpaired-surrogate and out-of-range prefixes at the end of a string
were accepted as incomplete sequences. The length-terminated scans also took
malformed bytes or a NUL for an incomplete tail, counted past a stray byte, and
read one byte beyond a two-byte tail.
---
 source/string.cxx | 72 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 5620b98..46b528d 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -197,6 +197,43 @@ inline bool isSecondHalfUtf16AsUtf8
                 static_cast<unsigned char>(p[2])));
 }
 
+//=========================================================================
+// Utility function to decide if a UTF-8 sequence, cut off by the end of its
+// string, could have been completed to a character in one of these ranges.
+//
+// Note: Call only if p points to fewer bytes than the sequence needs
+//
+// Returns true if some completion of the sequence would have been valid
+
+bool couldBeCompleted
+(
+    const char*         p,      // I - points to the start of the sequence
+    size_t              size,   // I - how many bytes of it there are
+    RangeTypeFlags      ranges  // I - what range(s) it may be completed to
+)
+{
+    size_t seqStarts = sequenceSizeCharStarts(p);
+    for (char filler : { '\x80', '\xbf' })
+    {
+        string whole(p, size);
+        if (size < seqStarts)
+        {
+            whole.append(seqStarts - size, filler);
+        }
+        if (seqStarts == 3 && whole.size() < 6 && isFirstHalfUtf16AsUtf8(whole.c_str()))
+        {
+            whole.append("\xed\xb0\x80" + (whole.size() - 3));
+        }
+        auto q = whole.c_str();
+        auto c = decodeUtf8(q);
+        if (q != nullptr && c != 0 && (getCharEncodableRangeFlags(c) & ranges) != 0)
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -252,7 +289,7 @@ bool isUtf8
             if (seqStarts == 3)
             {
                 // is this out-of-order?
-                if (lengthLeft > 1 && isSecondHalfUtf16AsUtf8(p))
+                if (lengthLeft >= 3 && isSecondHalfUtf16AsUtf8(p))
                 {
                     return false;
                 }
@@ -265,10 +302,11 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return couldBeCompleted(p, lengthLeft, restrictToThis);
             }
         }
 
+        auto pStart = p;
         auto c = decodeUtf8(p);
 
         // how did decoding go?
@@ -280,7 +318,8 @@ bool isUtf8
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return *p == 0;
+            return *p == 0 && !lengthTerminated &&
+                   couldBeCompleted(pStart, p - pStart, restrictToThis);
         }
 
         // decoded -- how much was used?
@@ -564,6 +603,7 @@ ucs2String toUcs2(const char* src)
     {
         for (auto p = src; *p; ++p)
         {
+            auto pStart = p;
             auto c = decodeUtf8(p);
             if (p == nullptr || c > 0xffff)
             {
@@ -571,6 +611,10 @@ ucs2String toUcs2(const char* src)
             }
             else if (c == 0)
             {
+                if (!couldBeCompleted(pStart, p - pStart, kUtf8Flag))
+                {
+                    return ucs2String();
+                }
                 break;
             }
             result.push_back(static_cast<char16_t>(c));
@@ -622,6 +666,7 @@ utf16String toUtf16(const char* src)
         CharacterAdder<char16_t> adder(result);
         for (auto p = src; *p; ++p)
         {
+            auto pStart = p;
             auto c = decodeUtf8(p);
             if (p == nullptr || !isUtf16Encodable(c))
             {
@@ -629,6 +674,10 @@ utf16String toUtf16(const char* src)
             }
             else if (c == 0)
             {
+                if (!couldBeCompleted(pStart, p - pStart, kUtf8Flag))
+                {
+                    return utf16String();
+                }
                 break;
             }
             rawEncodeUtf16(c, adder);
@@ -682,6 +731,7 @@ ucs4String toUcs4(const char* src)
     {
         for (auto p = src; *p; ++p)
         {
+            auto pStart = p;
             auto c = decodeUtf8(p);
             if (p == nullptr)
             {
@@ -689,6 +739,10 @@ ucs4String toUcs4(const char* src)
             }
             else if (c == 0)
             {
+                if (!couldBeCompleted(pStart, p - pStart, kUtf8Flag))
+                {
+                    return ucs4String();
+                }
                 break;
             }
             result.push_back(c);
@@ -775,11 +829,15 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         {
             // result will always be positive, p is never nullptr
             unsigned int seqStarts = sequenceSizeCharStarts(p);
+            if (getRangeFlag(*p) == kInvalidRangeFlag)
+            {
+                return 0;
+            }
             // "3" long sequences might be UTF-16 parts
             if (seqStarts == 3)
             {
                 // is this out-of-order?
-                if (lengthLeft > 1 && isSecondHalfUtf16AsUtf8(p))
+                if (lengthLeft >= 3 && isSecondHalfUtf16AsUtf8(p))
                 {
                     return 0;
                 }
@@ -792,12 +850,13 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return couldBeCompleted(p, lengthLeft, kUtf8Flag) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
 
         // decode a character
+        auto pStart = p;
         auto c = decodeUtf8(p);
 
         // how did decoding go?
@@ -809,7 +868,8 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0) ? (r - 1) : 0;
+            return (*p == 0 && !lengthTerminated &&
+                    couldBeCompleted(pStart, p - pStart, kUtf8Flag)) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
-- 
2.43.0


From 41d75681848ec83c714f9c6337c200a0d70f81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 05/21] fix: unicodeLength of null, of a lone incomplete tail
 and at the length limit

A null UTF-16 or UCS-4 pointer was dereferenced, a string of nothing but an
incomplete sequence had length UINT_MAX, and the length-terminated UTF-16 scan
read one unit beyond its length and took an embedded NUL for the end.
---
 source/string.cxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 46b528d..3c6cdb2 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -869,7 +869,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
             return (*p == 0 && !lengthTerminated &&
-                    couldBeCompleted(pStart, p - pStart, kUtf8Flag)) ? (r - 1) : 0;
+                    couldBeCompleted(pStart, p - pStart, kUtf8Flag) && r != 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -911,6 +911,11 @@ unsigned int unicodeLength(const utf16String& src)
 
 unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
 {
+    if (!src || !*src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
@@ -939,10 +944,10 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        auto c1 = isFirstHalf ? p[1] : char16_t(0);
         if (isFirstHalf && c1 == 0)
         {
-            return r - 1;
+            return (lengthTerminated || r == 0) ? 0 : (r - 1);
         }
 
         // and if in two pieces, is it valid?
@@ -990,6 +995,11 @@ unsigned int unicodeLength(const ucs4String& src)
 
 unsigned int unicodeLength(const char32_t* src, unsigned int testLength)
 {
+    if (!src || !*src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
-- 
2.43.0


From 34f57198d4e994520b28bd4022269307d78ea712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 06/21] fix: a predicate that requires and forbids the same
 thing accepts nothing

andIfNot(x) after a condition on x, and andIf(x) after its opposite, were
silently dropped or turned into the opposite.
---
 source/encoding_check_predicate.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/encoding_check_predicate.cxx b/source/encoding_check_predicate.cxx
index 1200c8b..1d63b49 100644
--- a/source/encoding_check_predicate.cxx
+++ b/source/encoding_check_predicate.cxx
@@ -55,6 +55,9 @@ namespace {
 EncodingTypeFlags encodingTypeToEncodingFlag[kFirstInvalidEncoding] =
     { kNoneFlag, kIsAssignedFlag, kIsPrivateFlag, kIsControlFlag, kIsWhiteSpaceFlag };
 
+// a value outside any mask, for predicates that require and forbid the same thing
+const uint32_t kContradiction = 0x80000000;
+
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -89,6 +92,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIf
 )
 {
     EncodingCheckPredicate other(toCheckFor);
+    if ((m_mask & other.m_mask & (m_value ^ other.m_value)) != 0)
+    {
+        m_value |= kContradiction;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
@@ -103,6 +110,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIfNot
 )
 {
     EncodingCheckPredicate other(toCheckFor, false);
+    if ((m_mask & other.m_mask & (m_value ^ other.m_value)) != 0)
+    {
+        m_value |= kContradiction;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
-- 
2.43.0


From af3561d0b58fb70b7d96006e9e1b4e71af308f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 07/21] fix: trimWhiteSpace trims every Unicode white space
 character

U+000B, U+000C, U+0085, U+1680, U+2028 and U+2029 were left in place.
---
 interface/string_trim.hxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 9965047..e0a9a31 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -87,16 +87,17 @@ inline void trimAscii7WhiteSpace(std::string& victim)
 inline void trimWhiteSpace(ucs4String& victim)
 {
     trim(victim, std::u32string(
-            U"\U00000009\U0000000a\U0000000d \U000000a0\U00002000\U00002001\U00002002\U00002003"
-            U"\U00002004\U00002005\U00002006\U00002007\U00002008\U00002009\U0000200a\U0000202f"
-            U"\U0000205f\U00003000"));
+            U"\U00000009\U0000000a\U0000000b\U0000000c\U0000000d \U00000085\U000000a0\U00001680"
+            U"\U00002000\U00002001\U00002002\U00002003"
+            U"\U00002004\U00002005\U00002006\U00002007\U00002008\U00002009\U0000200a\U00002028"
+            U"\U00002029\U0000202f\U0000205f\U00003000"));
 }
 
 inline void trimWhiteSpace(utf16String& victim)
 {
     trim(victim, std::u16string(
-            u"\u0009\u000a\u000d \u00a0\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
-            u"\u2009\u200a\u202f\u205f\u3000"));
+            u"\u0009\u000a\u000b\u000c\u000d \u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004"
+            u"\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"));
 }
 
 inline void trimWhiteSpace(utf8String& victim)
-- 
2.43.0


From 41db3b425952eeb98ddbd2f2b2adb2c50e89a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 08/21] fix: trimWhiteSpace of UTF-8 keeps text with values
 above U+10FFFF

Going through UTF-16 emptied such strings.
---
 interface/string_trim.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index e0a9a31..1d10ce2 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -102,9 +102,9 @@ inline void trimWhiteSpace(utf16String& victim)
 
 inline void trimWhiteSpace(utf8String& victim)
 {
-    auto v16 = toUtf16(victim);
-    trimWhiteSpace(v16);
-    victim = toUtf8(v16);
+    auto v4 = toUcs4(victim);
+    trimWhiteSpace(v4);
+    victim = toUtf8(v4);
 }
 
 }
-- 
2.43.0


From b0c8abb065b37f0750b13160e18b012fc958b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 09/21] fix: join with a NUL delimiter

The delimiter was appended as a C string, so NUL added nothing.
---
 interface/string_splitjoin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interface/string_splitjoin.hxx b/interface/string_splitjoin.hxx
index 6121fe5..b9cfbcb 100644
--- a/interface/string_splitjoin.hxx
+++ b/interface/string_splitjoin.hxx
@@ -126,15 +126,13 @@ std::basic_string<C> join(const std::vector< std::basic_string<C> >& src, C deli
     }
     else
     {
-        C delimStr[2] = {0};
-        delimStr[0] = delim;
         return_type r;
         bool first = true;
         for (auto s : src)
         {
             if (!first)
             {
-                r.append(delimStr);
+                r.push_back(delim);
             }
             first = false;
             r.append(s);
-- 
2.43.0


From e27322f82d504fc33e1e1d20e9773781059949ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:56 +0000
Subject: [PATCH 10/21] fix: toLower leaves the multiplication sign U+00D7
 alone

It became the division sign U+00F7.
---
 source/bits10/char_to_lower.cxx | 6 +++---
 source/bits11/char_to_lower.cxx | 6 +++---
 source/bits12/char_to_lower.cxx | 6 +++---
 source/bits13/char_to_lower.cxx | 6 +++---
 source/bits14/char_to_lower.cxx | 6 +++---
 source/bits15/char_to_lower.cxx | 6 +++---
 source/bits16/char_to_lower.cxx | 6 +++---
 source/bits7/char_to_lower.cxx  | 6 +++---
 source/bits8/char_to_lower.cxx  | 6 +++---
 source/bits9/char_to_lower.cxx  | 6 +++---
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 68a1ef1..b7ce5e8 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 9a582fa..00bdb73 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 7d6ad65..a2f8374 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index b1b6a32..32add43 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index d411f80..a24268d 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 5efc45b..67f3ba3 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
-- 
2.43.0


From e92f690015456c3f14d9a1c686b59179872a39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:56 +0000
Subject: [PATCH 11/21] fix: toLower leaves the caseless letters U+1E96..U+1E9D
 alone

---
 source/bits10/char_to_lower.cxx | 2 +-
 source/bits11/char_to_lower.cxx | 2 +-
 source/bits12/char_to_lower.cxx | 2 +-
 source/bits13/char_to_lower.cxx | 2 +-
 source/bits14/char_to_lower.cxx | 2 +-
 source/bits15/char_to_lower.cxx | 2 +-
 source/bits16/char_to_lower.cxx | 2 +-
 source/bits7/char_to_lower.cxx  | 2 +-
 source/bits8/char_to_lower.cxx  | 2 +-
 source/bits9/char_to_lower.cxx  | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index b7ce5e8..2c57133 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 00bdb73..ee0bb72 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index a2f8374..bfbe774 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -283,7 +283,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index 32add43..6edf8de 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -264,7 +264,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index a24268d..8d72bb0 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 67f3ba3..597e183 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
-- 
2.43.0


From 85b6ede1b29c1137e710b5d2eb162d294c44db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:34 +0000
Subject: [PATCH 12/21] fix: toLower knows the capital letters added in Unicode
 11

Georgian Mtavruli and Medefaidrin.
---
 source/bits11/char_to_lower.cxx | 12 ++++++++++++
 source/bits12/char_to_lower.cxx | 12 ++++++++++++
 source/bits13/char_to_lower.cxx | 12 ++++++++++++
 source/bits14/char_to_lower.cxx | 12 ++++++++++++
 source/bits15/char_to_lower.cxx | 12 ++++++++++++
 source/bits16/char_to_lower.cxx |  9 +++++++++
 6 files changed, 69 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 3c93cda..e32fcdf 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if (c >= 0x1C90 && c <= 0x1CBF && c != 0x1CBB && c != 0x1CBC)
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -538,6 +546,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 2c57133..6dd76e3 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if (c >= 0x1C90 && c <= 0x1CBF && c != 0x1CBB && c != 0x1CBC)
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -543,6 +551,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index ee0bb72..c5e8b44 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if (c >= 0x1C90 && c <= 0x1CBF && c != 0x1CBB && c != 0x1CBC)
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -546,6 +554,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index dc673a6..1cc8fbf 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if (c >= 0x1C90 && c <= 0x1CBF && c != 0x1CBB && c != 0x1CBC)
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index dc673a6..1cc8fbf 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if (c >= 0x1C90 && c <= 0x1CBF && c != 0x1CBB && c != 0x1CBC)
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index bfbe774..2db5d29 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -276,6 +276,11 @@ char16_t toLower1000(char16_t c)
         {
             return 0x1C8A;
         }
+        else if (c >= 0x1C90 && c <= 0x1CBF && c != 0x1CBB && c != 0x1CBC)
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
         break;
 
     case 0x1E:
@@ -569,6 +574,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
-- 
2.43.0


From 240dca49dd615fadadf17bb68ec451c42208e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:34 +0000
Subject: [PATCH 13/21] fix: toLower of the unassigned gaps among the Vithkuqi
 capitals (Unicode 16)

---
 source/bits16/char_to_lower.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 2db5d29..3f065f3 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -557,7 +557,8 @@ char32_t toLower(char32_t c)
         {
             return c + 0x28;
         }
-        else if (c >= 0x10570 && c <= 0x10595)
+        else if (c >= 0x10570 && c <= 0x10595 &&
+                 c != 0x1057B && c != 0x1058B && c != 0x10593)
         {
             return c + 0x27;
         }
-- 
2.43.0


From 820df09b416347f4c1cfa698f9fdd3eae84fd6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:53 +0000
Subject: [PATCH 14/21] fix: toUcs4(wchar_t*) and toWstring(char32_t*) of a
 null pointer

A null pointer passes the check, and std::basic_string(nullptr) then throws.
---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b3dc096..b16e2e7 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -958,7 +958,7 @@ inline ucs2String toUcs2(const std::wstring& src)
 
 inline ucs4String toUcs4(const wchar_t* src)
 {
-    if (isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
+    if (src && isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
     {
         return ucs4String(reinterpret_cast<const char32_t*>(src));
     }
@@ -997,7 +997,7 @@ inline std::wstring toWstring(const ucs2String& src)
 
 inline std::wstring toWstring(const char32_t* src)
 {
-    if (isUcs4(src, kUtf16))
+    if (src && isUcs4(src, kUtf16))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From 63ee907cb6d5f7a874a9b456de419d7d949cd53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:08 +0000
Subject: [PATCH 15/21] fix: 16-bit wchar_t conversions of a null pointer and
 of a cut-off pair

With a 16-bit wchar_t, toUtf16, toUcs2 and toWstring passed a null pointer to
the string constructor, and toUtf16 and toWstring copied an unpaired surrogate
at the end of the string into the result.
---
 interface/string.hxx | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b16e2e7..fdfa929 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -664,15 +664,8 @@ inline utf8String toUtf8(const std::wstring& src)
 
 inline utf16String toUtf16(const wchar_t* src)
 {
-    const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUtf16(redirect))
-    {
-        return utf16String(redirect);
-    }
-    else
-    {
-        return utf16String();
-    }
+    // by way of UCS-4, to leave out a pair cut off by the end of the string
+    return toUtf16(toUcs4(reinterpret_cast<const char16_t*>(src)));
 }
 
 inline utf16String toUtf16(const std::wstring& src)
@@ -681,7 +674,7 @@ inline utf16String toUtf16(const std::wstring& src)
 inline ucs2String toUcs2(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUcs2(redirect))
+    if (redirect && isUcs2(redirect))
     {
         return ucs2String(redirect);
     }
@@ -711,14 +704,8 @@ inline std::wstring toWstring(const utf8String& src)
 
 inline std::wstring toWstring(const char16_t* src)
 {
-    if (isUtf16(src))
-    {
-        return std::wstring(reinterpret_cast<const wchar_t*>(src));
-    }
-    else
-    {
-        return std::wstring();
-    }
+    // by way of UCS-4, to leave out a pair cut off by the end of the string
+    return std::wstring(reinterpret_cast<const wchar_t*>(toUtf16(toUcs4(src)).c_str()));
 }
 inline std::wstring toWstring(const utf16String& src)
 {
-- 
2.43.0


From cc9e7257686cc118a1256017257209a2d6329219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:49 +0000
Subject: [PATCH 16/21] fix: wide TCHAR toTstring checks its UTF-16 argument

It copied ill-formed text and crashed on a null pointer; toWstring does neither.
---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index fdfa929..74cddb0 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -819,7 +819,7 @@ inline std::wstring toTstring(const char* test)
 
 inline std::wstring toTstring(const utf16String& test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test.c_str()));
+    return toWstring(test);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -831,7 +831,7 @@ inline std::wstring toTstring(const ucs2String& test)
 
 inline std::wstring toTstring(const char16_t* test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test));
+    return toWstring(test);
 }
 
 inline std::wstring toTstring(const ucs4String& test)
-- 
2.43.0


From efb00ad615e681d0b0c651b54d164988e2c799ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:09 +0000
Subject: [PATCH 17/21] fix: narrow TCHAR toTstring of a string recursed for
 ever

The overloads for pointers were not declared yet where the string forms called
them, so these called themselves. Null pointers no longer reach std::string.
---
 interface/string.hxx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 74cddb0..3b85f70 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -733,7 +733,7 @@ inline std::wstring toWstring(const ucs4String& src)
 
 inline utf8String toUtf8(const char* src)
 {
-  if (isUtf8(src))
+  if (src && isUtf8(src))
   {
     return utf8String(src);
   }
@@ -747,14 +747,9 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 #if defined(_MBCS)
 
-inline std::string toTstring(const utf8String& test)
-{
-    return toTstring(test.c_str());
-}
-
 inline std::string toTstring(const char* test)
 {
-    if (isUtf8(test, kAscii))
+    if (test && isUtf8(test, kAscii))
     {
         return std::string(test);
     }
@@ -764,7 +759,7 @@ inline std::string toTstring(const char* test)
     }
 }
 
-inline std::string toTstring(const utf16String& test)
+inline std::string toTstring(const utf8String& test)
 {
     return toTstring(test.c_str());
 }
@@ -788,7 +783,7 @@ inline std::string toTstring(const char16_t* test)
     }
 }
 
-inline std::string toTstring(const ucs4String& test)
+inline std::string toTstring(const utf16String& test)
 {
     return toTstring(test.c_str());
 }
@@ -805,6 +800,11 @@ inline std::string toTstring(const char32_t* test)
     }
 }
 
+inline std::string toTstring(const ucs4String& test)
+{
+    return toTstring(test.c_str());
+}
+
 #elif defined(_UNICODE)
 
 inline std::wstring toTstring(const utf8String& test)
-- 
2.43.0


From 338d399e2e288998ab0c9d8067033ce14c55c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:41 +0000
Subject: [PATCH 18/21] fix: narrow TCHAR isTstring answers for what toTstring
 converts

toTstring gives nothing for text that is not ASCII, which isTstring accepted.
---
 interface/string.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 3b85f70..4100520 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -575,17 +575,17 @@ inline bool isUcs4(const std::string& test) { return isUcs4(test.c_str()); }
 
 inline bool isTstring(const utf8String& test)
 {
-    return isUtf8(test, kUtf16);
+    return isUtf8(test, kAscii);
 }
 
 inline bool isTstring(const char* test)
 {
-    return isUtf8(test, kUtf16);
+    return isUtf8(test, kAscii);
 }
 
 inline bool isTstring(const utf16String& test)
 {
-    return isUtf16(test);
+    return isUtf16(test, kAscii);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -597,17 +597,17 @@ inline bool isTstring(const ucs2String& test)
 
 inline bool isTstring(const char16_t* test)
 {
-    return isUtf16(test);
+    return isUtf16(test, kAscii);
 }
 
 inline bool isTstring(const ucs4String& test)
 {
-    return isUcs4(test, kUtf16);
+    return isUcs4(test, kAscii);
 }
 
 inline bool isTstring(const char32_t* test)
 {
-    return isUcs4(test, kUtf16);
+    return isUcs4(test, kAscii);
 }
 
 #elif defined(_UNICODE)
-- 
2.43.0


From 0747c29747734062447be7e50c36e37cd3dd5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:29 +0000
Subject: [PATCH 19/21] fix: mkUnicodeTestData ends when the last line has no
 newline

getline leaves the string alone once the stream has ended, so the last record
was written for ever.
---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index afadd52..be41fb2 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -82,13 +82,19 @@ void process(filebuf& inbuf, filebuf& outbuf)
             auto privateN = fields[1].find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
             {
-                getline(inStream, oneLine);
+                if (!getline(inStream, oneLine))
+                {
+                    oneLine.clear();
+                }
                 fields = split(oneLine, ';');
                 continue;
             }
 
             outStream << " 0x" << fields[0] << ',';
-            getline(inStream, oneLine);
+            if (!getline(inStream, oneLine))
+            {
+                oneLine.clear();
+            }
             fields = split(oneLine, ';');
             ++nCount;
             if (oneLine.size() != 0 && nCount % 10 == 0)
-- 
2.43.0


From c9631ff0e9bed6beb9b96aef8e03d76093e6db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:39 +0000
Subject: [PATCH 20/21] fix: mkUnicodeTestData reports a line that is no record

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index be41fb2..326ccc6 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -78,7 +78,7 @@ void process(filebuf& inbuf, filebuf& outbuf)
         int nCount = 0;
         while (oneLine.size() > 10)
         {
-            auto surrogateN = fields[1].find("Surrogate");
+            auto surrogateN = fields.at(1).find("Surrogate");
             auto privateN = fields[1].find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
             {
-- 
2.43.0


From 103b0e1c22839a5e65bed5b551e6a79e3b59d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:06 +0000
Subject: [PATCH 21/21] fix: mkUnicodeTestData reports files it cannot open,
 read or write

filebuf::open and the stream operations do not throw; the documented exit
statuses for these cases were never returned.
---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index 326ccc6..a0a8e5c 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -53,6 +53,7 @@
 
 #include <fstream>
 
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "string_splitjoin.hxx"
@@ -106,7 +107,11 @@ void process(filebuf& inbuf, filebuf& outbuf)
         outStream << " 0xFFFFFFFF };" << endl;
     }
 
-    outbuf.close();
+    outStream.flush();
+    if (inStream.bad() || !outStream || outbuf.close() == nullptr)
+    {
+        throw runtime_error("input/output error");
+    }
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -137,12 +142,18 @@ int main(int argc, char* argv[])
     try
     {
         filebuf inBuf;
-        inBuf.open(argv[1], std::ios::in);
-        opened1 = true;
+        opened1 = inBuf.open(argv[1], std::ios::in) != nullptr;
+        if (!opened1)
+        {
+            throw runtime_error("infile");
+        }
 
         filebuf outBuf;
-        outBuf.open(argv[2], std::ios::out | std::ios::trunc);
-        opened2 = true;
+        opened2 = outBuf.open(argv[2], std::ios::out | std::ios::trunc) != nullptr;
+        if (!opened2)
+        {
+            throw runtime_error("outfile");
+        }
 
         process(inBuf, outBuf);
         inBuf.close();
-- 
2.43.0

