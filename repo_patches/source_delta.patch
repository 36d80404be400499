From 0f704afa40b29070f5d3e440489a434eccfaf104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:07 +0000
Subject: [PATCH 01/20] fix: bound the name buffer and reject non-ASCII names
 in reiconv_lookup_from_name

Names longer than the longest alias overflowed a stack buffer, and bytes >= 0x80
indexed past the 7-bit gperf association table.
---
 lib/iconv.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index d2cd52e..5127fc5 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -74,8 +74,24 @@ _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
 
 _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 {
-    char buf[MAX_WORD_LENGTH + 2];
-    size_t buf_len = reiconv_name_canonicalize(encoding, buf);
+    char buf[MAX_WORD_LENGTH + 1];
+    size_t buf_len = 0;
+
+    // Names can be arbitrarily long: stop as soon as the name cannot be in the table.
+    for (const char *cp = encoding; *cp; cp++)
+    {
+        if (*cp == '-' || *cp == '_')
+        {
+            continue;
+        }
+        // All the aliases are ASCII, and the hash function accepts nothing else.
+        if (buf_len == MAX_WORD_LENGTH || (unsigned char)*cp >= 0x80)
+        {
+            return -1;
+        }
+        buf[buf_len++] = (*cp >= 'a' && *cp <= 'z') ? (char)(*cp - ('a' - 'A')) : *cp;
+    }
+    buf[buf_len] = '\0';
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
     return ap ? ap->encoding_index : -1;
-- 
2.43.0


From dec2131a57be8f3271145b0ff8e02bf663f048c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:07 +0000
Subject: [PATCH 02/20] fix: reiconv_open overflowed its stack buffers on long
 names or suffixes

---
 lib/iconv.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 5127fc5..b1ec335 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -160,8 +160,16 @@ _CPPP_API reiconv_t reiconv_open_from_name(const char *fromcode, const char *toc
 
 _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 {
-    char fromcode_buf[MAX_WORD_LENGTH + 2];
-    char tocode_buf[MAX_WORD_LENGTH + 2];
+    // The names, with their suffixes, can be arbitrarily long.
+    char *fromcode_buf = (char *)malloc(strlen(fromcode) + 1);
+    char *tocode_buf = (char *)malloc(strlen(tocode) + 1);
+    if (fromcode_buf == NULL || tocode_buf == NULL)
+    {
+        free(fromcode_buf);
+        free(tocode_buf);
+        errno = ENOMEM;
+        return (reiconv_t)(-1);
+    }
 
     size_t fromcode_len = reiconv_name_canonicalize(fromcode, fromcode_buf);
     size_t tocode_len = reiconv_name_canonicalize(tocode, tocode_buf);
@@ -194,6 +202,8 @@ _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 
     int from_index = reiconv_lookup_from_name(fromcode_buf);
     int to_index = reiconv_lookup_from_name(tocode_buf);
+    free(fromcode_buf);
+    free(tocode_buf);
     if (from_index == -1 || to_index == -1)
     {
         errno = EINVAL;
-- 
2.43.0


From f5341b94599091c2602438bb60a93b9b6d3b3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:07 +0000
Subject: [PATCH 03/20] fix: reiconv_lookup_from_codepage read out of bounds
 for codepages outside the table

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index b1ec335..bdeace7 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -99,6 +99,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 
 _CPPP_API int reiconv_lookup_from_codepage(int codepage)
 {
+    if (codepage < 0 || (size_t)codepage >= sizeof(codepage_to_eindex) / sizeof(codepage_to_eindex[0]))
+    {
+        return -1;
+    }
     return codepage_to_eindex[codepage] - 1;
 }
 
-- 
2.43.0


From 5050131c951bc6818c3d2e6355fe4ee12aa918f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:07 +0000
Subject: [PATCH 04/20] fix: flushing a pending character into a full output
 buffer wrote past its end

The encoders may assume at least one byte of room; the conversion loop checks
that, the reset loop did not.
---
 lib/loop_unicode.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 3753ec1..6fa411a 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -178,7 +178,14 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
             {
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
-                int outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                int outcount;
+                if (outleft == 0)
+                {
+                    cd->istate = last_istate;
+                    errno = E2BIG;
+                    return -1;
+                }
+                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
-- 
2.43.0


From c29f93341902111dc4a64372b7ef12c07e64a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:39 +0000
Subject: [PATCH 05/20] fix: reiconv_result_size changed the input byte order
 and left stale state after errors

The size query of an input with a byte order mark in the middle switched the
order for the conversion that follows; after invalid input the shift state
stayed behind.
---
 lib/iconv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index bdeace7..6970299 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -238,6 +238,8 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     char tmpbuf[TEMP_BUFFER_SIZE];
     char *inptr = (char *)start;
     size_t insize = inlength;
+    // This is only a query: the byte order of the input must not change.
+    state_t last_ibyteorder = ((conv_t)cd)->ibyteorder;
     while (insize > 0)
     {
         char *outptr = tmpbuf;
@@ -249,6 +251,9 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
             {
                 errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            ((conv_t)cd)->ibyteorder = last_ibyteorder;
             return (size_t)(-1);
         }
         count += outptr - tmpbuf;
@@ -256,6 +261,7 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     char *outptr = tmpbuf;
     size_t outsize = TEMP_BUFFER_SIZE;
     size_t res = reiconv_iconv(cd, NULL, NULL, &outptr, &outsize);
+    ((conv_t)cd)->ibyteorder = last_ibyteorder;
     if (res == (size_t)(-1))
     {
         // Return to the initial state.
-- 
2.43.0


From 9f062634dd6047dc6a2a598dc4f7dfd8a785ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:39 +0000
Subject: [PATCH 06/20] fix: reiconv_convert_static_size dropped incomplete
 input silently and left stale state after errors

Incomplete trailing input is an error for reiconv_result_size and
reiconv_convert; the static size variant returned success without converting it.
---
 lib/iconv.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 6970299..640b6cc 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -286,16 +286,18 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
         {
             if (errno == EINVAL)
             {
-                break;
-            }
-            else
-            {
-                return -1;
+                // Incomplete input, same as in `reiconv_result_size`.
+                errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            return -1;
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
+        // Return to the initial state.
+        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
         return -1;
     }
     return 0;
-- 
2.43.0


From 1b805df35f4471911835c120bc50af3f0b4c9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:39 +0000
Subject: [PATCH 07/20] fix: reiconv_convert used the result of a failed
 allocation and leaked the old buffer

---
 lib/iconv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 640b6cc..8419732 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -323,8 +323,14 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         return -1;
     }
 
-    *output_data_ptr =
-        (*output_data_ptr == NULL ? (char *)malloc(output_length) : (char *)realloc(*output_data_ptr, output_length));
+    // Never request 0 bytes: the result of `realloc` would not be distinguishable from a failure.
+    char *output_data = (char *)realloc(*output_data_ptr, output_length > 0 ? output_length : 1);
+    if (output_data == NULL)
+    {
+        errno = ENOMEM;
+        return -1;
+    }
+    *output_data_ptr = output_data;
 
     if (reiconv_convert_static_size(cd, input_data, input_length, *output_data_ptr, output_length) == -1)
     {
-- 
2.43.0


From 36634ec5364530aff0c8525210436b7ec3e2a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:39 +0000
Subject: [PATCH 08/20] fix: reiconv::convert threw std::length_error on
 invalid input and leaked the descriptor

A failed size query was used as the length of the result string.
---
 lib/reiconv.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index f1bc597..25cb76a 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -26,6 +26,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <limits.h>
+#include <memory>
 #include <stdexcept>
 #include <system_error>
 
@@ -59,16 +60,21 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
     {
         throw std::system_error(errno, std::system_category(), "reiconv_open_from_index");
     }
+    // Close the descriptor on every path, including exceptions.
+    std::unique_ptr<void, int (*)(::reiconv_t)> guard(cd, ::reiconv_handle_close);
+
     std::size_t outlen = ::reiconv_result_size(cd, input.data(), input.size());
+    if (outlen == (std::size_t)(-1))
+    {
+        throw std::system_error(errno, std::system_category(), "reiconv_result_size");
+    }
 
     std::string res(outlen, '\0');
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
-        ::reiconv_handle_close(cd);
         throw std::system_error(errno, std::system_category(), "reiconv_convert");
     }
 
-    ::reiconv_handle_close(cd);
-    return std::move(res);
+    return res;
 }
-- 
2.43.0


From 89f9b42dc77bbb1c69ec2d47c43bd8ee7bccc07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 09/20] fix: HZ accepted bytes above 0x7F in ASCII mode and
 decoded them as Latin-1

---
 lib/converters/hz.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 583fdf7..10d9bb2 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -93,6 +93,8 @@ static int hz_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n)
     }
     if (state == 0)
     {
+        if (c >= 0x80)
+            goto ilseq;
         *pwc = (ucs4_t)c;
         conv->istate = state;
         return count + 1;
-- 
2.43.0


From 320c6c463089d13b5d217ac88ab4352a053e992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:48 +0000
Subject: [PATCH 10/20] fix: HZ wrote a tilde unescaped, so that it was read
 back as an escape sequence

---
 lib/converters/hz.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 10d9bb2..294c69f 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -136,7 +136,7 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
             abort();
         if (buf[0] < 0x80)
         {
-            int count = (state ? 3 : 1);
+            int count = (state ? 3 : 1) + (buf[0] == '~' ? 1 : 0);
             if (n < count)
                 return RET_TOOSMALL;
             if (state)
@@ -146,6 +146,9 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
                 r += 2;
                 state = 0;
             }
+            /* A tilde is the escape character, it is represented as "~~". */
+            if (buf[0] == '~')
+                *r++ = '~';
             r[0] = buf[0];
             conv->ostate = state;
             return count;
-- 
2.43.0


From 4d882f73360346b505eaaba0bf4e5bd324a826b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 11/20] fix: C99 and JAVA took the letters G-Z for hexadecimal
 digits

---
 lib/converters/c99.h  | 8 ++++----
 lib/converters/java.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 673d143..4bda537 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -61,9 +61,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -85,9 +85,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index b93172b..9f8d78e 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -57,9 +57,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -88,9 +88,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
-- 
2.43.0


From 004499c3a8b2f1b2d85e6f61c39bbe4a1eff7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 12/20] fix: UTF-7 accepted an unpaired low surrogate

---
 lib/converters/utf7.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 3335a58..32b5e66 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -178,6 +178,7 @@ active:
       if (!(wc2 >= 0xdc00 && wc2 < 0xe000)) goto ilseq;
       *pwc = 0x10000 + ((wc1 - 0xd800) << 10) + (wc2 - 0xdc00);
     } else {
+      if (wc >= 0xdc00 && wc < 0xe000) goto ilseq;
       *pwc = wc;
     }
     conv->istate = base64state;
-- 
2.43.0


From 6221fb99f01885e3a6659d1f3d1c3bb119b2d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:09 +0000
Subject: [PATCH 13/20] fix: UTF-16 and UTF-7 wrote to the output for
 characters they then refused

---
 lib/converters/utf16.h | 2 +-
 lib/converters/utf7.h  | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/converters/utf16.h b/lib/converters/utf16.h
index 63fbb93..632de0a 100644
--- a/lib/converters/utf16.h
+++ b/lib/converters/utf16.h
@@ -95,7 +95,7 @@ ilseq:
 /* The state is 0 at the beginning, 1 after the BOM has been written. */
 static int utf16_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
 {
-    if (wc != 0xfffe && !(wc >= 0xd800 && wc < 0xe000))
+    if (wc < 0x110000 && wc != 0xfffe && !(wc >= 0xd800 && wc < 0xe000))
     {
         int count = 0;
         if (!conv->ostate)
diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 32b5e66..8caf509 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -220,6 +220,8 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
+  if (wc >= 0x110000)
+    return RET_ILUNI;
   if (state & 3)
     goto active;
 
@@ -280,14 +282,13 @@ active:
       if (wc < 0x10000) {
         k = 2;
         count += ((state & 3) >= 2 ? 3 : 2);
-      } else if (wc < 0x110000) {
+      } else {
         unsigned int wc1 = 0xd800 + ((wc - 0x10000) >> 10);
         unsigned int wc2 = 0xdc00 + ((wc - 0x10000) & 0x3ff);
         wc = (wc1 << 16) | wc2;
         k = 4;
         count += ((state & 3) >= 3 ? 6 : 5);
-      } else
-        return RET_ILUNI;
+      }
       if (n < count)
         return RET_TOOSMALL;
       for (;;) {
-- 
2.43.0


From b8d7449eb02fcb7ce744da3c6f60c54602a7fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 14/20] fix: UTF-7, C99 and JAVA wrote unpaired surrogates that
 they do not accept themselves

---
 lib/converters/c99.h  | 2 ++
 lib/converters/java.h | 2 ++
 lib/converters/utf7.h | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 4bda537..c84b9b9 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -115,6 +115,8 @@ static int c99_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
         *r = wc;
         return 1;
     }
+    else if (wc >= 0xd800 && wc < 0xe000)
+        return RET_ILUNI;
     else
     {
         int result;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index 9f8d78e..9c41f1d 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -112,6 +112,8 @@ static int java_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
         *r = wc;
         return 1;
     }
+    else if (wc >= 0xd800 && wc < 0xe000)
+        return RET_ILUNI;
     else if (wc < 0x10000)
     {
         if (n >= 6)
diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 8caf509..376030e 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -220,7 +220,7 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
-  if (wc >= 0x110000)
+  if (wc >= 0x110000 || (wc >= 0xd800 && wc < 0xe000))
     return RET_ILUNI;
   if (state & 3)
     goto active;
-- 
2.43.0


From 01e95024437d61758d9f40ba28befea2f5d43628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 15/20] fix: GB18030:2005 wrote four bytes into two bytes of
 room for U+E816 and five others

---
 lib/converters/gb18030_2005.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/gb18030_2005.h b/lib/converters/gb18030_2005.h
index 649b3ea..803ec8b 100644
--- a/lib/converters/gb18030_2005.h
+++ b/lib/converters/gb18030_2005.h
@@ -399,6 +399,8 @@ static int gb18030_2005_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t
                         }
                         else
                         {
+                            if (n < 4)
+                                return RET_TOOSMALL;
                             r[0] = (c >> 24);
                             r[1] = (c >> 16) & 0xff;
                             r[2] = (c >> 8) & 0xff;
-- 
2.43.0


From 209393ff15d9da43e36d1a83469217b30037a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:11 +0000
Subject: [PATCH 16/20] fix: one-shot conversions failed with E2BIG when the
 last characters need no output

---
 lib/iconv.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 8419732..5655a43 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -272,6 +272,33 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     return count + outptr - tmpbuf;
 }
 
+/* A (nearly) full output buffer is reported as E2BIG even if the rest of the input needs no output at all, for example
+   because it is discarded. So convert the rest into a buffer that is large enough, and see if it really does not fit. */
+static size_t convert_into_rest(reiconv_t cd, char **inbuf, size_t *inbytesleft, char **outbuf, size_t *outbytesleft)
+{
+    char tmpbuf[TEMP_BUFFER_SIZE];
+    char *outptr = tmpbuf;
+    size_t outsize = TEMP_BUFFER_SIZE;
+    size_t res = reiconv_iconv(cd, inbuf, inbytesleft, &outptr, &outsize);
+    size_t count = outptr - tmpbuf;
+    if (count > *outbytesleft)
+    {
+        errno = E2BIG;
+        return (size_t)(-1);
+    }
+    if (res == (size_t)(-1) && errno != E2BIG)
+    {
+        return res;
+    }
+    if (count > 0)
+    {
+        memcpy(*outbuf, tmpbuf, count);
+        *outbuf += count;
+        *outbytesleft -= count;
+    }
+    return 0;
+}
+
 _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data, size_t input_length, char *output_data,
                                           size_t output_length)
 {
@@ -282,6 +309,10 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
     while (insize > 0)
     {
         size_t res = reiconv_iconv(cd, &inptr, &insize, &outptr, &outsize);
+        if (res == (size_t)(-1) && errno == E2BIG)
+        {
+            res = convert_into_rest(cd, &inptr, &insize, &outptr, &outsize);
+        }
         if (res == (size_t)(-1))
         {
             if (errno == EINVAL)
@@ -294,7 +325,12 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
             return -1;
         }
     }
-    if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
+    size_t res = reiconv_iconv(cd, NULL, NULL, &outptr, &outsize);
+    if (res == (size_t)(-1) && errno == E2BIG)
+    {
+        res = convert_into_rest(cd, NULL, NULL, &outptr, &outsize);
+    }
+    if (res == (size_t)(-1))
     {
         // Return to the initial state.
         reiconv_iconv(cd, NULL, NULL, NULL, NULL);
-- 
2.43.0


From 2ad339c7be9e6f276dc8ba193e7b52af679c2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 17/20] fix: locale_charset returned an empty name for a locale
 ending in a dot

---
 lib/locale_charset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/locale_charset.c b/lib/locale_charset.c
index 4698faf..cba401c 100644
--- a/lib/locale_charset.c
+++ b/lib/locale_charset.c
@@ -117,9 +117,9 @@ _CPPP_API const char *locale_charset()
 #endif // locale_table_defined
     // Cannot find the locale in the table, try to split it.
     const char *p = strchr(locale, '.');
-    if (p == NULL)
+    if (p == NULL || p[1] == '\0')
     {
-        // No dot.
+        // No dot, or nothing after it.
         return REICONV_DEFAULT_CHARSET;
     }
 
-- 
2.43.0


From 6942a2161933a0be168dbb91b45121f183109556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 18/20] fix: locale_charset on Windows named another encoding
 than the active code page (932, 949, 950, 1258)

---
 lib/localecharset/windows_getcp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/localecharset/windows_getcp.h b/lib/localecharset/windows_getcp.h
index 60c2768..dab63ce 100644
--- a/lib/localecharset/windows_getcp.h
+++ b/lib/localecharset/windows_getcp.h
@@ -61,7 +61,7 @@ static const char *windows_getcp()
         // cppp-reiconv's GB2312, GBK, CP936 is different.
         return "CP936";
     case 950:
-        return "BIG5";
+        return "CP950";
     case 10002: // We don't support it yet.
         return "X-MAC-CHINESETRAD";
     case 10008: // We don't support it yet.
@@ -86,7 +86,7 @@ static const char *windows_getcp()
     case 54936:
         return "GB18030";
     case 932:
-        return "SHIFT_JIS";
+        return "CP932";
     case 10001: // We don't support it yet.
         return "X-MAC-JAPANESE";
     case 20290: // We don't support it yet.
@@ -106,7 +106,7 @@ static const char *windows_getcp()
     case 51932:
         return "EUC-JP";
     case 949:
-        return "KS_C_5601-1987";
+        return "CP949";
     case 1361:
         return "JOHAB";
     case 10003: // We don't support it yet.
@@ -210,7 +210,7 @@ static const char *windows_getcp()
     case 1257:
         return "WINDOWS-1257";
     case 1258:
-        return "VISCII";
+        return "WINDOWS-1258";
     case 10000:
         return "MACINTOSH";
     case 10004:
-- 
2.43.0


From e19d4c03d41082879d7a20e0ff8857ec53843238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:13 +0000
Subject: [PATCH 19/20] fix: a run of shift sequences longer than 1 GiB
 overflowed the byte count and aborted

---
 lib/loop_unicode.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 6fa411a..6a913ef 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -34,6 +34,10 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* The converters count the bytes they read in an int, so never show them more than this many bytes at once.
+   No character, only a run of shift sequences, can be that long. */
+#define MAX_INPUT_AT_ONCE ((size_t)1 << 28)
+
 static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *inbytesleft, char **outbuf,
                                    size_t *outbytesleft)
 {
@@ -49,7 +53,8 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
         ucs4_t wc;
         int incount;
         int outcount;
-        incount = cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft);
+        incount =
+            cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft < MAX_INPUT_AT_ONCE ? inleft : MAX_INPUT_AT_ONCE);
         if (incount < 0)
         {
             if ((unsigned int)(-1 - incount) % 2 == (unsigned int)(-1 - RET_ILSEQ) % 2)
-- 
2.43.0


From c646375b9961a8e14b3256ea6fbb1b3bd186669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:06 +0000
Subject: [PATCH 20/20] fix: genindexes reported success when its output could
 not be written

---
 tools/genindexes.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/genindexes.cpp b/tools/genindexes.cpp
index 105fc67..99f3792 100644
--- a/tools/genindexes.cpp
+++ b/tools/genindexes.cpp
@@ -21,6 +21,7 @@
  * If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <cstdio>
 #include <cstdlib>
 #include <string>
 #include <unordered_map>
@@ -109,5 +110,11 @@ int main(int argc, char* argv[])
         return EXIT_FAILURE;
     }
 
+    if (std::ferror(stdout))
+    {
+        std::perror("stdout");
+        return EXIT_FAILURE;
+    }
+
     return EXIT_SUCCESS;
 }
-- 
2.43.0

