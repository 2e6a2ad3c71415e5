From 93830eca01ec9c43ad9046b722b8a24aeeee7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 01/17] fix: GB18030:2005 encoder must not write 4 bytes into a
 shorter buffer

---
 lib/converters/gb18030_2005.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/gb18030_2005.h b/lib/converters/gb18030_2005.h
index 649b3ea..803ec8b 100644
--- a/lib/converters/gb18030_2005.h
+++ b/lib/converters/gb18030_2005.h
@@ -399,6 +399,8 @@ static int gb18030_2005_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t
                         }
                         else
                         {
+                            if (n < 4)
+                                return RET_TOOSMALL;
                             r[0] = (c >> 24);
                             r[1] = (c >> 16) & 0xff;
                             r[2] = (c >> 8) & 0xff;
-- 
2.43.0


From 96f757375aad86049a97f9215dde57f0eb5ea11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 02/17] fix: flushing a pending character into a full output
 buffer reports E2BIG

---
 lib/loop_unicode.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 3753ec1..6fa411a 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -178,7 +178,14 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
             {
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
-                int outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                int outcount;
+                if (outleft == 0)
+                {
+                    cd->istate = last_istate;
+                    errno = E2BIG;
+                    return -1;
+                }
+                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
-- 
2.43.0


From 1660bad6f4c474962a6d31475e492361e886946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 03/17] fix: HZ encoder escapes '~' as "~~"

---
 lib/converters/hz.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 583fdf7..045ad41 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -134,7 +134,7 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
             abort();
         if (buf[0] < 0x80)
         {
-            int count = (state ? 3 : 1);
+            int count = (state ? 3 : 1) + (buf[0] == '~' ? 1 : 0);
             if (n < count)
                 return RET_TOOSMALL;
             if (state)
@@ -144,6 +144,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
                 r += 2;
                 state = 0;
             }
+            if (buf[0] == '~')
+                *r++ = '~';
             r[0] = buf[0];
             conv->ostate = state;
             return count;
-- 
2.43.0


From b165cdfbdaa88628e4d4677a836800f4700675d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 04/17] fix: HZ decoder rejects 8-bit bytes in ASCII mode

---
 lib/converters/hz.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 045ad41..c218034 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -93,6 +93,8 @@ static int hz_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n)
     }
     if (state == 0)
     {
+        if (c >= 0x80)
+            goto ilseq;
         *pwc = (ucs4_t)c;
         conv->istate = state;
         return count + 1;
-- 
2.43.0


From 35009ce8c98b06b0084ad391911a212d7179ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 05/17] fix: C99 and JAVA decoders accept only hexadecimal
 digits in escapes

---
 lib/converters/c99.h  | 8 ++++----
 lib/converters/java.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 673d143..4bda537 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -61,9 +61,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -85,9 +85,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index b93172b..9f8d78e 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -57,9 +57,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -88,9 +88,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
-- 
2.43.0


From ce4f28bf299bbdf66ca48bbd9083410c633dffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 06/17] fix: looking up a codepage outside the table returns -1

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index d2cd52e..e75db32 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -83,6 +83,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 
 _CPPP_API int reiconv_lookup_from_codepage(int codepage)
 {
+    if (codepage < 0 || (size_t)codepage >= sizeof(codepage_to_eindex) / sizeof(codepage_to_eindex[0]))
+    {
+        return -1;
+    }
     return codepage_to_eindex[codepage] - 1;
 }
 
-- 
2.43.0


From 2fa8918580733d7aca38fc7d1fe762b5f7bb4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 07/17] fix: unknown encoding names that are long or not ASCII
 are looked up safely

---
 lib/iconv.c | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index e75db32..5698ef5 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -72,10 +72,35 @@ _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
     return bp - outbuf;
 }
 
+/* Room for the longest name with the suffixes that `reiconv_open` understands. */
+#define NAME_BUFFER_SIZE (MAX_WORD_LENGTH + sizeof("//TRANSLIT//IGNORE"))
+
+/* Canonicalize a name into a buffer of NAME_BUFFER_SIZE bytes. (size_t)(-1) if it cannot be an encoding name. */
+static size_t canonicalize_bounded(const char *name, char *outbuf)
+{
+    size_t len = 0;
+    for (const char *cp = name; *cp; cp++)
+    {
+        if ((unsigned char)*cp >= 0x80) // No encoding name has a non-ASCII character.
+        {
+            return (size_t)(-1);
+        }
+        if (*cp != '-' && *cp != '_' && ++len >= NAME_BUFFER_SIZE)
+        {
+            return (size_t)(-1);
+        }
+    }
+    return reiconv_name_canonicalize(name, outbuf);
+}
+
 _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 {
-    char buf[MAX_WORD_LENGTH + 2];
-    size_t buf_len = reiconv_name_canonicalize(encoding, buf);
+    char buf[NAME_BUFFER_SIZE];
+    size_t buf_len = canonicalize_bounded(encoding, buf);
+    if (buf_len == (size_t)(-1))
+    {
+        return -1;
+    }
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
     return ap ? ap->encoding_index : -1;
@@ -148,11 +173,16 @@ _CPPP_API reiconv_t reiconv_open_from_name(const char *fromcode, const char *toc
 
 _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 {
-    char fromcode_buf[MAX_WORD_LENGTH + 2];
-    char tocode_buf[MAX_WORD_LENGTH + 2];
+    char fromcode_buf[NAME_BUFFER_SIZE];
+    char tocode_buf[NAME_BUFFER_SIZE];
 
-    size_t fromcode_len = reiconv_name_canonicalize(fromcode, fromcode_buf);
-    size_t tocode_len = reiconv_name_canonicalize(tocode, tocode_buf);
+    size_t fromcode_len = canonicalize_bounded(fromcode, fromcode_buf);
+    size_t tocode_len = canonicalize_bounded(tocode, tocode_buf);
+    if (fromcode_len == (size_t)(-1) || tocode_len == (size_t)(-1))
+    {
+        errno = EINVAL;
+        return (reiconv_t)(-1);
+    }
 
     enum ConvertFlag flag = REICONV_NO_FLAGS;
 
-- 
2.43.0


From e2cdcd43305ff793f7147d67678c37d23f668bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:06 +0000
Subject: [PATCH 08/17] fix: a failed conversion of a whole string leaves the
 descriptor in its initial state

---
 lib/iconv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 5698ef5..af699f0 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -253,6 +253,8 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
             {
                 errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
             return (size_t)(-1);
         }
         count += outptr - tmpbuf;
@@ -288,12 +290,16 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
             }
             else
             {
+                // Return to the initial state.
+                reiconv_iconv(cd, NULL, NULL, NULL, NULL);
                 return -1;
             }
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
+        // Return to the initial state.
+        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
         return -1;
     }
     return 0;
-- 
2.43.0


From 2426bd106a983028f8b572d25c79b10c69fb8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:06 +0000
Subject: [PATCH 09/17] fix: reiconv_convert_static_size reports a truncated
 last character, like reiconv_result_size

---
 lib/iconv.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index af699f0..cbdf3f5 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -286,14 +286,11 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
         {
             if (errno == EINVAL)
             {
-                break;
-            }
-            else
-            {
-                // Return to the initial state.
-                reiconv_iconv(cd, NULL, NULL, NULL, NULL);
-                return -1;
+                errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            return -1;
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
-- 
2.43.0


From d4447aef03ac5fb77e8138a0ce65c332ca346a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:06 +0000
Subject: [PATCH 10/17] fix: reiconv_convert reports ENOMEM and keeps the
 caller's buffer when allocation fails

---
 lib/iconv.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index cbdf3f5..7f45610 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -322,8 +322,16 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         return -1;
     }
 
-    *output_data_ptr =
-        (*output_data_ptr == NULL ? (char *)malloc(output_length) : (char *)realloc(*output_data_ptr, output_length));
+    // Never ask for 0 bytes: the result must be a valid pointer, NULL means out of memory.
+    size_t alloc_length = output_length > 0 ? output_length : 1;
+    char *output_data =
+        (*output_data_ptr == NULL ? (char *)malloc(alloc_length) : (char *)realloc(*output_data_ptr, alloc_length));
+    if (output_data == NULL)
+    {
+        errno = ENOMEM;
+        return -1;
+    }
+    *output_data_ptr = output_data;
 
     if (reiconv_convert_static_size(cd, input_data, input_length, *output_data_ptr, output_length) == -1)
     {
-- 
2.43.0


From 126fd6b104d379a97657fad8c3445b6db8438219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:06 +0000
Subject: [PATCH 11/17] fix: reiconv_convert rejects a NULL output length
 pointer, as documented

---
 lib/iconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 7f45610..a2f61dc 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -316,7 +316,7 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         *output_length_ptr = output_length;
     }
 
-    if (output_data_ptr == NULL)
+    if (output_data_ptr == NULL || output_length_ptr == NULL)
     {
         errno = EINVAL;
         return -1;
-- 
2.43.0


From 119dc65e04254470b2faee89b0946b1b7189adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:06 +0000
Subject: [PATCH 12/17] fix: reiconv::convert throws std::system_error and
 closes its descriptor for input that cannot be converted

---
 lib/reiconv.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index f1bc597..e0e92a9 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -60,6 +60,11 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
         throw std::system_error(errno, std::system_category(), "reiconv_open_from_index");
     }
     std::size_t outlen = ::reiconv_result_size(cd, input.data(), input.size());
+    if (outlen == (std::size_t)(-1))
+    {
+        ::reiconv_handle_close(cd);
+        throw std::system_error(errno, std::system_category(), "reiconv_result_size");
+    }
 
     std::string res(outlen, '\0');
     char *result = const_cast<char *>(res.data());
-- 
2.43.0


From 981fe54944f9581c0a35bf2379999965dd5dd232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:22 +0000
Subject: [PATCH 13/17] fix: UTF-7 decoder rejects an unpaired low surrogate

---
 lib/converters/utf7.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 3335a58..4ebddd7 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -178,6 +178,7 @@ active:
       if (!(wc2 >= 0xdc00 && wc2 < 0xe000)) goto ilseq;
       *pwc = 0x10000 + ((wc1 - 0xd800) << 10) + (wc2 - 0xdc00);
     } else {
+      if (wc >= 0xdc00 && wc < 0xe000) goto ilseq; /* unpaired low surrogate */
       *pwc = wc;
     }
     conv->istate = base64state;
-- 
2.43.0


From 1f1fcca3d14fa3c341f8f941b1adf0e9cb4575f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 14/17] fix: every registered encoding name can be looked up

encodings.h.snippet lacked two commas (IBM921/CP28603, CSISO885915/CP28605),
registered KSC56011987 twice, and generated/aliases.h had not been regenerated
since the Windows names were added. Regenerate the table.
---
 lib/encodings.h.snippet |    5 +-
 lib/generated/aliases.h | 6954 ++++++++++++++++++++-------------------
 2 files changed, 3597 insertions(+), 3362 deletions(-)

diff --git a/lib/encodings.h.snippet b/lib/encodings.h.snippet
index 43e02df..c5091ca 100644
--- a/lib/encodings.h.snippet
+++ b/lib/encodings.h.snippet
@@ -362,7 +362,6 @@ DEFCODEPAGE(51949, euc_kr)
 DEFENCODING(("UHC",         /* glibc */
              "CP949",       /* Windows */
              "949",         /* Windows */
-             "KSC56011987", /* Windows */
              ),
             cp949, UHC, {cp949_mbtowc, NULL}, {cp949_wctomb, NULL})
 DEFCODEPAGE(949, cp949)
@@ -527,7 +526,7 @@ DEFENCODING(("ISO885913", /* IANA, glibc, FreeBSD */
              "ISOIR179",  /* glibc */
              "LATIN7",    /* glibc */
              "L7",        /* glibc */
-             "IBM921"     /* AIX */
+             "IBM921",    /* AIX */
              "CP28603",   /* Windows */
              "28603",     /* Windows */
              ),
@@ -548,7 +547,7 @@ DEFENCODING(("ISO885915",      /* IANA, glibc, FreeBSD, AIX, OSF/1, Solaris */
              "ISOIR203",       /* libiconv */
              "LATIN9",         /* IANA */
              "L9",             /* cppp-reiconv */
-             "CSISO885915"     /* IANA */
+             "CSISO885915",    /* IANA */
              "CP28605",        /* Windows */
              "28605",          /* Windows */
              ),
diff --git a/lib/generated/aliases.h b/lib/generated/aliases.h
index 135f27e..96522f0 100644
--- a/lib/generated/aliases.h
+++ b/lib/generated/aliases.h
@@ -32,12 +32,12 @@
 #line 2 "lib/generated/aliases.gperf"
 struct alias { int name; unsigned int encoding_index; };
 
-#define TOTAL_KEYWORDS 840
+#define TOTAL_KEYWORDS 851
 #define MIN_WORD_LENGTH 2
 #define MAX_WORD_LENGTH 39
 #define MIN_HASH_VALUE 4
-#define MAX_HASH_VALUE 4067
-/* maximum key range = 4064, duplicates = 0 */
+#define MAX_HASH_VALUE 5533
+/* maximum key range = 5530, duplicates = 0 */
 
 #ifdef __GNUC__
 __inline
@@ -51,20 +51,20 @@ aliases_hash (register const char *str, register size_t len)
 {
   static const unsigned short asso_values[] =
     {
-      4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068, 4068, 4068, 4068,    1,   44, 4068,    3,    0,
-        34,  260,   15,    6,   98,  544,   64,  341,  644,  844,
-       849,  805, 4068, 4068, 4068,  530,  441,    0,  748,  328,
-       469,    5,  177,    0,  589,  510,    3,    1,   11,  386,
-        25,  112,  151,    0,  424,    2,  182,  536,  220,   14,
-         2,    8,    0,    0, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068, 4068,
-      4068, 4068
+      5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534, 5534, 5534, 5534,   96,  291, 5534,    3,    0,
+        34,  658,   15,    6,   98,  900,  421,  858,  162,  705,
+      1009,  765, 5534, 5534, 5534,  551,    4,    0,  748,  515,
+       982,  737, 1049,    0,  434,  839,  637,    1,  611,  174,
+       303,  472,  151,  650,  251,    2,  616,  449,  561,  822,
+       162,   52, 1065,  596, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534, 5534,
+      5534, 5534
     };
   register unsigned int hval = len;
 
@@ -107,8 +107,6 @@ aliases_hash (register const char *str, register size_t len)
 struct stringpool_t
   {
     char stringpool_str4[sizeof("MAC")];
-    char stringpool_str6[sizeof("US")];
-    char stringpool_str7[sizeof("SJIS")];
     char stringpool_str22[sizeof("1201")];
     char stringpool_str25[sizeof("1251")];
     char stringpool_str26[sizeof("12001")];
@@ -116,842 +114,853 @@ struct stringpool_t
     char stringpool_str31[sizeof("1250")];
     char stringpool_str32[sizeof("12000")];
     char stringpool_str37[sizeof("1255")];
-    char stringpool_str38[sizeof("CN")];
     char stringpool_str45[sizeof("425")];
+    char stringpool_str47[sizeof("CSIBM01141")];
     char stringpool_str48[sizeof("10010")];
     char stringpool_str49[sizeof("500")];
     char stringpool_str51[sizeof("10000")];
-    char stringpool_str54[sizeof("L2")];
+    char stringpool_str53[sizeof("CSIBM01140")];
     char stringpool_str55[sizeof("1254")];
     char stringpool_str57[sizeof("10005")];
+    char stringpool_str59[sizeof("CSIBM01145")];
     char stringpool_str63[sizeof("424")];
+    char stringpool_str68[sizeof("CSIBM1125")];
     char stringpool_str75[sizeof("10004")];
     char stringpool_str76[sizeof("10021")];
-    char stringpool_str77[sizeof("5601")];
     char stringpool_str79[sizeof("U32")];
     char stringpool_str84[sizeof("1025")];
-    char stringpool_str89[sizeof("CSUCS4")];
     char stringpool_str93[sizeof("1252")];
-    char stringpool_str106[sizeof("10081")];
     char stringpool_str108[sizeof("1361")];
     char stringpool_str113[sizeof("50221")];
-    char stringpool_str118[sizeof("L4")];
+    char stringpool_str115[sizeof("CSIBM01142")];
+    char stringpool_str119[sizeof("50220")];
+    char stringpool_str120[sizeof("CSIBM1161")];
     char stringpool_str125[sizeof("50225")];
-    char stringpool_str131[sizeof("861")];
-    char stringpool_str137[sizeof("860")];
-    char stringpool_str143[sizeof("865")];
-    char stringpool_str153[sizeof("1258")];
-    char stringpool_str155[sizeof("CPIS")];
-    char stringpool_str161[sizeof("864")];
-    char stringpool_str166[sizeof("16804")];
-    char stringpool_str167[sizeof("L6")];
     char stringpool_str171[sizeof("CP500")];
     char stringpool_str172[sizeof("CP1051")];
-    char stringpool_str174[sizeof("10082")];
     char stringpool_str176[sizeof("CP10010")];
     char stringpool_str178[sizeof("CP1141")];
-    char stringpool_str181[sizeof("HZ")];
+    char stringpool_str181[sizeof("50222")];
     char stringpool_str185[sizeof("CP10000")];
+    char stringpool_str188[sizeof("CSIBM1162")];
     char stringpool_str190[sizeof("CP1140")];
     char stringpool_str191[sizeof("CP10005")];
     char stringpool_str192[sizeof("CP154")];
-    char stringpool_str195[sizeof("CYRILLIC")];
-    char stringpool_str197[sizeof("CSVISCII")];
-    char stringpool_str199[sizeof("862")];
     char stringpool_str200[sizeof("CP1201")];
-    char stringpool_str201[sizeof("838")];
-    char stringpool_str202[sizeof("MSCYRL")];
     char stringpool_str203[sizeof("CP1251")];
+    char stringpool_str205[sizeof("280")];
     char stringpool_str209[sizeof("CP10004")];
     char stringpool_str210[sizeof("CP12001")];
+    char stringpool_str211[sizeof("285")];
     char stringpool_str212[sizeof("CP1200")];
-    char stringpool_str214[sizeof("MACCYRILLIC")];
     char stringpool_str215[sizeof("CP1250")];
     char stringpool_str216[sizeof("CP12000")];
     char stringpool_str217[sizeof("CP425")];
     char stringpool_str221[sizeof("1256")];
-    char stringpool_str225[sizeof("CP01141")];
-    char stringpool_str231[sizeof("CP01140")];
-    char stringpool_str232[sizeof("CP850")];
+    char stringpool_str229[sizeof("284")];
     char stringpool_str235[sizeof("CP424")];
-    char stringpool_str237[sizeof("CP01145")];
-    char stringpool_str238[sizeof("CP855")];
     char stringpool_str241[sizeof("10006")];
-    char stringpool_str242[sizeof("CP1154")];
-    char stringpool_str248[sizeof("PT154")];
     char stringpool_str249[sizeof("1046")];
-    char stringpool_str251[sizeof("CP1144")];
-    char stringpool_str255[sizeof("CP01144")];
-    char stringpool_str260[sizeof("CP280")];
+    char stringpool_str255[sizeof("CSIBM1026")];
     char stringpool_str261[sizeof("CP1161")];
     char stringpool_str262[sizeof("CP10021")];
-    char stringpool_str265[sizeof("L1")];
-    char stringpool_str266[sizeof("CP285")];
+    char stringpool_str267[sizeof("282")];
     char stringpool_str268[sizeof("1026")];
-    char stringpool_str270[sizeof("CP1124")];
-    char stringpool_str271[sizeof("L3")];
-    char stringpool_str272[sizeof("L10")];
     char stringpool_str273[sizeof("CP1160")];
-    char stringpool_str276[sizeof("CP1254")];
-    char stringpool_str279[sizeof("1141")];
     char stringpool_str280[sizeof("CP65001")];
-    char stringpool_str282[sizeof("1155")];
-    char stringpool_str284[sizeof("CP284")];
-    char stringpool_str285[sizeof("1140")];
     char stringpool_str286[sizeof("CP65000")];
     char stringpool_str289[sizeof("CP1112")];
-    char stringpool_str290[sizeof("CP880")];
-    char stringpool_str291[sizeof("1145")];
-    char stringpool_str293[sizeof("CP01142")];
-    char stringpool_str294[sizeof("CP852")];
-    char stringpool_str296[sizeof("X0201")];
     char stringpool_str299[sizeof("CP50221")];
-    char stringpool_str300[sizeof("1154")];
     char stringpool_str304[sizeof("CP1142")];
-    char stringpool_str309[sizeof("1144")];
-    char stringpool_str310[sizeof("1125")];
+    char stringpool_str305[sizeof("CP50220")];
     char stringpool_str311[sizeof("CP50225")];
-    char stringpool_str318[sizeof("CP861")];
-    char stringpool_str322[sizeof("CP282")];
+    char stringpool_str314[sizeof("28605")];
     char stringpool_str323[sizeof("CP1122")];
-    char stringpool_str324[sizeof("CP860")];
-    char stringpool_str327[sizeof("866")];
-    char stringpool_str328[sizeof("1124")];
     char stringpool_str329[sizeof("CP1252")];
-    char stringpool_str330[sizeof("CP865")];
-    char stringpool_str332[sizeof("1112")];
-    char stringpool_str334[sizeof("CP1164")];
-    char stringpool_str347[sizeof("1142")];
-    char stringpool_str348[sizeof("CP864")];
-    char stringpool_str353[sizeof("CP01148")];
-    char stringpool_str354[sizeof("CP858")];
-    char stringpool_str361[sizeof("X0212")];
-    char stringpool_str362[sizeof("1161")];
-    char stringpool_str364[sizeof("UCS4")];
-    char stringpool_str365[sizeof("CP16804")];
-    char stringpool_str366[sizeof("1122")];
-    char stringpool_str368[sizeof("1160")];
-    char stringpool_str374[sizeof("1165")];
+    char stringpool_str344[sizeof("ISOIR101")];
+    char stringpool_str347[sizeof("ISOIR110")];
+    char stringpool_str350[sizeof("ISOIR100")];
+    char stringpool_str367[sizeof("CP50222")];
+    char stringpool_str370[sizeof("ISOIR14")];
     char stringpool_str375[sizeof("CP10006")];
-    char stringpool_str386[sizeof("CP862")];
+    char stringpool_str386[sizeof("ISOIR144")];
     char stringpool_str387[sizeof("CP1162")];
-    char stringpool_str389[sizeof("924")];
-    char stringpool_str392[sizeof("1164")];
     char stringpool_str395[sizeof("646")];
-    char stringpool_str398[sizeof("1158")];
-    char stringpool_str402[sizeof("UCS2")];
-    char stringpool_str407[sizeof("1148")];
-    char stringpool_str408[sizeof("871")];
-    char stringpool_str414[sizeof("870")];
-    char stringpool_str418[sizeof("932")];
-    char stringpool_str420[sizeof("875")];
-    char stringpool_str421[sizeof("CP01146")];
-    char stringpool_str422[sizeof("CP856")];
-    char stringpool_str423[sizeof("CP1131")];
-    char stringpool_str424[sizeof("X0208")];
-    char stringpool_str427[sizeof("922")];
-    char stringpool_str430[sizeof("1162")];
-    char stringpool_str431[sizeof("20866")];
-    char stringpool_str433[sizeof("CP866U")];
-    char stringpool_str435[sizeof("CP1130")];
-    char stringpool_str438[sizeof("874")];
-    char stringpool_str450[sizeof("LATIN1")];
-    char stringpool_str457[sizeof("LATIN10")];
-    char stringpool_str461[sizeof("U16")];
-    char stringpool_str462[sizeof("CPGR")];
-    char stringpool_str463[sizeof("CSPC850MULTILINGUAL")];
-    char stringpool_str464[sizeof("CP-GR")];
-    char stringpool_str466[sizeof("1156")];
-    char stringpool_str475[sizeof("1146")];
-    char stringpool_str484[sizeof("CSIBM01141")];
-    char stringpool_str490[sizeof("CSIBM01140")];
-    char stringpool_str496[sizeof("CSIBM01145")];
-    char stringpool_str502[sizeof("HP15CN")];
-    char stringpool_str505[sizeof("CSIBM1125")];
-    char stringpool_str506[sizeof("278")];
-    char stringpool_str509[sizeof("CP950")];
-    char stringpool_str510[sizeof("CP1155")];
-    char stringpool_str514[sizeof("CP866")];
-    char stringpool_str519[sizeof("CP1145")];
-    char stringpool_str521[sizeof("CP1361")];
-    char stringpool_str523[sizeof("LATIN4")];
-    char stringpool_str524[sizeof("1131")];
-    char stringpool_str530[sizeof("1130")];
-    char stringpool_str537[sizeof("ASCII")];
-    char stringpool_str538[sizeof("CP1125")];
-    char stringpool_str540[sizeof("CSASCII")];
-    char stringpool_str541[sizeof("CP1025")];
-    char stringpool_str542[sizeof("USASCII")];
-    char stringpool_str544[sizeof("CP1255")];
-    char stringpool_str545[sizeof("1253")];
-    char stringpool_str546[sizeof("936")];
-    char stringpool_str549[sizeof("CP1132")];
-    char stringpool_str551[sizeof("MSANSI")];
-    char stringpool_str552[sizeof("CSIBM01142")];
-    char stringpool_str553[sizeof("423")];
-    char stringpool_str555[sizeof("L5")];
-    char stringpool_str556[sizeof("ISOIR101")];
-    char stringpool_str557[sizeof("CSIBM1161")];
-    char stringpool_str558[sizeof("1166")];
-    char stringpool_str559[sizeof("ISOIR110")];
-    char stringpool_str561[sizeof("CP924")];
-    char stringpool_str562[sizeof("ISOIR100")];
-    char stringpool_str576[sizeof("LATIN2")];
-    char stringpool_str577[sizeof("154")];
-    char stringpool_str579[sizeof("CSISO2022CN")];
-    char stringpool_str580[sizeof("CSIBM424")];
-    char stringpool_str582[sizeof("ISOIR14")];
-    char stringpool_str588[sizeof("ISO2022CN")];
-    char stringpool_str592[sizeof("1132")];
-    char stringpool_str594[sizeof("UHC")];
-    char stringpool_str598[sizeof("ISOIR144")];
-    char stringpool_str599[sizeof("CP922")];
-    char stringpool_str602[sizeof("CP1165")];
-    char stringpool_str608[sizeof("CP838")];
-    char stringpool_str610[sizeof("PTCP154")];
-    char stringpool_str612[sizeof("CSIBM01148")];
-    char stringpool_str617[sizeof("850")];
-    char stringpool_str620[sizeof("CSIBM280")];
-    char stringpool_str623[sizeof("855")];
-    char stringpool_str624[sizeof("51950")];
-    char stringpool_str625[sizeof("CSIBM1162")];
-    char stringpool_str626[sizeof("CSIBM285")];
-    char stringpool_str632[sizeof("12712")];
-    char stringpool_str633[sizeof("CP00924")];
-    char stringpool_str638[sizeof("KSC5601")];
-    char stringpool_str644[sizeof("CSIBM284")];
-    char stringpool_str646[sizeof("MS874")];
-    char stringpool_str651[sizeof("863")];
-    char stringpool_str653[sizeof("65001")];
-    char stringpool_str657[sizeof("21866")];
-    char stringpool_str659[sizeof("65000")];
-    char stringpool_str663[sizeof("ISOIR165")];
-    char stringpool_str667[sizeof("ANSI1251")];
-    char stringpool_str679[sizeof("852")];
-    char stringpool_str680[sizeof("CSKZ1048")];
-    char stringpool_str682[sizeof("UCS4LE")];
-    char stringpool_str687[sizeof("280")];
-    char stringpool_str692[sizeof("CSIBM1026")];
-    char stringpool_str693[sizeof("285")];
-    char stringpool_str694[sizeof("RUSCII")];
-    char stringpool_str695[sizeof("KOI8U")];
-    char stringpool_str696[sizeof("ISOIR148")];
-    char stringpool_str697[sizeof("CP00858")];
-    char stringpool_str699[sizeof("VISCII")];
-    char stringpool_str701[sizeof("UCS2LE")];
-    char stringpool_str706[sizeof("U32LE")];
-    char stringpool_str711[sizeof("284")];
-    char stringpool_str712[sizeof("U8")];
-    char stringpool_str713[sizeof("L8")];
-    char stringpool_str717[sizeof("880")];
-    char stringpool_str725[sizeof("CP423")];
-    char stringpool_str739[sizeof("858")];
-    char stringpool_str741[sizeof("CYRILLICASIAN")];
-    char stringpool_str742[sizeof("CYRIILLICASIAN")];
-    char stringpool_str745[sizeof("CP01143")];
-    char stringpool_str746[sizeof("CP853")];
-    char stringpool_str747[sizeof("VISCII1.11")];
-    char stringpool_str749[sizeof("282")];
-    char stringpool_str758[sizeof("10029")];
-    char stringpool_str764[sizeof("CP871")];
-    char stringpool_str767[sizeof("JP")];
-    char stringpool_str770[sizeof("CP870")];
-    char stringpool_str776[sizeof("CP875")];
+    char stringpool_str423[sizeof("CP1156")];
+    char stringpool_str432[sizeof("CP1146")];
+    char stringpool_str434[sizeof("5601")];
+    char stringpool_str435[sizeof("CP1046")];
+    char stringpool_str439[sizeof("UHC")];
+    char stringpool_str451[sizeof("ISOIR165")];
+    char stringpool_str454[sizeof("CP1026")];
+    char stringpool_str457[sizeof("CP1256")];
+    char stringpool_str463[sizeof("10081")];
+    char stringpool_str483[sizeof("ISO10646UCS4")];
+    char stringpool_str500[sizeof("CSIBM424")];
+    char stringpool_str502[sizeof("ISO10646UCS2")];
+    char stringpool_str515[sizeof("CP1166")];
+    char stringpool_str531[sizeof("10082")];
+    char stringpool_str540[sizeof("CSIBM280")];
+    char stringpool_str546[sizeof("CSIBM285")];
+    char stringpool_str558[sizeof("ASCII")];
+    char stringpool_str564[sizeof("CSIBM284")];
+    char stringpool_str571[sizeof("ISOIR126")];
+    char stringpool_str582[sizeof("CP01141")];
+    char stringpool_str587[sizeof("U8")];
+    char stringpool_str588[sizeof("CP01140")];
+    char stringpool_str589[sizeof("CP850")];
+    char stringpool_str592[sizeof("880")];
+    char stringpool_str593[sizeof("ISOIR6")];
+    char stringpool_str594[sizeof("CP01145")];
+    char stringpool_str595[sizeof("CP855")];
+    char stringpool_str599[sizeof("CP1154")];
+    char stringpool_str608[sizeof("CP1144")];
+    char stringpool_str612[sizeof("CP01144")];
+    char stringpool_str617[sizeof("CP280")];
+    char stringpool_str623[sizeof("CP285")];
+    char stringpool_str627[sizeof("CP1124")];
+    char stringpool_str633[sizeof("CP1254")];
+    char stringpool_str635[sizeof("ISOIR166")];
+    char stringpool_str637[sizeof("X0201")];
+    char stringpool_str641[sizeof("CP284")];
+    char stringpool_str650[sizeof("CP01142")];
+    char stringpool_str651[sizeof("CP852")];
+    char stringpool_str656[sizeof("US")];
+    char stringpool_str663[sizeof("ISOIR226")];
+    char stringpool_str675[sizeof("CP861")];
+    char stringpool_str677[sizeof("1141")];
+    char stringpool_str679[sizeof("CP282")];
+    char stringpool_str680[sizeof("1155")];
+    char stringpool_str681[sizeof("CP860")];
+    char stringpool_str683[sizeof("1140")];
+    char stringpool_str687[sizeof("CP865")];
+    char stringpool_str688[sizeof("L2")];
+    char stringpool_str689[sizeof("1145")];
+    char stringpool_str691[sizeof("CP1164")];
+    char stringpool_str698[sizeof("1154")];
+    char stringpool_str702[sizeof("X0212")];
+    char stringpool_str705[sizeof("CP864")];
+    char stringpool_str707[sizeof("1144")];
+    char stringpool_str708[sizeof("1125")];
+    char stringpool_str722[sizeof("CP16804")];
+    char stringpool_str726[sizeof("1124")];
+    char stringpool_str730[sizeof("1112")];
+    char stringpool_str736[sizeof("R8")];
+    char stringpool_str738[sizeof("CP28605")];
+    char stringpool_str743[sizeof("CP862")];
+    char stringpool_str745[sizeof("1142")];
+    char stringpool_str752[sizeof("L4")];
+    char stringpool_str760[sizeof("1161")];
+    char stringpool_str764[sizeof("1122")];
+    char stringpool_str766[sizeof("1160")];
+    char stringpool_str772[sizeof("1165")];
+    char stringpool_str778[sizeof("CP01146")];
+    char stringpool_str779[sizeof("CP856")];
     char stringpool_str781[sizeof("IBM01141")];
     char stringpool_str782[sizeof("IBM500")];
-    char stringpool_str783[sizeof("ISOIR126")];
-    char stringpool_str785[sizeof("UTF8")];
     char stringpool_str787[sizeof("IBM01140")];
-    char stringpool_str790[sizeof("1153")];
-    char stringpool_str791[sizeof("LATIN5")];
+    char stringpool_str788[sizeof("20866")];
+    char stringpool_str790[sizeof("1164")];
     char stringpool_str793[sizeof("IBM01145")];
-    char stringpool_str794[sizeof("CP874")];
-    char stringpool_str796[sizeof("28605")];
-    char stringpool_str799[sizeof("1143")];
-    char stringpool_str801[sizeof("CSBIG5")];
-    char stringpool_str802[sizeof("CSIBM500")];
-    char stringpool_str805[sizeof("MS936")];
-    char stringpool_str807[sizeof("856")];
-    char stringpool_str810[sizeof("CP12712")];
+    char stringpool_str795[sizeof("CSIBM905")];
     char stringpool_str811[sizeof("IBM01144")];
-    char stringpool_str813[sizeof("869")];
-    char stringpool_str818[sizeof("1123")];
-    char stringpool_str820[sizeof("IBM1141")];
-    char stringpool_str823[sizeof("52936")];
-    char stringpool_str824[sizeof("CNBIG5")];
-    char stringpool_str825[sizeof("CP932")];
-    char stringpool_str826[sizeof("IBM1140")];
+    char stringpool_str821[sizeof("CP1131")];
+    char stringpool_str828[sizeof("1162")];
     char stringpool_str830[sizeof("IBM1112")];
-    char stringpool_str832[sizeof("IBM1145")];
-    char stringpool_str838[sizeof("CP863")];
-    char stringpool_str843[sizeof("IBM850")];
-    char stringpool_str847[sizeof("ISOIR166")];
+    char stringpool_str833[sizeof("CP1130")];
+    char stringpool_str845[sizeof("861")];
     char stringpool_str849[sizeof("IBM01142")];
-    char stringpool_str850[sizeof("IBM1144")];
-    char stringpool_str852[sizeof("CP51950")];
-    char stringpool_str854[sizeof("UTF16")];
-    char stringpool_str859[sizeof("KOI8RU")];
-    char stringpool_str861[sizeof("R8")];
-    char stringpool_str862[sizeof("CP278")];
+    char stringpool_str851[sizeof("860")];
+    char stringpool_str852[sizeof("CSPTCP154")];
+    char stringpool_str857[sizeof("865")];
+    char stringpool_str859[sizeof("U16")];
+    char stringpool_str864[sizeof("1156")];
     char stringpool_str866[sizeof("IBM1125")];
+    char stringpool_str867[sizeof("1258")];
     char stringpool_str869[sizeof("IBM1025")];
-    char stringpool_str871[sizeof("IBM280")];
-    char stringpool_str875[sizeof("ISOIR226")];
-    char stringpool_str877[sizeof("CSIBM00924")];
-    char stringpool_str882[sizeof("1163")];
-    char stringpool_str883[sizeof("IBM424")];
+    char stringpool_str871[sizeof("CP866")];
+    char stringpool_str873[sizeof("1146")];
+    char stringpool_str875[sizeof("864")];
+    char stringpool_str880[sizeof("16804")];
+    char stringpool_str882[sizeof("CSIBM500")];
     char stringpool_str884[sizeof("IBM1124")];
-    char stringpool_str888[sizeof("IBM1142")];
-    char stringpool_str889[sizeof("U7")];
-    char stringpool_str890[sizeof("L7")];
-    char stringpool_str891[sizeof("EUCCN")];
-    char stringpool_str894[sizeof("950")];
-    char stringpool_str898[sizeof("273")];
-    char stringpool_str900[sizeof("775")];
-    char stringpool_str901[sizeof("IBM880")];
-    char stringpool_str902[sizeof("CP819")];
-    char stringpool_str905[sizeof("CP1156")];
-    char stringpool_str906[sizeof("54936")];
-    char stringpool_str907[sizeof("CP01149")];
-    char stringpool_str909[sizeof("IBM01148")];
-    char stringpool_str911[sizeof("ISOIR230")];
-    char stringpool_str914[sizeof("CP1146")];
-    char stringpool_str916[sizeof("CNGB")];
-    char stringpool_str917[sizeof("CP1046")];
-    char stringpool_str920[sizeof("CSPTCP154")];
+    char stringpool_str889[sizeof("CSIBM01148")];
+    char stringpool_str890[sizeof("JP")];
+    char stringpool_str906[sizeof("924")];
+    char stringpool_str913[sizeof("862")];
+    char stringpool_str916[sizeof("CN")];
+    char stringpool_str918[sizeof("IBM1161")];
+    char stringpool_str919[sizeof("CP1361")];
     char stringpool_str922[sizeof("IBM1122")];
-    char stringpool_str923[sizeof("IBM861")];
-    char stringpool_str927[sizeof("UNICODE11")];
-    char stringpool_str928[sizeof("SYSTEM1125")];
-    char stringpool_str932[sizeof("IBM284")];
-    char stringpool_str935[sizeof("IBM860")];
-    char stringpool_str936[sizeof("CP1026")];
-    char stringpool_str937[sizeof("MACTHAI")];
-    char stringpool_str939[sizeof("CP1256")];
-    char stringpool_str940[sizeof("51932")];
-    char stringpool_str941[sizeof("ISOIR138")];
-    char stringpool_str944[sizeof("CP10029")];
-    char stringpool_str948[sizeof("IBM1148")];
-    char stringpool_str953[sizeof("CP936")];
-    char stringpool_str957[sizeof("IBM852")];
-    char stringpool_str960[sizeof("TCVN")];
-    char stringpool_str961[sizeof("1149")];
-    char stringpool_str962[sizeof("943")];
-    char stringpool_str967[sizeof("CP1153")];
-    char stringpool_str972[sizeof("BIG5")];
-    char stringpool_str976[sizeof("CP1143")];
+    char stringpool_str924[sizeof("IBM1160")];
+    char stringpool_str930[sizeof("IBM1165")];
+    char stringpool_str933[sizeof("154")];
+    char stringpool_str935[sizeof("932")];
+    char stringpool_str944[sizeof("922")];
+    char stringpool_str947[sizeof("CP1132")];
+    char stringpool_str948[sizeof("IBM1164")];
+    char stringpool_str956[sizeof("1166")];
+    char stringpool_str957[sizeof("CSIBM00924")];
+    char stringpool_str960[sizeof("PT154")];
+    char stringpool_str967[sizeof("KSC5601")];
+    char stringpool_str971[sizeof("CP21866")];
+    char stringpool_str974[sizeof("CP20866")];
     char stringpool_str977[sizeof("IBM01146")];
-    char stringpool_str980[sizeof("1129")];
-    char stringpool_str981[sizeof("MACINTOSH")];
-    char stringpool_str983[sizeof("CSPCP852")];
-    char stringpool_str985[sizeof("IBM282")];
-    char stringpool_str986[sizeof("UTF32")];
-    char stringpool_str991[sizeof("MSEE")];
-    char stringpool_str993[sizeof("KOI8R")];
-    char stringpool_str995[sizeof("CP1123")];
-    char stringpool_str996[sizeof("IBM864")];
-    char stringpool_str997[sizeof("CP1166")];
-    char stringpool_str1000[sizeof("CP869")];
-    char stringpool_str1001[sizeof("CP1253")];
-    char stringpool_str1004[sizeof("CSIBM01143")];
-    char stringpool_str1009[sizeof("819")];
-    char stringpool_str1013[sizeof("CP10081")];
-    char stringpool_str1015[sizeof("ISOIR58")];
-    char stringpool_str1016[sizeof("IBM1146")];
-    char stringpool_str1019[sizeof("IBM1046")];
-    char stringpool_str1020[sizeof("STRK10482002")];
-    char stringpool_str1024[sizeof("U16LE")];
-    char stringpool_str1027[sizeof("CSEUCKR")];
-    char stringpool_str1030[sizeof("28591")];
-    char stringpool_str1032[sizeof("CP943")];
-    char stringpool_str1035[sizeof("CSHPROMAN8")];
-    char stringpool_str1042[sizeof("28595")];
-    char stringpool_str1044[sizeof("1133")];
-    char stringpool_str1049[sizeof("IBM862")];
+    char stringpool_str986[sizeof("IBM1162")];
+    char stringpool_str988[sizeof("12712")];
+    char stringpool_str1002[sizeof("CSEUCKR")];
+    char stringpool_str1004[sizeof("CP880")];
+    char stringpool_str1009[sizeof("65001")];
+    char stringpool_str1015[sizeof("65000")];
+    char stringpool_str1026[sizeof("CP950")];
+    char stringpool_str1027[sizeof("CP1155")];
+    char stringpool_str1036[sizeof("CP1145")];
+    char stringpool_str1041[sizeof("866")];
+    char stringpool_str1042[sizeof("CSIBM855")];
+    char stringpool_str1052[sizeof("CNGB")];
     char stringpool_str1053[sizeof("IBM1026")];
-    char stringpool_str1059[sizeof("CP1163")];
-    char stringpool_str1060[sizeof("28594")];
-    char stringpool_str1063[sizeof("CP4971")];
-    char stringpool_str1067[sizeof("CP28591")];
-    char stringpool_str1070[sizeof("CSIBM423")];
-    char stringpool_str1072[sizeof("MSKANJI")];
-    char stringpool_str1076[sizeof("CP1158")];
-    char stringpool_str1077[sizeof("CSIBM1163")];
-    char stringpool_str1079[sizeof("CP28595")];
-    char stringpool_str1081[sizeof("CP10082")];
-    char stringpool_str1085[sizeof("CP1148")];
-    char stringpool_str1089[sizeof("RK1048")];
-    char stringpool_str1090[sizeof("TIS620")];
-    char stringpool_str1092[sizeof("ARMSCII8")];
-    char stringpool_str1094[sizeof("TIS6200")];
-    char stringpool_str1096[sizeof("CP21866")];
-    char stringpool_str1097[sizeof("CP28594")];
-    char stringpool_str1098[sizeof("28592")];
-    char stringpool_str1099[sizeof("CP20866")];
-    char stringpool_str1102[sizeof("CSGB2312")];
-    char stringpool_str1109[sizeof("IBM1155")];
-    char stringpool_str1110[sizeof("CP1258")];
-    char stringpool_str1112[sizeof("437")];
-    char stringpool_str1113[sizeof("1257")];
-    char stringpool_str1114[sizeof("IBMEUCCN")];
-    char stringpool_str1116[sizeof("CCSID01141")];
-    char stringpool_str1117[sizeof("CP51932")];
-    char stringpool_str1120[sizeof("UCS4BE")];
-    char stringpool_str1122[sizeof("CCSID01140")];
-    char stringpool_str1124[sizeof("949")];
-    char stringpool_str1127[sizeof("IBM1154")];
-    char stringpool_str1128[sizeof("CCSID01145")];
-    char stringpool_str1129[sizeof("GEORGIANPS")];
-    char stringpool_str1130[sizeof("10017")];
-    char stringpool_str1131[sizeof("853")];
-    char stringpool_str1133[sizeof("10007")];
-    char stringpool_str1135[sizeof("CP28592")];
-    char stringpool_str1137[sizeof("IBM1250")];
-    char stringpool_str1139[sizeof("UCS2BE")];
-    char stringpool_str1141[sizeof("1047")];
-    char stringpool_str1143[sizeof("IBM1255")];
-    char stringpool_str1144[sizeof("U32BE")];
-    char stringpool_str1146[sizeof("CCSID01144")];
-    char stringpool_str1151[sizeof("IBM425")];
-    char stringpool_str1155[sizeof("ISO646US")];
-    char stringpool_str1158[sizeof("28598")];
-    char stringpool_str1160[sizeof("DOS862")];
-    char stringpool_str1161[sizeof("IBM1254")];
-    char stringpool_str1166[sizeof("CSIBM01149")];
-    char stringpool_str1168[sizeof("ISOIR203")];
-    char stringpool_str1172[sizeof("IBM855")];
-    char stringpool_str1174[sizeof("ISOCELTIC")];
-    char stringpool_str1175[sizeof("ISO646CN")];
-    char stringpool_str1177[sizeof("ISO10646UCS4")];
-    char stringpool_str1181[sizeof("ISO2022JP1")];
-    char stringpool_str1182[sizeof("CSISO2022JP")];
-    char stringpool_str1183[sizeof("ISO2022JPMS")];
-    char stringpool_str1184[sizeof("CCSID01142")];
-    char stringpool_str1185[sizeof("GB2312")];
-    char stringpool_str1186[sizeof("LATIN6")];
-    char stringpool_str1190[sizeof("L9")];
-    char stringpool_str1192[sizeof("CSISO2022JP2")];
-    char stringpool_str1194[sizeof("CP949")];
-    char stringpool_str1195[sizeof("CP28598")];
-    char stringpool_str1196[sizeof("ISO10646UCS2")];
-    char stringpool_str1199[sizeof("IBM1252")];
-    char stringpool_str1200[sizeof("IBM285")];
-    char stringpool_str1205[sizeof("ISO2022JP")];
-    char stringpool_str1206[sizeof("ISO88591")];
-    char stringpool_str1207[sizeof("ISO885911")];
-    char stringpool_str1209[sizeof("IBM924")];
-    char stringpool_str1210[sizeof("MACROMAN")];
-    char stringpool_str1211[sizeof("TIS620.25291")];
-    char stringpool_str1212[sizeof("CNS11643")];
-    char stringpool_str1213[sizeof("ISO885910")];
-    char stringpool_str1218[sizeof("ISO88595")];
-    char stringpool_str1219[sizeof("ISO885915")];
-    char stringpool_str1221[sizeof("CP1133")];
-    char stringpool_str1222[sizeof("CSIBM278")];
-    char stringpool_str1223[sizeof("GB231280")];
-    char stringpool_str1225[sizeof("IBM1158")];
-    char stringpool_str1226[sizeof("28596")];
-    char stringpool_str1229[sizeof("CSISO2022KR")];
-    char stringpool_str1230[sizeof("ECMA114")];
-    char stringpool_str1233[sizeof("ISO2022JP2004")];
-    char stringpool_str1236[sizeof("ISO88594")];
-    char stringpool_str1237[sizeof("ISO885914")];
-    char stringpool_str1238[sizeof("ISOIR109")];
-    char stringpool_str1241[sizeof("ISOIR159")];
-    char stringpool_str1244[sizeof("CCSID01148")];
-    char stringpool_str1248[sizeof("LATIN3")];
-    char stringpool_str1249[sizeof("ISO2022JP2")];
-    char stringpool_str1250[sizeof("ISOIR149")];
-    char stringpool_str1251[sizeof("CP51949")];
-    char stringpool_str1254[sizeof("CP273")];
-    char stringpool_str1256[sizeof("CP775")];
-    char stringpool_str1258[sizeof("CP10017")];
-    char stringpool_str1259[sizeof("IBM1258")];
-    char stringpool_str1260[sizeof("CP54936")];
-    char stringpool_str1262[sizeof("IBM922")];
-    char stringpool_str1263[sizeof("CP28596")];
-    char stringpool_str1264[sizeof("IBM865")];
-    char stringpool_str1266[sizeof("NEXTSTEP")];
-    char stringpool_str1267[sizeof("CP10007")];
-    char stringpool_str1268[sizeof("10079")];
-    char stringpool_str1272[sizeof("CSIBM905")];
-    char stringpool_str1274[sizeof("ISO88592")];
-    char stringpool_str1277[sizeof("HZGB2312")];
-    char stringpool_str1279[sizeof("CP52936")];
-    char stringpool_str1286[sizeof("JIS0208")];
-    char stringpool_str1287[sizeof("ISOIR6")];
-    char stringpool_str1288[sizeof("MSHEBR")];
-    char stringpool_str1291[sizeof("CSISO58GB231280")];
-    char stringpool_str1293[sizeof("IBM1156")];
-    char stringpool_str1300[sizeof("IBM1131")];
-    char stringpool_str1301[sizeof("IBM01143")];
-    char stringpool_str1302[sizeof("CCSID00858")];
-    char stringpool_str1304[sizeof("28603")];
-    char stringpool_str1305[sizeof("XMACCYRILLIC")];
-    char stringpool_str1306[sizeof("IBM1130")];
-    char stringpool_str1309[sizeof("51949")];
-    char stringpool_str1312[sizeof("CCSID01146")];
-    char stringpool_str1313[sizeof("CP01147")];
-    char stringpool_str1314[sizeof("CP857")];
-    char stringpool_str1318[sizeof("CP1149")];
-    char stringpool_str1319[sizeof("CSIBM855")];
-    char stringpool_str1327[sizeof("IBM1256")];
-    char stringpool_str1328[sizeof("ECMA118")];
-    char stringpool_str1332[sizeof("ISO2022CNEXT")];
-    char stringpool_str1334[sizeof("ISO88598")];
-    char stringpool_str1337[sizeof("CP1129")];
-    char stringpool_str1340[sizeof("IBM1143")];
-    char stringpool_str1341[sizeof("HPROMAN8")];
-    char stringpool_str1350[sizeof("TDS565")];
-    char stringpool_str1353[sizeof("CSISO159JISX02121990")];
-    char stringpool_str1357[sizeof("LATIN8")];
-    char stringpool_str1358[sizeof("1157")];
-    char stringpool_str1367[sizeof("1147")];
-    char stringpool_str1368[sizeof("IBM1132")];
-    char stringpool_str1369[sizeof("IBM871")];
-    char stringpool_str1371[sizeof("CSIBM880")];
-    char stringpool_str1374[sizeof("IBM1123")];
-    char stringpool_str1376[sizeof("PCK")];
-    char stringpool_str1377[sizeof("GB18030")];
-    char stringpool_str1378[sizeof("ISO2022KR")];
-    char stringpool_str1379[sizeof("UNICODEBIG")];
-    char stringpool_str1380[sizeof("CSIBMTHAI")];
-    char stringpool_str1381[sizeof("IBM870")];
-    char stringpool_str1384[sizeof("38598")];
-    char stringpool_str1388[sizeof("KSC56011989")];
-    char stringpool_str1389[sizeof("CSISOLATIN1")];
-    char stringpool_str1390[sizeof("TACTIS")];
-    char stringpool_str1393[sizeof("CSISOLATIN10")];
-    char stringpool_str1394[sizeof("CSISOLATINARABIC")];
-    char stringpool_str1395[sizeof("CSISOLATIN5")];
-    char stringpool_str1396[sizeof("CSISOLATINCYRILLIC")];
-    char stringpool_str1398[sizeof("ATARI")];
-    char stringpool_str1399[sizeof("CSIBM861")];
-    char stringpool_str1400[sizeof("IBM1161")];
-    char stringpool_str1401[sizeof("CSISO14JISC6220RO")];
-    char stringpool_str1402[sizeof("ISO88596")];
-    char stringpool_str1403[sizeof("ISO885916")];
-    char stringpool_str1404[sizeof("CSISOLATIN4")];
-    char stringpool_str1405[sizeof("CSIBM860")];
-    char stringpool_str1406[sizeof("IBM1160")];
-    char stringpool_str1407[sizeof("4971")];
-    char stringpool_str1411[sizeof("CSIBM865")];
-    char stringpool_str1412[sizeof("IBM1165")];
-    char stringpool_str1415[sizeof("367")];
-    char stringpool_str1421[sizeof("CP38598")];
-    char stringpool_str1423[sizeof("CSISOLATIN2")];
-    char stringpool_str1425[sizeof("UCS4INTERNAL")];
-    char stringpool_str1429[sizeof("CSIBM864")];
-    char stringpool_str1430[sizeof("IBM1164")];
-    char stringpool_str1431[sizeof("JISX0201")];
-    char stringpool_str1435[sizeof("CSIBM858")];
-    char stringpool_str1437[sizeof("TIS620.25331")];
-    char stringpool_str1439[sizeof("UTF16LE")];
-    char stringpool_str1440[sizeof("TIS620.25330")];
-    char stringpool_str1444[sizeof("UCS2INTERNAL")];
-    char stringpool_str1446[sizeof("IBM905")];
-    char stringpool_str1447[sizeof("KZ1048")];
-    char stringpool_str1460[sizeof("MACARABIC")];
-    char stringpool_str1462[sizeof("U16BE")];
-    char stringpool_str1463[sizeof("IBM01149")];
-    char stringpool_str1466[sizeof("277")];
-    char stringpool_str1468[sizeof("IBM1162")];
-    char stringpool_str1470[sizeof("XMACCE")];
-    char stringpool_str1477[sizeof("UNICODE11UTF7")];
-    char stringpool_str1482[sizeof("MSTURK")];
-    char stringpool_str1483[sizeof("MACTURKISH")];
-    char stringpool_str1487[sizeof("CSISOLATIN6")];
-    char stringpool_str1488[sizeof("IBM932")];
-    char stringpool_str1493[sizeof("CSUNICODE11")];
-    char stringpool_str1496[sizeof("JISX0212")];
-    char stringpool_str1501[sizeof("SHIFTJIS")];
-    char stringpool_str1502[sizeof("IBM1149")];
-    char stringpool_str1507[sizeof("CP037")];
-    char stringpool_str1508[sizeof("EUCJP")];
-    char stringpool_str1509[sizeof("CCSID00924")];
-    char stringpool_str1511[sizeof("CSKSC56011987")];
-    char stringpool_str1513[sizeof("MACGREEK")];
-    char stringpool_str1514[sizeof("MSGREEK")];
-    char stringpool_str1515[sizeof("JISX0212.19900")];
-    char stringpool_str1519[sizeof("CP437")];
-    char stringpool_str1526[sizeof("IBM921CP28603")];
-    char stringpool_str1528[sizeof("IBM1168")];
-    char stringpool_str1529[sizeof("C99")];
-    char stringpool_str1534[sizeof("BIG5HKSCS")];
-    char stringpool_str1536[sizeof("IBM1129")];
-    char stringpool_str1537[sizeof("ISO646.IRV:1991")];
-    char stringpool_str1539[sizeof("KOI8T")];
-    char stringpool_str1542[sizeof("BIG52003")];
-    char stringpool_str1543[sizeof("CSMACINTOSH")];
-    char stringpool_str1550[sizeof("28593")];
-    char stringpool_str1551[sizeof("CP1157")];
-    char stringpool_str1557[sizeof("SHIFTJIS2004")];
-    char stringpool_str1559[sizeof("JISX0208")];
-    char stringpool_str1560[sizeof("CP1147")];
-    char stringpool_str1562[sizeof("CNGBISOIR165")];
-    char stringpool_str1563[sizeof("CP1047")];
-    char stringpool_str1565[sizeof("CSIBM1047")];
-    char stringpool_str1567[sizeof("IBM856")];
-    char stringpool_str1569[sizeof("IBMCP1133")];
-    char stringpool_str1572[sizeof("CSIBM01147")];
-    char stringpool_str1575[sizeof("CSGB18030")];
-    char stringpool_str1576[sizeof("ISOIR199")];
-    char stringpool_str1585[sizeof("CP1257")];
-    char stringpool_str1587[sizeof("CP28593")];
-    char stringpool_str1590[sizeof("LATIN9")];
-    char stringpool_str1591[sizeof("KSC56011987")];
-    char stringpool_str1593[sizeof("MULELAO1")];
-    char stringpool_str1595[sizeof("CSIBM866")];
-    char stringpool_str1596[sizeof("IBM1166")];
-    char stringpool_str1602[sizeof("CP367")];
-    char stringpool_str1608[sizeof("IBM423")];
-    char stringpool_str1612[sizeof("1137")];
-    char stringpool_str1613[sizeof("ASMO708")];
-    char stringpool_str1614[sizeof("CSIBM273")];
-    char stringpool_str1615[sizeof("CSPC8CODEPAGE1144")];
-    char stringpool_str1617[sizeof("IBM1153")];
-    char stringpool_str1619[sizeof("CP297")];
-    char stringpool_str1621[sizeof("DECHANZI")];
-    char stringpool_str1629[sizeof("IBM853")];
-    char stringpool_str1631[sizeof("CSEUCTW")];
-    char stringpool_str1632[sizeof("IBM00924")];
-    char stringpool_str1635[sizeof("UTF32LE")];
-    char stringpool_str1636[sizeof("CCSID01143")];
-    char stringpool_str1637[sizeof("DECHANYU")];
-    char stringpool_str1641[sizeof("737")];
-    char stringpool_str1647[sizeof("ISOIR157")];
-    char stringpool_str1649[sizeof("CSISOLATIN3")];
-    char stringpool_str1652[sizeof("HEBREW")];
-    char stringpool_str1653[sizeof("GEORGIANACADEMY")];
-    char stringpool_str1658[sizeof("MACCROATIAN")];
-    char stringpool_str1659[sizeof("IBM866")];
-    char stringpool_str1661[sizeof("CSWINDOWS1251")];
-    char stringpool_str1664[sizeof("CSWINDOWS1250")];
-    char stringpool_str1667[sizeof("CSWINDOWS1255")];
-    char stringpool_str1672[sizeof("CSISO885915CP28605")];
-    char stringpool_str1675[sizeof("ISOIR127")];
-    char stringpool_str1676[sizeof("CSWINDOWS1254")];
-    char stringpool_str1681[sizeof("EUCKR")];
-    char stringpool_str1685[sizeof("IBMTHAI")];
-    char stringpool_str1686[sizeof("UNICODELITTLE")];
-    char stringpool_str1690[sizeof("CP10079")];
-    char stringpool_str1695[sizeof("CSWINDOWS1252")];
-    char stringpool_str1696[sizeof("TIS620.2533")];
-    char stringpool_str1698[sizeof("CSPC8CODEPAGE1146")];
-    char stringpool_str1699[sizeof("857")];
-    char stringpool_str1701[sizeof("ISO2022JP3")];
-    char stringpool_str1703[sizeof("IBM12712")];
-    char stringpool_str1710[sizeof("IBM875")];
-    char stringpool_str1712[sizeof("28599")];
-    char stringpool_str1721[sizeof("IBM863")];
-    char stringpool_str1723[sizeof("ELOT928")];
-    char stringpool_str1724[sizeof("ROMAN8")];
-    char stringpool_str1725[sizeof("CSWINDOWS1258")];
-    char stringpool_str1726[sizeof("ISO88593")];
-    char stringpool_str1727[sizeof("ISO885913")];
-    char stringpool_str1731[sizeof("IBMEUCJP")];
-    char stringpool_str1737[sizeof("IBM16804")];
-    char stringpool_str1738[sizeof("IBM858")];
-    char stringpool_str1739[sizeof("CSWINDOWS874")];
-    char stringpool_str1745[sizeof("UTF7")];
-    char stringpool_str1746[sizeof("IBM00858")];
-    char stringpool_str1749[sizeof("CP28599")];
-    char stringpool_str1758[sizeof("CSKOI8U")];
-    char stringpool_str1759[sizeof("CSWINDOWS1256")];
-    char stringpool_str1776[sizeof("GBK")];
-    char stringpool_str1779[sizeof("ISOIR179")];
-    char stringpool_str1791[sizeof("CSSHIFTJIS")];
-    char stringpool_str1792[sizeof("ISO646JP")];
-    char stringpool_str1795[sizeof("ANSIX3.41968")];
-    char stringpool_str1796[sizeof("CSISO57GB1988")];
-    char stringpool_str1798[sizeof("CCSID01149")];
-    char stringpool_str1799[sizeof("KOREAN")];
-    char stringpool_str1805[sizeof("CP1137")];
-    char stringpool_str1810[sizeof("JISX02121990")];
-    char stringpool_str1811[sizeof("CP0037")];
-    char stringpool_str1815[sizeof("CSIBM037")];
-    char stringpool_str1819[sizeof("CSUNICODE")];
-    char stringpool_str1822[sizeof("CP277")];
-    char stringpool_str1827[sizeof("CSIBM853")];
-    char stringpool_str1829[sizeof("ANSIX3.41986")];
-    char stringpool_str1832[sizeof("LATIN7")];
-    char stringpool_str1835[sizeof("JAVA")];
-    char stringpool_str1838[sizeof("TCVN57121")];
-    char stringpool_str1843[sizeof("JISX02081990")];
-    char stringpool_str1845[sizeof("CSIBM871")];
-    char stringpool_str1851[sizeof("CSIBM870")];
-    char stringpool_str1852[sizeof("XMACROMANIAN")];
-    char stringpool_str1864[sizeof("EBCDICCPIS")];
-    char stringpool_str1866[sizeof("EBCDICCPUS")];
-    char stringpool_str1869[sizeof("IBM01147")];
-    char stringpool_str1871[sizeof("TCVN5712")];
-    char stringpool_str1874[sizeof("JISX02011976")];
-    char stringpool_str1881[sizeof("EBCDICCPNL")];
-    char stringpool_str1882[sizeof("EBCDICCPYU")];
-    char stringpool_str1883[sizeof("UTF16BE")];
-    char stringpool_str1888[sizeof("ISO88599")];
-    char stringpool_str1889[sizeof("CP1097")];
-    char stringpool_str1893[sizeof("ISO885910:1992")];
-    char stringpool_str1902[sizeof("MACUKRAINE")];
-    char stringpool_str1903[sizeof("CSISOLATINGREEK")];
-    char stringpool_str1904[sizeof("IBMEUCKR")];
-    char stringpool_str1908[sizeof("IBM1147")];
-    char stringpool_str1910[sizeof("CSKOI8RU")];
-    char stringpool_str1911[sizeof("IBM1047")];
-    char stringpool_str1915[sizeof("IBM943")];
-    char stringpool_str1919[sizeof("CSIBM863")];
-    char stringpool_str1920[sizeof("IBM1163")];
-    char stringpool_str1921[sizeof("CSWINDOWS1253")];
-    char stringpool_str1925[sizeof("ISO88595:1988")];
-    char stringpool_str1926[sizeof("ISO885915:1998")];
-    char stringpool_str1930[sizeof("CSISOLATINHEBREW")];
-    char stringpool_str1932[sizeof("MACCENTRALEUROPE")];
-    char stringpool_str1934[sizeof("ISO88594:1988")];
-    char stringpool_str1935[sizeof("ISO885914:1998")];
-    char stringpool_str1936[sizeof("ARABIC")];
-    char stringpool_str1954[sizeof("ISO885916:2001")];
-    char stringpool_str1956[sizeof("IBM4971")];
-    char stringpool_str1965[sizeof("IBM819")];
-    char stringpool_str1969[sizeof("297")];
-    char stringpool_str1975[sizeof("ISOIR57")];
-    char stringpool_str1979[sizeof("CSIBM297")];
-    char stringpool_str1983[sizeof("ISO88598:1988")];
-    char stringpool_str1989[sizeof("SHIFTJISX0213")];
-    char stringpool_str1992[sizeof("IBM838")];
-    char stringpool_str2008[sizeof("EBCDICCYRILLIC")];
-    char stringpool_str2020[sizeof("UCS4SWAPPED")];
-    char stringpool_str2026[sizeof("XMACICELANDIC")];
-    char stringpool_str2039[sizeof("UCS2SWAPPED")];
-    char stringpool_str2040[sizeof("JISC62261983")];
-    char stringpool_str2041[sizeof("CSUNICODE11UTF7")];
-    char stringpool_str2048[sizeof("CP737")];
-    char stringpool_str2051[sizeof("MACICELAND")];
-    char stringpool_str2056[sizeof("CSKOI8R")];
-    char stringpool_str2063[sizeof("IBM869")];
-    char stringpool_str2066[sizeof("GB18030:2005")];
-    char stringpool_str2069[sizeof("EUCJIS2004")];
-    char stringpool_str2073[sizeof("JISC62201969RO")];
-    char stringpool_str2079[sizeof("UTF32BE")];
-    char stringpool_str2081[sizeof("CSIBM869")];
-    char stringpool_str2082[sizeof("IBM1169")];
-    char stringpool_str2085[sizeof("GB198880")];
-    char stringpool_str2090[sizeof("BIGFIVE")];
-    char stringpool_str2094[sizeof("GB18030:2022")];
-    char stringpool_str2100[sizeof("JISX02081983")];
-    char stringpool_str2101[sizeof("XMACTHAI")];
-    char stringpool_str2110[sizeof("GREEK")];
-    char stringpool_str2118[sizeof("28597")];
-    char stringpool_str2127[sizeof("CHINESE")];
-    char stringpool_str2130[sizeof("MSARAB")];
-    char stringpool_str2137[sizeof("IBM273")];
-    char stringpool_str2143[sizeof("CSPC8CODEPAGE437")];
-    char stringpool_str2155[sizeof("CP28597")];
-    char stringpool_str2171[sizeof("EBCDICCPGR")];
-    char stringpool_str2179[sizeof("ISO88593:1988")];
-    char stringpool_str2182[sizeof("CSIBM277")];
-    char stringpool_str2183[sizeof("BIG5HKSCS:2001")];
-    char stringpool_str2185[sizeof("IBM1157")];
-    char stringpool_str2190[sizeof("IBM775")];
-    char stringpool_str2192[sizeof("EBCDICCPES")];
-    char stringpool_str2198[sizeof("BIG5HKSCS:2004")];
-    char stringpool_str2204[sizeof("CCSID01147")];
-    char stringpool_str2205[sizeof("CSWINDOWS1257")];
-    char stringpool_str2213[sizeof("IBM857")];
-    char stringpool_str2218[sizeof("EBCDICCPCH")];
-    char stringpool_str2219[sizeof("IBM1257")];
-    char stringpool_str2240[sizeof("XMACUKRAINIAN")];
-    char stringpool_str2244[sizeof("SDECKANJI")];
-    char stringpool_str2246[sizeof("IBM278")];
-    char stringpool_str2247[sizeof("BIG5HKSCS:2008")];
-    char stringpool_str2250[sizeof("WINDOWS1251")];
-    char stringpool_str2253[sizeof("WINDOWS1250")];
-    char stringpool_str2256[sizeof("WINDOWS1255")];
-    char stringpool_str2261[sizeof("MACROMANIA")];
-    char stringpool_str2265[sizeof("WINDOWS1254")];
-    char stringpool_str2280[sizeof("CSPC862LATINHEBREW")];
-    char stringpool_str2284[sizeof("WINDOWS1252")];
-    char stringpool_str2294[sizeof("ISO88597")];
-    char stringpool_str2295[sizeof("JOHAB")];
-    char stringpool_str2314[sizeof("WINDOWS1258")];
-    char stringpool_str2333[sizeof("EBCDICCPFI")];
-    char stringpool_str2348[sizeof("WINDOWS1256")];
-    char stringpool_str2365[sizeof("EUCTW")];
-    char stringpool_str2388[sizeof("IBM1137")];
-    char stringpool_str2395[sizeof("CSIBM857")];
-    char stringpool_str2399[sizeof("ISO88591:1987")];
-    char stringpool_str2406[sizeof("IBM037")];
-    char stringpool_str2408[sizeof("CSPC775BALTIC")];
-    char stringpool_str2418[sizeof("IBM437")];
-    char stringpool_str2423[sizeof("XMACTURKISH")];
-    char stringpool_str2433[sizeof("ISO88592:1987")];
-    char stringpool_str2449[sizeof("CSISO87JISX0208")];
-    char stringpool_str2459[sizeof("CCSID853")];
-    char stringpool_str2483[sizeof("ISOIR87")];
-    char stringpool_str2497[sizeof("ISO88596:1987")];
-    char stringpool_str2501[sizeof("IBM367")];
-    char stringpool_str2502[sizeof("KOKR.JOHAP92")];
-    char stringpool_str2510[sizeof("WINDOWS1253")];
-    char stringpool_str2514[sizeof("GREEK8")];
-    char stringpool_str2517[sizeof("EUCJISX0213")];
-    char stringpool_str2518[sizeof("IBM297")];
-    char stringpool_str2520[sizeof("EBCDICCPSE")];
-    char stringpool_str2524[sizeof("BIG5HKSCS:1999")];
-    char stringpool_str2535[sizeof("MACHEBREW")];
-    char stringpool_str2537[sizeof("ISO88599:1989")];
-    char stringpool_str2541[sizeof("DECKANJI")];
-    char stringpool_str2552[sizeof("RISCOSLATIN1")];
-    char stringpool_str2562[sizeof("WINDOWS950")];
-    char stringpool_str2588[sizeof("IBMEUCTW")];
-    char stringpool_str2590[sizeof("EBCDICCPTR")];
-    char stringpool_str2635[sizeof("EBCDICCPFR")];
-    char stringpool_str2640[sizeof("WINBALTRIM")];
-    char stringpool_str2647[sizeof("EBCDICCPNO")];
-    char stringpool_str2652[sizeof("IBM1097")];
-    char stringpool_str2657[sizeof("EBCDICES284+EURO")];
-    char stringpool_str2681[sizeof("XMACCROATIAN")];
-    char stringpool_str2693[sizeof("ISO88597:2003")];
-    char stringpool_str2697[sizeof("EBCDICCPHE")];
-    char stringpool_str2712[sizeof("EBCDICCPIT")];
-    char stringpool_str2720[sizeof("DECKOREAN")];
-    char stringpool_str2721[sizeof("IBM277")];
-    char stringpool_str2726[sizeof("EXTENDEDUNIXCODEPACKEDFORMATFORJAPANESE")];
-    char stringpool_str2732[sizeof("EBCDICCPROECE")];
-    char stringpool_str2747[sizeof("TCVN57121:1993")];
-    char stringpool_str2751[sizeof("EBCDICCPGB")];
-    char stringpool_str2753[sizeof("EBCDICIT280+EURO")];
-    char stringpool_str2775[sizeof("EBCDICGB285+EURO")];
-    char stringpool_str2784[sizeof("ATARIST")];
-    char stringpool_str2794[sizeof("WINDOWS1257")];
-    char stringpool_str2829[sizeof("XMACARABIC")];
-    char stringpool_str2831[sizeof("CSEUCPKDFMTJAPANESE")];
-    char stringpool_str2839[sizeof("EBCDICIS871+EURO")];
-    char stringpool_str2847[sizeof("WINDOWS874")];
-    char stringpool_str2924[sizeof("EBCDICCPCA")];
-    char stringpool_str2943[sizeof("ISO88597:1987")];
-    char stringpool_str2947[sizeof("IBM737")];
-    char stringpool_str2961[sizeof("EBCDICCPBE")];
-    char stringpool_str3005[sizeof("EBCDICINTERNATIONAL500+EURO")];
-    char stringpool_str3006[sizeof("WINDOWS936")];
-    char stringpool_str3008[sizeof("XMACGREEK")];
-    char stringpool_str3036[sizeof("EBCDICUS37+EURO")];
-    char stringpool_str3137[sizeof("EBCDICSE278+EURO")];
-    char stringpool_str3162[sizeof("EBCDICGREEK")];
-    char stringpool_str3188[sizeof("EBCDICLATIN9EURO")];
-    char stringpool_str3206[sizeof("EBCDICNO277+EURO")];
-    char stringpool_str3226[sizeof("EBCDICFR297+EURO")];
-    char stringpool_str3248[sizeof("EBCDICCPWT")];
-    char stringpool_str3278[sizeof("EBCDICFI278+EURO")];
-    char stringpool_str3315[sizeof("XMACHEBREW")];
-    char stringpool_str3558[sizeof("CSHALFWIDTHKATAKANA")];
-    char stringpool_str3632[sizeof("EBCDICCPDK")];
-    char stringpool_str3885[sizeof("EBCDICDE273+EURO")];
-    char stringpool_str4067[sizeof("EBCDICDK277+EURO")];
+    char stringpool_str1055[sizeof("CP1125")];
+    char stringpool_str1058[sizeof("CP1025")];
+    char stringpool_str1061[sizeof("CP1255")];
+    char stringpool_str1063[sizeof("936")];
+    char stringpool_str1065[sizeof("28591")];
+    char stringpool_str1077[sizeof("28595")];
+    char stringpool_str1078[sizeof("CP924")];
+    char stringpool_str1081[sizeof("U32BE")];
+    char stringpool_str1092[sizeof("ISO2022JP1")];
+    char stringpool_str1095[sizeof("28594")];
+    char stringpool_str1096[sizeof("CSUCS4")];
+    char stringpool_str1097[sizeof("ISOIR230")];
+    char stringpool_str1114[sizeof("IBM1166")];
+    char stringpool_str1116[sizeof("CP922")];
+    char stringpool_str1119[sizeof("CP1165")];
+    char stringpool_str1122[sizeof("CSIBM861")];
+    char stringpool_str1128[sizeof("CSIBM860")];
+    char stringpool_str1133[sizeof("28592")];
+    char stringpool_str1134[sizeof("CSIBM865")];
+    char stringpool_str1144[sizeof("ISO2022JP2004")];
+    char stringpool_str1150[sizeof("CP00924")];
+    char stringpool_str1151[sizeof("CYRILLIC")];
+    char stringpool_str1152[sizeof("CSIBM864")];
+    char stringpool_str1158[sizeof("L6")];
+    char stringpool_str1160[sizeof("ISO2022JP2")];
+    char stringpool_str1166[sizeof("CP12712")];
+    char stringpool_str1173[sizeof("CP10081")];
+    char stringpool_str1177[sizeof("IBM1141")];
+    char stringpool_str1183[sizeof("IBM1140")];
+    char stringpool_str1189[sizeof("IBM1145")];
+    char stringpool_str1194[sizeof("CPGR")];
+    char stringpool_str1198[sizeof("ISOIR148")];
+    char stringpool_str1200[sizeof("IBM850")];
+    char stringpool_str1201[sizeof("UCS4")];
+    char stringpool_str1207[sizeof("IBM1144")];
+    char stringpool_str1211[sizeof("CSASCII")];
+    char stringpool_str1213[sizeof("USASCII")];
+    char stringpool_str1222[sizeof("L8")];
+    char stringpool_str1228[sizeof("IBM280")];
+    char stringpool_str1231[sizeof("MACARABIC")];
+    char stringpool_str1239[sizeof("UCS2")];
+    char stringpool_str1240[sizeof("IBM424")];
+    char stringpool_str1241[sizeof("CP10082")];
+    char stringpool_str1245[sizeof("IBM1142")];
+    char stringpool_str1254[sizeof("ISOCELTIC")];
+    char stringpool_str1257[sizeof("RUSCII")];
+    char stringpool_str1261[sizeof("28596")];
+    char stringpool_str1272[sizeof("838")];
+    char stringpool_str1280[sizeof("IBM861")];
+    char stringpool_str1282[sizeof("871")];
+    char stringpool_str1288[sizeof("870")];
+    char stringpool_str1291[sizeof("CP-GR")];
+    char stringpool_str1292[sizeof("IBM860")];
+    char stringpool_str1294[sizeof("875")];
+    char stringpool_str1297[sizeof("L1")];
+    char stringpool_str1303[sizeof("L3")];
+    char stringpool_str1304[sizeof("L10")];
+    char stringpool_str1312[sizeof("874")];
+    char stringpool_str1314[sizeof("IBM852")];
+    char stringpool_str1318[sizeof("CSIBM866")];
+    char stringpool_str1320[sizeof("1131")];
+    char stringpool_str1326[sizeof("1130")];
+    char stringpool_str1330[sizeof("850")];
+    char stringpool_str1336[sizeof("855")];
+    char stringpool_str1341[sizeof("1253")];
+    char stringpool_str1342[sizeof("IBM282")];
+    char stringpool_str1349[sizeof("423")];
+    char stringpool_str1359[sizeof("MS874")];
+    char stringpool_str1363[sizeof("CSIBM01143")];
+    char stringpool_str1373[sizeof("IBM1146")];
+    char stringpool_str1376[sizeof("IBM1046")];
+    char stringpool_str1384[sizeof("CP28591")];
+    char stringpool_str1388[sizeof("1132")];
+    char stringpool_str1392[sizeof("852")];
+    char stringpool_str1394[sizeof("ISO2022JP")];
+    char stringpool_str1396[sizeof("CP28595")];
+    char stringpool_str1406[sizeof("IBM862")];
+    char stringpool_str1412[sizeof("21866")];
+    char stringpool_str1414[sizeof("CP28594")];
+    char stringpool_str1424[sizeof("CP01148")];
+    char stringpool_str1425[sizeof("CP858")];
+    char stringpool_str1426[sizeof("MSTURK")];
+    char stringpool_str1436[sizeof("CSIBM1163")];
+    char stringpool_str1442[sizeof("IBM856")];
+    char stringpool_str1451[sizeof("CSIBM880")];
+    char stringpool_str1452[sizeof("CP28592")];
+    char stringpool_str1455[sizeof("CPIS")];
+    char stringpool_str1475[sizeof("CSISO2022JP2")];
+    char stringpool_str1477[sizeof("CP871")];
+    char stringpool_str1479[sizeof("X0208")];
+    char stringpool_str1483[sizeof("CP870")];
+    char stringpool_str1489[sizeof("CP875")];
+    char stringpool_str1495[sizeof("ISO2022KR")];
+    char stringpool_str1499[sizeof("ISO646JP")];
+    char stringpool_str1507[sizeof("CP874")];
+    char stringpool_str1510[sizeof("1158")];
+    char stringpool_str1511[sizeof("LATIN1")];
+    char stringpool_str1518[sizeof("LATIN10")];
+    char stringpool_str1519[sizeof("1148")];
+    char stringpool_str1520[sizeof("856")];
+    char stringpool_str1521[sizeof("CP423")];
+    char stringpool_str1524[sizeof("ISO646.IRV:1991")];
+    char stringpool_str1534[sizeof("IBM866")];
+    char stringpool_str1539[sizeof("51950")];
+    char stringpool_str1545[sizeof("L5")];
+    char stringpool_str1552[sizeof("MSEE")];
+    char stringpool_str1564[sizeof("IBM12712")];
+    char stringpool_str1576[sizeof("ISO2022CN")];
+    char stringpool_str1580[sizeof("CP28596")];
+    char stringpool_str1592[sizeof("IBM00924")];
+    char stringpool_str1593[sizeof("CP1158")];
+    char stringpool_str1596[sizeof("BIG5")];
+    char stringpool_str1598[sizeof("CP866U")];
+    char stringpool_str1602[sizeof("CP1148")];
+    char stringpool_str1606[sizeof("RK1048")];
+    char stringpool_str1607[sizeof("TACTIS")];
+    char stringpool_str1613[sizeof("CSBIG5")];
+    char stringpool_str1615[sizeof("IBM880")];
+    char stringpool_str1616[sizeof("ANSI1251")];
+    char stringpool_str1617[sizeof("CSISO2022CN")];
+    char stringpool_str1618[sizeof("28603")];
+    char stringpool_str1623[sizeof("IBM01148")];
+    char stringpool_str1624[sizeof("4971")];
+    char stringpool_str1625[sizeof("ECMA114")];
+    char stringpool_str1626[sizeof("IBM1155")];
+    char stringpool_str1627[sizeof("CP1258")];
+    char stringpool_str1637[sizeof("LATIN2")];
+    char stringpool_str1644[sizeof("IBM1154")];
+    char stringpool_str1646[sizeof("IBM284")];
+    char stringpool_str1653[sizeof("IBM921")];
+    char stringpool_str1654[sizeof("IBM1250")];
+    char stringpool_str1656[sizeof("IBM1131")];
+    char stringpool_str1660[sizeof("IBM1255")];
+    char stringpool_str1662[sizeof("IBM1130")];
+    char stringpool_str1668[sizeof("IBM425")];
+    char stringpool_str1678[sizeof("IBM1254")];
+    char stringpool_str1681[sizeof("ISO646CN")];
+    char stringpool_str1699[sizeof("CSPCP852")];
+    char stringpool_str1707[sizeof("UCS4BE")];
+    char stringpool_str1710[sizeof("IBM864")];
+    char stringpool_str1714[sizeof("U32LE")];
+    char stringpool_str1716[sizeof("IBM1252")];
+    char stringpool_str1720[sizeof("MS936")];
+    char stringpool_str1721[sizeof("CP1153")];
+    char stringpool_str1724[sizeof("IBM1132")];
+    char stringpool_str1726[sizeof("UCS2BE")];
+    char stringpool_str1730[sizeof("CP1143")];
+    char stringpool_str1734[sizeof("ISO2022CNEXT")];
+    char stringpool_str1737[sizeof("278")];
+    char stringpool_str1738[sizeof("52936")];
+    char stringpool_str1740[sizeof("CP932")];
+    char stringpool_str1741[sizeof("KOI8U")];
+    char stringpool_str1743[sizeof("CSISO2022JP")];
+    char stringpool_str1744[sizeof("ISO2022JPMS")];
+    char stringpool_str1749[sizeof("CP1123")];
+    char stringpool_str1752[sizeof("ISOIR203")];
+    char stringpool_str1753[sizeof("CSGB2312")];
+    char stringpool_str1755[sizeof("CP1253")];
+    char stringpool_str1760[sizeof("IBM1168")];
+    char stringpool_str1761[sizeof("ISO646US")];
+    char stringpool_str1762[sizeof("U7")];
+    char stringpool_str1763[sizeof("CSIBM01149")];
+    char stringpool_str1765[sizeof("LATIN6")];
+    char stringpool_str1767[sizeof("950")];
+    char stringpool_str1768[sizeof("CP1157")];
+    char stringpool_str1773[sizeof("775")];
+    char stringpool_str1777[sizeof("CP1147")];
+    char stringpool_str1779[sizeof("IBM922")];
+    char stringpool_str1780[sizeof("CP1047")];
+    char stringpool_str1786[sizeof("CSIBM423")];
+    char stringpool_str1792[sizeof("10029")];
+    char stringpool_str1795[sizeof("CP1149")];
+    char stringpool_str1797[sizeof("U16BE")];
+    char stringpool_str1801[sizeof("UTF16")];
+    char stringpool_str1802[sizeof("CP1257")];
+    char stringpool_str1807[sizeof("XMACCE")];
+    char stringpool_str1810[sizeof("IBM1156")];
+    char stringpool_str1813[sizeof("CP1163")];
+    char stringpool_str1814[sizeof("CP1129")];
+    char stringpool_str1821[sizeof("54936")];
+    char stringpool_str1822[sizeof("MSANSI")];
+    char stringpool_str1823[sizeof("MACTHAI")];
+    char stringpool_str1824[sizeof("437")];
+    char stringpool_str1825[sizeof("1257")];
+    char stringpool_str1836[sizeof("CNGBISOIR165")];
+    char stringpool_str1840[sizeof("CSIBM1047")];
+    char stringpool_str1841[sizeof("ISOIR138")];
+    char stringpool_str1842[sizeof("10017")];
+    char stringpool_str1844[sizeof("IBM1256")];
+    char stringpool_str1845[sizeof("10007")];
+    char stringpool_str1847[sizeof("CSIBM01147")];
+    char stringpool_str1853[sizeof("1047")];
+    char stringpool_str1855[sizeof("CSIBM278")];
+    char stringpool_str1868[sizeof("CP936")];
+    char stringpool_str1872[sizeof("CSIBM858")];
+    char stringpool_str1874[sizeof("ATARI")];
+    char stringpool_str1883[sizeof("CSKZ1048")];
+    char stringpool_str1886[sizeof("CP51950")];
+    char stringpool_str1896[sizeof("TIS620")];
+    char stringpool_str1897[sizeof("IBM16804")];
+    char stringpool_str1898[sizeof("CP01143")];
+    char stringpool_str1899[sizeof("CP853")];
+    char stringpool_str1900[sizeof("TIS6200")];
+    char stringpool_str1907[sizeof("28598")];
+    char stringpool_str1913[sizeof("50227")];
+    char stringpool_str1914[sizeof("CNBIG5")];
+    char stringpool_str1922[sizeof("MSCYRL")];
+    char stringpool_str1924[sizeof("CSIBM871")];
+    char stringpool_str1927[sizeof("EUCJIS2004")];
+    char stringpool_str1930[sizeof("CSIBM870")];
+    char stringpool_str1932[sizeof("CP278")];
+    char stringpool_str1936[sizeof("CP4971")];
+    char stringpool_str1941[sizeof("LATIN4")];
+    char stringpool_str1953[sizeof("CCSID01141")];
+    char stringpool_str1959[sizeof("CCSID01140")];
+    char stringpool_str1965[sizeof("CCSID01145")];
+    char stringpool_str1968[sizeof("CP775")];
+    char stringpool_str1970[sizeof("CP10017")];
+    char stringpool_str1974[sizeof("HP15CN")];
+    char stringpool_str1978[sizeof("CP10029")];
+    char stringpool_str1979[sizeof("CP10007")];
+    char stringpool_str1983[sizeof("CCSID01144")];
+    char stringpool_str1984[sizeof("1153")];
+    char stringpool_str1985[sizeof("CSEUCTW")];
+    char stringpool_str1990[sizeof("CP51932")];
+    char stringpool_str1991[sizeof("CP863")];
+    char stringpool_str1993[sizeof("1143")];
+    char stringpool_str1996[sizeof("CSISO2022KR")];
+    char stringpool_str2009[sizeof("EUCJP")];
+    char stringpool_str2012[sizeof("1123")];
+    char stringpool_str2013[sizeof("CSVISCII")];
+    char stringpool_str2019[sizeof("IBM1148")];
+    char stringpool_str2021[sizeof("CCSID01142")];
+    char stringpool_str2034[sizeof("ISOIR58")];
+    char stringpool_str2035[sizeof("CSKOI8U")];
+    char stringpool_str2039[sizeof("KOI8R")];
+    char stringpool_str2042[sizeof("CP28603")];
+    char stringpool_str2046[sizeof("IBM855")];
+    char stringpool_str2052[sizeof("UNICODE11")];
+    char stringpool_str2060[sizeof("ISOIR109")];
+    char stringpool_str2063[sizeof("ISOIR159")];
+    char stringpool_str2072[sizeof("ISOIR149")];
+    char stringpool_str2074[sizeof("IBM285")];
+    char stringpool_str2076[sizeof("1163")];
+    char stringpool_str2077[sizeof("CP838")];
+    char stringpool_str2082[sizeof("IBM871")];
+    char stringpool_str2083[sizeof("IBM924")];
+    char stringpool_str2094[sizeof("IBM870")];
+    char stringpool_str2097[sizeof("IBM01143")];
+    char stringpool_str2099[sizeof("CP50227")];
+    char stringpool_str2100[sizeof("ARABIC")];
+    char stringpool_str2110[sizeof("EUCKR")];
+    char stringpool_str2112[sizeof("VISCII")];
+    char stringpool_str2117[sizeof("PTCP154")];
+    char stringpool_str2118[sizeof("EUCTW")];
+    char stringpool_str2122[sizeof("CSISO14JISC6220RO")];
+    char stringpool_str2133[sizeof("CP54936")];
+    char stringpool_str2138[sizeof("IBM865")];
+    char stringpool_str2147[sizeof("ISOIR157")];
+    char stringpool_str2149[sizeof("CCSID01146")];
+    char stringpool_str2152[sizeof("CP52936")];
+    char stringpool_str2153[sizeof("CSISO159JISX02121990")];
+    char stringpool_str2156[sizeof("JAVA")];
+    char stringpool_str2161[sizeof("863")];
+    char stringpool_str2166[sizeof("858")];
+    char stringpool_str2170[sizeof("IBM1123")];
+    char stringpool_str2175[sizeof("ISOIR127")];
+    char stringpool_str2177[sizeof("CSIBMTHAI")];
+    char stringpool_str2187[sizeof("CSKOI8RU")];
+    char stringpool_str2191[sizeof("EUCCN")];
+    char stringpool_str2202[sizeof("L9")];
+    char stringpool_str2211[sizeof("273")];
+    char stringpool_str2226[sizeof("CP28598")];
+    char stringpool_str2234[sizeof("IBM1163")];
+    char stringpool_str2239[sizeof("KOI8T")];
+    char stringpool_str2248[sizeof("MSARAB")];
+    char stringpool_str2253[sizeof("51932")];
+    char stringpool_str2264[sizeof("TIS620.25291")];
+    char stringpool_str2275[sizeof("943")];
+    char stringpool_str2278[sizeof("HZ")];
+    char stringpool_str2285[sizeof("CP00858")];
+    char stringpool_str2293[sizeof("CP819")];
+    char stringpool_str2298[sizeof("CP01149")];
+    char stringpool_str2304[sizeof("ARMSCII8")];
+    char stringpool_str2315[sizeof("GB2312")];
+    char stringpool_str2319[sizeof("CYRIILLICASIAN")];
+    char stringpool_str2329[sizeof("CSIBM273")];
+    char stringpool_str2331[sizeof("UTF32")];
+    char stringpool_str2333[sizeof("CSKOI8R")];
+    char stringpool_str2334[sizeof("IBM4971")];
+    char stringpool_str2340[sizeof("UCS4LE")];
+    char stringpool_str2344[sizeof("MSHEBR")];
+    char stringpool_str2345[sizeof("CP943")];
+    char stringpool_str2346[sizeof("CSIBM853")];
+    char stringpool_str2359[sizeof("UCS2LE")];
+    char stringpool_str2362[sizeof("IBM423")];
+    char stringpool_str2369[sizeof("LATIN5")];
+    char stringpool_str2373[sizeof("CP1133")];
+    char stringpool_str2381[sizeof("28593")];
+    char stringpool_str2382[sizeof("CP01147")];
+    char stringpool_str2383[sizeof("CP857")];
+    char stringpool_str2391[sizeof("CP869")];
+    char stringpool_str2393[sizeof("1149")];
+    char stringpool_str2397[sizeof("L7")];
+    char stringpool_str2403[sizeof("IBM932")];
+    char stringpool_str2406[sizeof("CP273")];
+    char stringpool_str2407[sizeof("VISCII1.11")];
+    char stringpool_str2408[sizeof("ISO2022JP3")];
+    char stringpool_str2412[sizeof("1129")];
+    char stringpool_str2420[sizeof("CP1137")];
+    char stringpool_str2424[sizeof("C99")];
+    char stringpool_str2426[sizeof("CP0037")];
+    char stringpool_str2428[sizeof("CSGB18030")];
+    char stringpool_str2430[sizeof("U16LE")];
+    char stringpool_str2437[sizeof("ECMA118")];
+    char stringpool_str2438[sizeof("CSIBM863")];
+    char stringpool_str2446[sizeof("UTF8")];
+    char stringpool_str2454[sizeof("CNS11643")];
+    char stringpool_str2456[sizeof("IBM1158")];
+    char stringpool_str2468[sizeof("1157")];
+    char stringpool_str2477[sizeof("1147")];
+    char stringpool_str2480[sizeof("IBM905")];
+    char stringpool_str2488[sizeof("CSIBM037")];
+    char stringpool_str2490[sizeof("IBM1258")];
+    char stringpool_str2492[sizeof("ASMO708")];
+    char stringpool_str2493[sizeof("IBM1143")];
+    char stringpool_str2497[sizeof("IBM01149")];
+    char stringpool_str2499[sizeof("PCK")];
+    char stringpool_str2519[sizeof("JOHAB")];
+    char stringpool_str2527[sizeof("DOS862")];
+    char stringpool_str2531[sizeof("38598")];
+    char stringpool_str2542[sizeof("297")];
+    char stringpool_str2553[sizeof("CSISOLATIN1")];
+    char stringpool_str2557[sizeof("CSISOLATIN10")];
+    char stringpool_str2558[sizeof("CSISOLATINARABIC")];
+    char stringpool_str2559[sizeof("CSISOLATIN5")];
+    char stringpool_str2560[sizeof("CSISOLATINCYRILLIC")];
+    char stringpool_str2561[sizeof("869")];
+    char stringpool_str2568[sizeof("CSISOLATIN4")];
+    char stringpool_str2570[sizeof("IBM1129")];
+    char stringpool_str2571[sizeof("IBMTHAI")];
+    char stringpool_str2579[sizeof("MACROMAN")];
+    char stringpool_str2581[sizeof("IBM01147")];
+    char stringpool_str2585[sizeof("CP10079")];
+    char stringpool_str2587[sizeof("CSISOLATIN2")];
+    char stringpool_str2591[sizeof("SJIS")];
+    char stringpool_str2596[sizeof("JISX0201")];
+    char stringpool_str2608[sizeof("TCVN")];
+    char stringpool_str2612[sizeof("IBM858")];
+    char stringpool_str2617[sizeof("CP037")];
+    char stringpool_str2620[sizeof("IBM00858")];
+    char stringpool_str2622[sizeof("MSKANJI")];
+    char stringpool_str2623[sizeof("CP1097")];
+    char stringpool_str2629[sizeof("CP437")];
+    char stringpool_str2634[sizeof("IBM1169")];
+    char stringpool_str2636[sizeof("1133")];
+    char stringpool_str2640[sizeof("853")];
+    char stringpool_str2646[sizeof("SYSTEM1125")];
+    char stringpool_str2651[sizeof("CSISOLATIN6")];
+    char stringpool_str2658[sizeof("10079")];
+    char stringpool_str2661[sizeof("JISX0212")];
+    char stringpool_str2675[sizeof("949")];
+    char stringpool_str2695[sizeof("277")];
+    char stringpool_str2700[sizeof("CP28593")];
+    char stringpool_str2709[sizeof("737")];
+    char stringpool_str2710[sizeof("GB231280")];
+    char stringpool_str2712[sizeof("CP367")];
+    char stringpool_str2713[sizeof("KOI8RU")];
+    char stringpool_str2724[sizeof("MACCYRILLIC")];
+    char stringpool_str2733[sizeof("XMACTHAI")];
+    char stringpool_str2740[sizeof("IBM853")];
+    char stringpool_str2742[sizeof("ISO88591")];
+    char stringpool_str2743[sizeof("ISO885911")];
+    char stringpool_str2745[sizeof("CP949")];
+    char stringpool_str2747[sizeof("TCVN57121")];
+    char stringpool_str2749[sizeof("ISO885910")];
+    char stringpool_str2754[sizeof("ISO88595")];
+    char stringpool_str2755[sizeof("ISO885915")];
+    char stringpool_str2771[sizeof("CSIBM297")];
+    char stringpool_str2772[sizeof("ISO88594")];
+    char stringpool_str2773[sizeof("ISO885914")];
+    char stringpool_str2777[sizeof("MACCROATIAN")];
+    char stringpool_str2780[sizeof("TCVN5712")];
+    char stringpool_str2781[sizeof("28599")];
+    char stringpool_str2787[sizeof("IBM857")];
+    char stringpool_str2788[sizeof("MACCENTRALEUROPE")];
+    char stringpool_str2790[sizeof("STRK10482002")];
+    char stringpool_str2795[sizeof("CCSID01148")];
+    char stringpool_str2798[sizeof("819")];
+    char stringpool_str2799[sizeof("IBM819")];
+    char stringpool_str2800[sizeof("CSUNICODE11")];
+    char stringpool_str2810[sizeof("ISO88592")];
+    char stringpool_str2813[sizeof("CSIBM277")];
+    char stringpool_str2822[sizeof("GB18030")];
+    char stringpool_str2824[sizeof("JIS0208")];
+    char stringpool_str2827[sizeof("ATARIST")];
+    char stringpool_str2828[sizeof("CSPC862LATINHEBREW")];
+    char stringpool_str2830[sizeof("CSIBM857")];
+    char stringpool_str2832[sizeof("IBM863")];
+    char stringpool_str2838[sizeof("CSIBM869")];
+    char stringpool_str2848[sizeof("CP297")];
+    char stringpool_str2850[sizeof("CP38598")];
+    char stringpool_str2857[sizeof("TDS565")];
+    char stringpool_str2863[sizeof("CCSID00924")];
+    char stringpool_str2865[sizeof("28597")];
+    char stringpool_str2882[sizeof("367")];
+    char stringpool_str2883[sizeof("CSPC850MULTILINGUAL")];
+    char stringpool_str2888[sizeof("TIS620.25331")];
+    char stringpool_str2890[sizeof("CP277")];
+    char stringpool_str2891[sizeof("TIS620.25330")];
+    char stringpool_str2893[sizeof("IBM1149")];
+    char stringpool_str2897[sizeof("IBM869")];
+    char stringpool_str2898[sizeof("CSISO58GB231280")];
+    char stringpool_str2915[sizeof("ISOIR199")];
+    char stringpool_str2927[sizeof("JISX0212.19900")];
+    char stringpool_str2930[sizeof("IBM1153")];
+    char stringpool_str2935[sizeof("LATIN8")];
+    char stringpool_str2936[sizeof("MULELAO1")];
+    char stringpool_str2938[sizeof("ISO88596")];
+    char stringpool_str2939[sizeof("ISO885916")];
+    char stringpool_str2940[sizeof("IBM875")];
+    char stringpool_str2947[sizeof("ISO885910:1992")];
+    char stringpool_str2957[sizeof("ISOIR179")];
+    char stringpool_str2958[sizeof("UNICODE11UTF7")];
+    char stringpool_str2962[sizeof("BIG52003")];
+    char stringpool_str2963[sizeof("HEBREW")];
+    char stringpool_str2968[sizeof("CYRILLICASIAN")];
+    char stringpool_str2977[sizeof("IBM1147")];
+    char stringpool_str2980[sizeof("IBM1047")];
+    char stringpool_str2992[sizeof("ISOIR57")];
+    char stringpool_str3007[sizeof("CSISOLATINHEBREW")];
+    char stringpool_str3008[sizeof("ISO885916:2001")];
+    char stringpool_str3018[sizeof("XMACARABIC")];
+    char stringpool_str3021[sizeof("IBM037")];
+    char stringpool_str3029[sizeof("GB18030:2005")];
+    char stringpool_str3033[sizeof("IBM437")];
+    char stringpool_str3038[sizeof("UTF16LE")];
+    char stringpool_str3041[sizeof("IBMCP1133")];
+    char stringpool_str3046[sizeof("CHINESE")];
+    char stringpool_str3051[sizeof("IBMEUCJP")];
+    char stringpool_str3057[sizeof("GB18030:2022")];
+    char stringpool_str3063[sizeof("LATIN3")];
+    char stringpool_str3072[sizeof("MACROMANIA")];
+    char stringpool_str3090[sizeof("MACGREEK")];
+    char stringpool_str3091[sizeof("MSGREEK")];
+    char stringpool_str3100[sizeof("CP28599")];
+    char stringpool_str3108[sizeof("KSC56011989")];
+    char stringpool_str3110[sizeof("LATIN7")];
+    char stringpool_str3114[sizeof("EUCJISX0213")];
+    char stringpool_str3116[sizeof("IBM367")];
+    char stringpool_str3119[sizeof("IBM278")];
+    char stringpool_str3120[sizeof("1137")];
+    char stringpool_str3121[sizeof("CSPC775BALTIC")];
+    char stringpool_str3124[sizeof("857")];
+    char stringpool_str3128[sizeof("LATIN9")];
+    char stringpool_str3137[sizeof("CSISO885915")];
+    char stringpool_str3143[sizeof("ISOIR87")];
+    char stringpool_str3150[sizeof("KSC56011987")];
+    char stringpool_str3152[sizeof("IBMEUCKR")];
+    char stringpool_str3159[sizeof("CP51949")];
+    char stringpool_str3160[sizeof("IBMEUCTW")];
+    char stringpool_str3164[sizeof("ISO88598I")];
+    char stringpool_str3166[sizeof("GBK")];
+    char stringpool_str3171[sizeof("WINBALTRIM")];
+    char stringpool_str3184[sizeof("CP28597")];
+    char stringpool_str3186[sizeof("IBM943")];
+    char stringpool_str3202[sizeof("JISC62201969RO")];
+    char stringpool_str3210[sizeof("CCSID00858")];
+    char stringpool_str3211[sizeof("CSISOLATIN3")];
+    char stringpool_str3222[sizeof("ROMAN8")];
+    char stringpool_str3233[sizeof("IBMEUCCN")];
+    char stringpool_str3235[sizeof("CSPC8CODEPAGE1144")];
+    char stringpool_str3247[sizeof("IBM273")];
+    char stringpool_str3252[sizeof("IBM297")];
+    char stringpool_str3258[sizeof("51949")];
+    char stringpool_str3264[sizeof("IBM838")];
+    char stringpool_str3269[sizeof("CCSID01143")];
+    char stringpool_str3294[sizeof("IBM277")];
+    char stringpool_str3296[sizeof("KOREAN")];
+    char stringpool_str3301[sizeof("CSMACINTOSH")];
+    char stringpool_str3306[sizeof("MACICELAND")];
+    char stringpool_str3313[sizeof("CSUNICODE")];
+    char stringpool_str3318[sizeof("CSPC8CODEPAGE1146")];
+    char stringpool_str3319[sizeof("XMACCYRILLIC")];
+    char stringpool_str3324[sizeof("IBM1097")];
+    char stringpool_str3328[sizeof("XCP50227")];
+    char stringpool_str3336[sizeof("ISO88595:1988")];
+    char stringpool_str3337[sizeof("ISO885915:1998")];
+    char stringpool_str3345[sizeof("ISO88594:1988")];
+    char stringpool_str3346[sizeof("ISO885914:1998")];
+    char stringpool_str3356[sizeof("ELOT928")];
+    char stringpool_str3358[sizeof("KZ1048")];
+    char stringpool_str3363[sizeof("CSKSC56011987")];
+    char stringpool_str3396[sizeof("CSISOLATINGREEK")];
+    char stringpool_str3397[sizeof("CSWINDOWS1251")];
+    char stringpool_str3399[sizeof("XMACUKRAINIAN")];
+    char stringpool_str3400[sizeof("CSWINDOWS1250")];
+    char stringpool_str3403[sizeof("CSWINDOWS1255")];
+    char stringpool_str3404[sizeof("UTF7")];
+    char stringpool_str3406[sizeof("DECHANZI")];
+    char stringpool_str3412[sizeof("CSWINDOWS1254")];
+    char stringpool_str3414[sizeof("IBM1157")];
+    char stringpool_str3419[sizeof("IBM775")];
+    char stringpool_str3431[sizeof("CSWINDOWS1252")];
+    char stringpool_str3438[sizeof("JISX0208")];
+    char stringpool_str3448[sizeof("IBM1257")];
+    char stringpool_str3456[sizeof("IBM1137")];
+    char stringpool_str3459[sizeof("UNICODELITTLE")];
+    char stringpool_str3468[sizeof("DECKANJI")];
+    char stringpool_str3492[sizeof("JISX02121990")];
+    char stringpool_str3495[sizeof("CSWINDOWS1256")];
+    char stringpool_str3501[sizeof("XMACCROATIAN")];
+    char stringpool_str3502[sizeof("HPROMAN8")];
+    char stringpool_str3510[sizeof("UCS4INTERNAL")];
+    char stringpool_str3514[sizeof("CP737")];
+    char stringpool_str3529[sizeof("UCS2INTERNAL")];
+    char stringpool_str3531[sizeof("UNICODEBIG")];
+    char stringpool_str3545[sizeof("TIS620.2533")];
+    char stringpool_str3556[sizeof("JISX02011976")];
+    char stringpool_str3563[sizeof("EBCDICCPIT")];
+    char stringpool_str3572[sizeof("TCVN57121:1993")];
+    char stringpool_str3574[sizeof("WINDOWS1251")];
+    char stringpool_str3577[sizeof("WINDOWS1250")];
+    char stringpool_str3580[sizeof("WINDOWS1255")];
+    char stringpool_str3584[sizeof("ISO88598")];
+    char stringpool_str3589[sizeof("WINDOWS1254")];
+    char stringpool_str3608[sizeof("WINDOWS1252")];
+    char stringpool_str3614[sizeof("EBCDICCPTR")];
+    char stringpool_str3632[sizeof("UTF32LE")];
+    char stringpool_str3642[sizeof("SHIFTJIS2004")];
+    char stringpool_str3644[sizeof("EBCDICIT280+EURO")];
+    char stringpool_str3660[sizeof("MACUKRAINE")];
+    char stringpool_str3669[sizeof("CCSID01149")];
+    char stringpool_str3672[sizeof("WINDOWS1256")];
+    char stringpool_str3701[sizeof("GREEK")];
+    char stringpool_str3704[sizeof("CSUNICODE11UTF7")];
+    char stringpool_str3714[sizeof("RISCOSLATIN1")];
+    char stringpool_str3717[sizeof("UTF16BE")];
+    char stringpool_str3735[sizeof("EBCDICCYRILLIC")];
+    char stringpool_str3751[sizeof("ISO88598:1988")];
+    char stringpool_str3753[sizeof("CCSID01147")];
+    char stringpool_str3759[sizeof("CSISO57GB1988")];
+    char stringpool_str3761[sizeof("BIGFIVE")];
+    char stringpool_str3779[sizeof("JISC62261983")];
+    char stringpool_str3806[sizeof("EBCDICCPGB")];
+    char stringpool_str3809[sizeof("ISO88591:1987")];
+    char stringpool_str3818[sizeof("CSWINDOWS1258")];
+    char stringpool_str3832[sizeof("CSWINDOWS874")];
+    char stringpool_str3843[sizeof("ISO88592:1987")];
+    char stringpool_str3865[sizeof("HZGB2312")];
+    char stringpool_str3873[sizeof("XMACROMANIAN")];
+    char stringpool_str3874[sizeof("CSEUCPKDFMTJAPANESE")];
+    char stringpool_str3882[sizeof("JISX02081990")];
+    char stringpool_str3887[sizeof("EBCDICCPYU")];
+    char stringpool_str3904[sizeof("EBCDICCPROECE")];
+    char stringpool_str3907[sizeof("ISO88596:1987")];
+    char stringpool_str3913[sizeof("XMACHEBREW")];
+    char stringpool_str3918[sizeof("IBM737")];
+    char stringpool_str3988[sizeof("ISO88593:1988")];
+    char stringpool_str3995[sizeof("WINDOWS1258")];
+    char stringpool_str4012[sizeof("EBCDICCPWT")];
+    char stringpool_str4020[sizeof("EBCDICCPNO")];
+    char stringpool_str4043[sizeof("EBCDICCPFI")];
+    char stringpool_str4055[sizeof("CSWINDOWS1253")];
+    char stringpool_str4058[sizeof("ISO88593")];
+    char stringpool_str4059[sizeof("ISO885913")];
+    char stringpool_str4070[sizeof("DECHANYU")];
+    char stringpool_str4095[sizeof("EBCDICCPBE")];
+    char stringpool_str4100[sizeof("EBCDICCPGR")];
+    char stringpool_str4104[sizeof("MACINTOSH")];
+    char stringpool_str4119[sizeof("CSPC8CODEPAGE437")];
+    char stringpool_str4120[sizeof("MACHEBREW")];
+    char stringpool_str4130[sizeof("CSSHIFTJIS")];
+    char stringpool_str4134[sizeof("EBCDICGB285+EURO")];
+    char stringpool_str4163[sizeof("EBCDICCPCA")];
+    char stringpool_str4170[sizeof("CSHPROMAN8")];
+    char stringpool_str4208[sizeof("GB198880")];
+    char stringpool_str4232[sizeof("WINDOWS1253")];
+    char stringpool_str4236[sizeof("SHIFTJIS")];
+    char stringpool_str4239[sizeof("ANSIX3.41986")];
+    char stringpool_str4252[sizeof("CCSID853")];
+    char stringpool_str4255[sizeof("CSISO87JISX0208")];
+    char stringpool_str4285[sizeof("BIG5HKSCS:2001")];
+    char stringpool_str4293[sizeof("GREEK8")];
+    char stringpool_str4297[sizeof("CSWINDOWS1257")];
+    char stringpool_str4300[sizeof("BIG5HKSCS:2004")];
+    char stringpool_str4311[sizeof("UTF32BE")];
+    char stringpool_str4315[sizeof("UCS4SWAPPED")];
+    char stringpool_str4326[sizeof("EBCDICINTERNATIONAL500+EURO")];
+    char stringpool_str4334[sizeof("UCS2SWAPPED")];
+    char stringpool_str4345[sizeof("EBCDICCPFR")];
+    char stringpool_str4350[sizeof("XMACICELANDIC")];
+    char stringpool_str4361[sizeof("EBCDICCPIS")];
+    char stringpool_str4363[sizeof("EBCDICCPUS")];
+    char stringpool_str4377[sizeof("EBCDICLATIN9EURO")];
+    char stringpool_str4403[sizeof("WINDOWS950")];
+    char stringpool_str4458[sizeof("ISO88599")];
+    char stringpool_str4467[sizeof("MACTURKISH")];
+    char stringpool_str4474[sizeof("WINDOWS1257")];
+    char stringpool_str4500[sizeof("NEXTSTEP")];
+    char stringpool_str4501[sizeof("ISO88597:2003")];
+    char stringpool_str4537[sizeof("JISX02081983")];
+    char stringpool_str4542[sizeof("ISO88597")];
+    char stringpool_str4555[sizeof("SDECKANJI")];
+    char stringpool_str4558[sizeof("EBCDICES284+EURO")];
+    char stringpool_str4562[sizeof("ANSIX3.41968")];
+    char stringpool_str4625[sizeof("ISO88599:1989")];
+    char stringpool_str4657[sizeof("EBCDICNO277+EURO")];
+    char stringpool_str4691[sizeof("CSHALFWIDTHKATAKANA")];
+    char stringpool_str4706[sizeof("BIG5HKSCS:2008")];
+    char stringpool_str4709[sizeof("ISO88597:1987")];
+    char stringpool_str4741[sizeof("EBCDICCPSE")];
+    char stringpool_str4768[sizeof("BIG5HKSCS")];
+    char stringpool_str4813[sizeof("SHIFTJISX0213")];
+    char stringpool_str4854[sizeof("EBCDICFI278+EURO")];
+    char stringpool_str4876[sizeof("EBCDICCPES")];
+    char stringpool_str4884[sizeof("WINDOWS874")];
+    char stringpool_str4909[sizeof("EBCDICIS871+EURO")];
+    char stringpool_str4946[sizeof("EBCDICCPNL")];
+    char stringpool_str4963[sizeof("EBCDICFR297+EURO")];
+    char stringpool_str5037[sizeof("EBCDICSE278+EURO")];
+    char stringpool_str5059[sizeof("XMACTURKISH")];
+    char stringpool_str5087[sizeof("GEORGIANACADEMY")];
+    char stringpool_str5135[sizeof("EBCDICDE273+EURO")];
+    char stringpool_str5140[sizeof("EBCDICCPHE")];
+    char stringpool_str5143[sizeof("BIG5HKSCS:1999")];
+    char stringpool_str5147[sizeof("EBCDICUS37+EURO")];
+    char stringpool_str5159[sizeof("EBCDICCPCH")];
+    char stringpool_str5245[sizeof("WINDOWS936")];
+    char stringpool_str5312[sizeof("GEORGIANPS")];
+    char stringpool_str5326[sizeof("KOKR.JOHAP92")];
+    char stringpool_str5356[sizeof("XMACGREEK")];
+    char stringpool_str5411[sizeof("DECKOREAN")];
+    char stringpool_str5459[sizeof("EBCDICDK277+EURO")];
+    char stringpool_str5487[sizeof("EBCDICCPDK")];
+    char stringpool_str5515[sizeof("UNICODEFFFE")];
+    char stringpool_str5516[sizeof("EBCDICGREEK")];
+    char stringpool_str5533[sizeof("EXTENDEDUNIXCODEPACKEDFORMATFORJAPANESE")];
   };
 static const struct stringpool_t stringpool_contents =
   {
     "MAC",
-    "US",
-    "SJIS",
     "1201",
     "1251",
     "12001",
@@ -959,3189 +968,3374 @@ static const struct stringpool_t stringpool_contents =
     "1250",
     "12000",
     "1255",
-    "CN",
     "425",
+    "CSIBM01141",
     "10010",
     "500",
     "10000",
-    "L2",
+    "CSIBM01140",
     "1254",
     "10005",
+    "CSIBM01145",
     "424",
+    "CSIBM1125",
     "10004",
     "10021",
-    "5601",
     "U32",
     "1025",
-    "CSUCS4",
     "1252",
-    "10081",
     "1361",
     "50221",
-    "L4",
+    "CSIBM01142",
+    "50220",
+    "CSIBM1161",
     "50225",
-    "861",
-    "860",
-    "865",
-    "1258",
-    "CPIS",
-    "864",
-    "16804",
-    "L6",
     "CP500",
     "CP1051",
-    "10082",
     "CP10010",
     "CP1141",
-    "HZ",
+    "50222",
     "CP10000",
+    "CSIBM1162",
     "CP1140",
     "CP10005",
     "CP154",
-    "CYRILLIC",
-    "CSVISCII",
-    "862",
     "CP1201",
-    "838",
-    "MSCYRL",
     "CP1251",
+    "280",
     "CP10004",
     "CP12001",
+    "285",
     "CP1200",
-    "MACCYRILLIC",
     "CP1250",
     "CP12000",
     "CP425",
     "1256",
+    "284",
+    "CP424",
+    "10006",
+    "1046",
+    "CSIBM1026",
+    "CP1161",
+    "CP10021",
+    "282",
+    "1026",
+    "CP1160",
+    "CP65001",
+    "CP65000",
+    "CP1112",
+    "CP50221",
+    "CP1142",
+    "CP50220",
+    "CP50225",
+    "28605",
+    "CP1122",
+    "CP1252",
+    "ISOIR101",
+    "ISOIR110",
+    "ISOIR100",
+    "CP50222",
+    "ISOIR14",
+    "CP10006",
+    "ISOIR144",
+    "CP1162",
+    "646",
+    "CP1156",
+    "CP1146",
+    "5601",
+    "CP1046",
+    "UHC",
+    "ISOIR165",
+    "CP1026",
+    "CP1256",
+    "10081",
+    "ISO10646UCS4",
+    "CSIBM424",
+    "ISO10646UCS2",
+    "CP1166",
+    "10082",
+    "CSIBM280",
+    "CSIBM285",
+    "ASCII",
+    "CSIBM284",
+    "ISOIR126",
     "CP01141",
+    "U8",
     "CP01140",
     "CP850",
-    "CP424",
+    "880",
+    "ISOIR6",
     "CP01145",
     "CP855",
-    "10006",
     "CP1154",
-    "PT154",
-    "1046",
     "CP1144",
     "CP01144",
     "CP280",
-    "CP1161",
-    "CP10021",
-    "L1",
     "CP285",
-    "1026",
     "CP1124",
-    "L3",
-    "L10",
-    "CP1160",
     "CP1254",
+    "ISOIR166",
+    "X0201",
+    "CP284",
+    "CP01142",
+    "CP852",
+    "US",
+    "ISOIR226",
+    "CP861",
     "1141",
-    "CP65001",
+    "CP282",
     "1155",
-    "CP284",
+    "CP860",
     "1140",
-    "CP65000",
-    "CP1112",
-    "CP880",
+    "CP865",
+    "L2",
     "1145",
-    "CP01142",
-    "CP852",
-    "X0201",
-    "CP50221",
+    "CP1164",
     "1154",
-    "CP1142",
+    "X0212",
+    "CP864",
     "1144",
     "1125",
-    "CP50225",
-    "CP861",
-    "CP282",
-    "CP1122",
-    "CP860",
-    "866",
+    "CP16804",
     "1124",
-    "CP1252",
-    "CP865",
     "1112",
-    "CP1164",
+    "R8",
+    "CP28605",
+    "CP862",
     "1142",
-    "CP864",
-    "CP01148",
-    "CP858",
-    "X0212",
+    "L4",
     "1161",
-    "UCS4",
-    "CP16804",
     "1122",
     "1160",
     "1165",
-    "CP10006",
-    "CP862",
-    "CP1162",
-    "924",
-    "1164",
-    "646",
-    "1158",
-    "UCS2",
-    "1148",
-    "871",
-    "870",
-    "932",
-    "875",
     "CP01146",
     "CP856",
+    "IBM01141",
+    "IBM500",
+    "IBM01140",
+    "20866",
+    "1164",
+    "IBM01145",
+    "CSIBM905",
+    "IBM01144",
     "CP1131",
-    "X0208",
-    "922",
     "1162",
-    "20866",
-    "CP866U",
+    "IBM1112",
     "CP1130",
-    "874",
-    "LATIN1",
-    "LATIN10",
+    "861",
+    "IBM01142",
+    "860",
+    "CSPTCP154",
+    "865",
     "U16",
-    "CPGR",
-    "CSPC850MULTILINGUAL",
-    "CP-GR",
     "1156",
+    "IBM1125",
+    "1258",
+    "IBM1025",
+    "CP866",
     "1146",
-    "CSIBM01141",
-    "CSIBM01140",
-    "CSIBM01145",
-    "HP15CN",
-    "CSIBM1125",
-    "278",
+    "864",
+    "16804",
+    "CSIBM500",
+    "IBM1124",
+    "CSIBM01148",
+    "JP",
+    "924",
+    "862",
+    "CN",
+    "IBM1161",
+    "CP1361",
+    "IBM1122",
+    "IBM1160",
+    "IBM1165",
+    "154",
+    "932",
+    "922",
+    "CP1132",
+    "IBM1164",
+    "1166",
+    "CSIBM00924",
+    "PT154",
+    "KSC5601",
+    "CP21866",
+    "CP20866",
+    "IBM01146",
+    "IBM1162",
+    "12712",
+    "CSEUCKR",
+    "CP880",
+    "65001",
+    "65000",
     "CP950",
     "CP1155",
-    "CP866",
     "CP1145",
-    "CP1361",
-    "LATIN4",
-    "1131",
-    "1130",
-    "ASCII",
+    "866",
+    "CSIBM855",
+    "CNGB",
+    "IBM1026",
     "CP1125",
-    "CSASCII",
     "CP1025",
-    "USASCII",
     "CP1255",
-    "1253",
     "936",
-    "CP1132",
-    "MSANSI",
-    "CSIBM01142",
-    "423",
-    "L5",
-    "ISOIR101",
-    "CSIBM1161",
-    "1166",
-    "ISOIR110",
+    "28591",
+    "28595",
     "CP924",
-    "ISOIR100",
-    "LATIN2",
-    "154",
-    "CSISO2022CN",
-    "CSIBM424",
-    "ISOIR14",
-    "ISO2022CN",
-    "1132",
-    "UHC",
-    "ISOIR144",
+    "U32BE",
+    "ISO2022JP1",
+    "28594",
+    "CSUCS4",
+    "ISOIR230",
+    "IBM1166",
     "CP922",
     "CP1165",
-    "CP838",
-    "PTCP154",
-    "CSIBM01148",
-    "850",
-    "CSIBM280",
-    "855",
-    "51950",
-    "CSIBM1162",
-    "CSIBM285",
-    "12712",
+    "CSIBM861",
+    "CSIBM860",
+    "28592",
+    "CSIBM865",
+    "ISO2022JP2004",
     "CP00924",
-    "KSC5601",
-    "CSIBM284",
-    "MS874",
-    "863",
-    "65001",
-    "21866",
-    "65000",
-    "ISOIR165",
-    "ANSI1251",
-    "852",
-    "CSKZ1048",
-    "UCS4LE",
-    "280",
-    "CSIBM1026",
-    "285",
-    "RUSCII",
-    "KOI8U",
-    "ISOIR148",
-    "CP00858",
-    "VISCII",
-    "UCS2LE",
-    "U32LE",
-    "284",
-    "U8",
-    "L8",
-    "880",
-    "CP423",
-    "858",
-    "CYRILLICASIAN",
-    "CYRIILLICASIAN",
-    "CP01143",
-    "CP853",
-    "VISCII1.11",
-    "282",
-    "10029",
-    "CP871",
-    "JP",
-    "CP870",
-    "CP875",
-    "IBM01141",
-    "IBM500",
-    "ISOIR126",
-    "UTF8",
-    "IBM01140",
-    "1153",
-    "LATIN5",
-    "IBM01145",
-    "CP874",
-    "28605",
-    "1143",
-    "CSBIG5",
-    "CSIBM500",
-    "MS936",
-    "856",
+    "CYRILLIC",
+    "CSIBM864",
+    "L6",
+    "ISO2022JP2",
     "CP12712",
-    "IBM01144",
-    "869",
-    "1123",
+    "CP10081",
     "IBM1141",
-    "52936",
-    "CNBIG5",
-    "CP932",
     "IBM1140",
-    "IBM1112",
     "IBM1145",
-    "CP863",
+    "CPGR",
+    "ISOIR148",
     "IBM850",
-    "ISOIR166",
-    "IBM01142",
+    "UCS4",
     "IBM1144",
-    "CP51950",
-    "UTF16",
-    "KOI8RU",
-    "R8",
-    "CP278",
-    "IBM1125",
-    "IBM1025",
+    "CSASCII",
+    "USASCII",
+    "L8",
     "IBM280",
-    "ISOIR226",
-    "CSIBM00924",
-    "1163",
+    "MACARABIC",
+    "UCS2",
     "IBM424",
-    "IBM1124",
+    "CP10082",
     "IBM1142",
-    "U7",
-    "L7",
-    "EUCCN",
-    "950",
-    "273",
-    "775",
-    "IBM880",
-    "CP819",
-    "CP1156",
-    "54936",
-    "CP01149",
-    "IBM01148",
-    "ISOIR230",
-    "CP1146",
-    "CNGB",
-    "CP1046",
-    "CSPTCP154",
-    "IBM1122",
+    "ISOCELTIC",
+    "RUSCII",
+    "28596",
+    "838",
     "IBM861",
-    "UNICODE11",
-    "SYSTEM1125",
-    "IBM284",
+    "871",
+    "870",
+    "CP-GR",
     "IBM860",
-    "CP1026",
-    "MACTHAI",
-    "CP1256",
-    "51932",
-    "ISOIR138",
-    "CP10029",
-    "IBM1148",
-    "CP936",
+    "875",
+    "L1",
+    "L3",
+    "L10",
+    "874",
     "IBM852",
-    "TCVN",
-    "1149",
-    "943",
-    "CP1153",
-    "BIG5",
-    "CP1143",
-    "IBM01146",
-    "1129",
-    "MACINTOSH",
-    "CSPCP852",
+    "CSIBM866",
+    "1131",
+    "1130",
+    "850",
+    "855",
+    "1253",
     "IBM282",
-    "UTF32",
-    "MSEE",
-    "KOI8R",
-    "CP1123",
-    "IBM864",
-    "CP1166",
-    "CP869",
-    "CP1253",
+    "423",
+    "MS874",
     "CSIBM01143",
-    "819",
-    "CP10081",
-    "ISOIR58",
     "IBM1146",
     "IBM1046",
-    "STRK10482002",
-    "U16LE",
-    "CSEUCKR",
-    "28591",
-    "CP943",
-    "CSHPROMAN8",
-    "28595",
-    "1133",
-    "IBM862",
-    "IBM1026",
-    "CP1163",
-    "28594",
-    "CP4971",
     "CP28591",
-    "CSIBM423",
-    "MSKANJI",
-    "CP1158",
-    "CSIBM1163",
+    "1132",
+    "852",
+    "ISO2022JP",
     "CP28595",
-    "CP10082",
+    "IBM862",
+    "21866",
+    "CP28594",
+    "CP01148",
+    "CP858",
+    "MSTURK",
+    "CSIBM1163",
+    "IBM856",
+    "CSIBM880",
+    "CP28592",
+    "CPIS",
+    "CSISO2022JP2",
+    "CP871",
+    "X0208",
+    "CP870",
+    "CP875",
+    "ISO2022KR",
+    "ISO646JP",
+    "CP874",
+    "1158",
+    "LATIN1",
+    "LATIN10",
+    "1148",
+    "856",
+    "CP423",
+    "ISO646.IRV:1991",
+    "IBM866",
+    "51950",
+    "L5",
+    "MSEE",
+    "IBM12712",
+    "ISO2022CN",
+    "CP28596",
+    "IBM00924",
+    "CP1158",
+    "BIG5",
+    "CP866U",
     "CP1148",
     "RK1048",
-    "TIS620",
-    "ARMSCII8",
-    "TIS6200",
-    "CP21866",
-    "CP28594",
-    "28592",
-    "CP20866",
-    "CSGB2312",
+    "TACTIS",
+    "CSBIG5",
+    "IBM880",
+    "ANSI1251",
+    "CSISO2022CN",
+    "28603",
+    "IBM01148",
+    "4971",
+    "ECMA114",
     "IBM1155",
     "CP1258",
-    "437",
-    "1257",
-    "IBMEUCCN",
-    "CCSID01141",
-    "CP51932",
-    "UCS4BE",
-    "CCSID01140",
-    "949",
+    "LATIN2",
     "IBM1154",
-    "CCSID01145",
-    "GEORGIANPS",
-    "10017",
-    "853",
-    "10007",
-    "CP28592",
+    "IBM284",
+    "IBM921",
     "IBM1250",
-    "UCS2BE",
-    "1047",
+    "IBM1131",
     "IBM1255",
-    "U32BE",
-    "CCSID01144",
+    "IBM1130",
     "IBM425",
-    "ISO646US",
-    "28598",
-    "DOS862",
     "IBM1254",
-    "CSIBM01149",
-    "ISOIR203",
-    "IBM855",
-    "ISOCELTIC",
     "ISO646CN",
-    "ISO10646UCS4",
-    "ISO2022JP1",
+    "CSPCP852",
+    "UCS4BE",
+    "IBM864",
+    "U32LE",
+    "IBM1252",
+    "MS936",
+    "CP1153",
+    "IBM1132",
+    "UCS2BE",
+    "CP1143",
+    "ISO2022CNEXT",
+    "278",
+    "52936",
+    "CP932",
+    "KOI8U",
     "CSISO2022JP",
     "ISO2022JPMS",
-    "CCSID01142",
-    "GB2312",
+    "CP1123",
+    "ISOIR203",
+    "CSGB2312",
+    "CP1253",
+    "IBM1168",
+    "ISO646US",
+    "U7",
+    "CSIBM01149",
     "LATIN6",
-    "L9",
-    "CSISO2022JP2",
-    "CP949",
-    "CP28598",
-    "ISO10646UCS2",
-    "IBM1252",
-    "IBM285",
-    "ISO2022JP",
-    "ISO88591",
-    "ISO885911",
-    "IBM924",
-    "MACROMAN",
-    "TIS620.25291",
-    "CNS11643",
-    "ISO885910",
-    "ISO88595",
-    "ISO885915",
-    "CP1133",
+    "950",
+    "CP1157",
+    "775",
+    "CP1147",
+    "IBM922",
+    "CP1047",
+    "CSIBM423",
+    "10029",
+    "CP1149",
+    "U16BE",
+    "UTF16",
+    "CP1257",
+    "XMACCE",
+    "IBM1156",
+    "CP1163",
+    "CP1129",
+    "54936",
+    "MSANSI",
+    "MACTHAI",
+    "437",
+    "1257",
+    "CNGBISOIR165",
+    "CSIBM1047",
+    "ISOIR138",
+    "10017",
+    "IBM1256",
+    "10007",
+    "CSIBM01147",
+    "1047",
     "CSIBM278",
-    "GB231280",
-    "IBM1158",
-    "28596",
+    "CP936",
+    "CSIBM858",
+    "ATARI",
+    "CSKZ1048",
+    "CP51950",
+    "TIS620",
+    "IBM16804",
+    "CP01143",
+    "CP853",
+    "TIS6200",
+    "28598",
+    "50227",
+    "CNBIG5",
+    "MSCYRL",
+    "CSIBM871",
+    "EUCJIS2004",
+    "CSIBM870",
+    "CP278",
+    "CP4971",
+    "LATIN4",
+    "CCSID01141",
+    "CCSID01140",
+    "CCSID01145",
+    "CP775",
+    "CP10017",
+    "HP15CN",
+    "CP10029",
+    "CP10007",
+    "CCSID01144",
+    "1153",
+    "CSEUCTW",
+    "CP51932",
+    "CP863",
+    "1143",
     "CSISO2022KR",
-    "ECMA114",
-    "ISO2022JP2004",
-    "ISO88594",
-    "ISO885914",
+    "EUCJP",
+    "1123",
+    "CSVISCII",
+    "IBM1148",
+    "CCSID01142",
+    "ISOIR58",
+    "CSKOI8U",
+    "KOI8R",
+    "CP28603",
+    "IBM855",
+    "UNICODE11",
     "ISOIR109",
     "ISOIR159",
-    "CCSID01148",
-    "LATIN3",
-    "ISO2022JP2",
     "ISOIR149",
-    "CP51949",
-    "CP273",
-    "CP775",
-    "CP10017",
-    "IBM1258",
+    "IBM285",
+    "1163",
+    "CP838",
+    "IBM871",
+    "IBM924",
+    "IBM870",
+    "IBM01143",
+    "CP50227",
+    "ARABIC",
+    "EUCKR",
+    "VISCII",
+    "PTCP154",
+    "EUCTW",
+    "CSISO14JISC6220RO",
     "CP54936",
-    "IBM922",
-    "CP28596",
     "IBM865",
-    "NEXTSTEP",
-    "CP10007",
-    "10079",
-    "CSIBM905",
-    "ISO88592",
-    "HZGB2312",
+    "ISOIR157",
+    "CCSID01146",
     "CP52936",
-    "JIS0208",
-    "ISOIR6",
+    "CSISO159JISX02121990",
+    "JAVA",
+    "863",
+    "858",
+    "IBM1123",
+    "ISOIR127",
+    "CSIBMTHAI",
+    "CSKOI8RU",
+    "EUCCN",
+    "L9",
+    "273",
+    "CP28598",
+    "IBM1163",
+    "KOI8T",
+    "MSARAB",
+    "51932",
+    "TIS620.25291",
+    "943",
+    "HZ",
+    "CP00858",
+    "CP819",
+    "CP01149",
+    "ARMSCII8",
+    "GB2312",
+    "CYRIILLICASIAN",
+    "CSIBM273",
+    "UTF32",
+    "CSKOI8R",
+    "IBM4971",
+    "UCS4LE",
     "MSHEBR",
-    "CSISO58GB231280",
-    "IBM1156",
-    "IBM1131",
-    "IBM01143",
-    "CCSID00858",
-    "28603",
-    "XMACCYRILLIC",
-    "IBM1130",
-    "51949",
-    "CCSID01146",
+    "CP943",
+    "CSIBM853",
+    "UCS2LE",
+    "IBM423",
+    "LATIN5",
+    "CP1133",
+    "28593",
     "CP01147",
     "CP857",
-    "CP1149",
-    "CSIBM855",
-    "IBM1256",
+    "CP869",
+    "1149",
+    "L7",
+    "IBM932",
+    "CP273",
+    "VISCII1.11",
+    "ISO2022JP3",
+    "1129",
+    "CP1137",
+    "C99",
+    "CP0037",
+    "CSGB18030",
+    "U16LE",
     "ECMA118",
-    "ISO2022CNEXT",
-    "ISO88598",
-    "CP1129",
-    "IBM1143",
-    "HPROMAN8",
-    "TDS565",
-    "CSISO159JISX02121990",
-    "LATIN8",
+    "CSIBM863",
+    "UTF8",
+    "CNS11643",
+    "IBM1158",
     "1157",
     "1147",
-    "IBM1132",
-    "IBM871",
-    "CSIBM880",
-    "IBM1123",
+    "IBM905",
+    "CSIBM037",
+    "IBM1258",
+    "ASMO708",
+    "IBM1143",
+    "IBM01149",
     "PCK",
-    "GB18030",
-    "ISO2022KR",
-    "UNICODEBIG",
-    "CSIBMTHAI",
-    "IBM870",
+    "JOHAB",
+    "DOS862",
     "38598",
-    "KSC56011989",
+    "297",
     "CSISOLATIN1",
-    "TACTIS",
     "CSISOLATIN10",
     "CSISOLATINARABIC",
     "CSISOLATIN5",
     "CSISOLATINCYRILLIC",
-    "ATARI",
-    "CSIBM861",
-    "IBM1161",
-    "CSISO14JISC6220RO",
-    "ISO88596",
-    "ISO885916",
+    "869",
     "CSISOLATIN4",
-    "CSIBM860",
-    "IBM1160",
-    "4971",
-    "CSIBM865",
-    "IBM1165",
-    "367",
-    "CP38598",
+    "IBM1129",
+    "IBMTHAI",
+    "MACROMAN",
+    "IBM01147",
+    "CP10079",
     "CSISOLATIN2",
-    "UCS4INTERNAL",
-    "CSIBM864",
-    "IBM1164",
+    "SJIS",
     "JISX0201",
-    "CSIBM858",
-    "TIS620.25331",
-    "UTF16LE",
-    "TIS620.25330",
-    "UCS2INTERNAL",
-    "IBM905",
-    "KZ1048",
-    "MACARABIC",
-    "U16BE",
-    "IBM01149",
-    "277",
-    "IBM1162",
-    "XMACCE",
-    "UNICODE11UTF7",
-    "MSTURK",
-    "MACTURKISH",
-    "CSISOLATIN6",
-    "IBM932",
-    "CSUNICODE11",
-    "JISX0212",
-    "SHIFTJIS",
-    "IBM1149",
+    "TCVN",
+    "IBM858",
     "CP037",
-    "EUCJP",
-    "CCSID00924",
-    "CSKSC56011987",
-    "MACGREEK",
-    "MSGREEK",
-    "JISX0212.19900",
+    "IBM00858",
+    "MSKANJI",
+    "CP1097",
     "CP437",
-    "IBM921CP28603",
-    "IBM1168",
-    "C99",
-    "BIG5HKSCS",
-    "IBM1129",
-    "ISO646.IRV:1991",
-    "KOI8T",
-    "BIG52003",
-    "CSMACINTOSH",
-    "28593",
-    "CP1157",
-    "SHIFTJIS2004",
-    "JISX0208",
-    "CP1147",
-    "CNGBISOIR165",
-    "CP1047",
-    "CSIBM1047",
-    "IBM856",
-    "IBMCP1133",
-    "CSIBM01147",
-    "CSGB18030",
-    "ISOIR199",
-    "CP1257",
+    "IBM1169",
+    "1133",
+    "853",
+    "SYSTEM1125",
+    "CSISOLATIN6",
+    "10079",
+    "JISX0212",
+    "949",
+    "277",
     "CP28593",
-    "LATIN9",
-    "KSC56011987",
-    "MULELAO1",
-    "CSIBM866",
-    "IBM1166",
+    "737",
+    "GB231280",
     "CP367",
-    "IBM423",
-    "1137",
-    "ASMO708",
-    "CSIBM273",
-    "CSPC8CODEPAGE1144",
-    "IBM1153",
-    "CP297",
-    "DECHANZI",
+    "KOI8RU",
+    "MACCYRILLIC",
+    "XMACTHAI",
     "IBM853",
-    "CSEUCTW",
-    "IBM00924",
-    "UTF32LE",
-    "CCSID01143",
-    "DECHANYU",
-    "737",
-    "ISOIR157",
-    "CSISOLATIN3",
-    "HEBREW",
-    "GEORGIANACADEMY",
+    "ISO88591",
+    "ISO885911",
+    "CP949",
+    "TCVN57121",
+    "ISO885910",
+    "ISO88595",
+    "ISO885915",
+    "CSIBM297",
+    "ISO88594",
+    "ISO885914",
     "MACCROATIAN",
-    "IBM866",
-    "CSWINDOWS1251",
-    "CSWINDOWS1250",
-    "CSWINDOWS1255",
-    "CSISO885915CP28605",
-    "ISOIR127",
-    "CSWINDOWS1254",
-    "EUCKR",
-    "IBMTHAI",
-    "UNICODELITTLE",
-    "CP10079",
-    "CSWINDOWS1252",
-    "TIS620.2533",
-    "CSPC8CODEPAGE1146",
-    "857",
-    "ISO2022JP3",
-    "IBM12712",
-    "IBM875",
+    "TCVN5712",
     "28599",
+    "IBM857",
+    "MACCENTRALEUROPE",
+    "STRK10482002",
+    "CCSID01148",
+    "819",
+    "IBM819",
+    "CSUNICODE11",
+    "ISO88592",
+    "CSIBM277",
+    "GB18030",
+    "JIS0208",
+    "ATARIST",
+    "CSPC862LATINHEBREW",
+    "CSIBM857",
     "IBM863",
-    "ELOT928",
-    "ROMAN8",
-    "CSWINDOWS1258",
-    "ISO88593",
-    "ISO885913",
-    "IBMEUCJP",
-    "IBM16804",
-    "IBM858",
-    "CSWINDOWS874",
-    "UTF7",
-    "IBM00858",
-    "CP28599",
-    "CSKOI8U",
-    "CSWINDOWS1256",
-    "GBK",
-    "ISOIR179",
-    "CSSHIFTJIS",
-    "ISO646JP",
-    "ANSIX3.41968",
-    "CSISO57GB1988",
-    "CCSID01149",
-    "KOREAN",
-    "CP1137",
-    "JISX02121990",
-    "CP0037",
-    "CSIBM037",
-    "CSUNICODE",
+    "CSIBM869",
+    "CP297",
+    "CP38598",
+    "TDS565",
+    "CCSID00924",
+    "28597",
+    "367",
+    "CSPC850MULTILINGUAL",
+    "TIS620.25331",
     "CP277",
-    "CSIBM853",
-    "ANSIX3.41986",
-    "LATIN7",
-    "JAVA",
-    "TCVN57121",
-    "JISX02081990",
-    "CSIBM871",
-    "CSIBM870",
-    "XMACROMANIAN",
-    "EBCDICCPIS",
-    "EBCDICCPUS",
-    "IBM01147",
-    "TCVN5712",
-    "JISX02011976",
-    "EBCDICCPNL",
-    "EBCDICCPYU",
-    "UTF16BE",
-    "ISO88599",
-    "CP1097",
+    "TIS620.25330",
+    "IBM1149",
+    "IBM869",
+    "CSISO58GB231280",
+    "ISOIR199",
+    "JISX0212.19900",
+    "IBM1153",
+    "LATIN8",
+    "MULELAO1",
+    "ISO88596",
+    "ISO885916",
+    "IBM875",
     "ISO885910:1992",
-    "MACUKRAINE",
-    "CSISOLATINGREEK",
-    "IBMEUCKR",
+    "ISOIR179",
+    "UNICODE11UTF7",
+    "BIG52003",
+    "HEBREW",
+    "CYRILLICASIAN",
     "IBM1147",
-    "CSKOI8RU",
     "IBM1047",
-    "IBM943",
-    "CSIBM863",
-    "IBM1163",
-    "CSWINDOWS1253",
-    "ISO88595:1988",
-    "ISO885915:1998",
+    "ISOIR57",
     "CSISOLATINHEBREW",
-    "MACCENTRALEUROPE",
-    "ISO88594:1988",
-    "ISO885914:1998",
-    "ARABIC",
     "ISO885916:2001",
-    "IBM4971",
-    "IBM819",
-    "297",
-    "ISOIR57",
-    "CSIBM297",
-    "ISO88598:1988",
-    "SHIFTJISX0213",
-    "IBM838",
-    "EBCDICCYRILLIC",
-    "UCS4SWAPPED",
-    "XMACICELANDIC",
-    "UCS2SWAPPED",
-    "JISC62261983",
-    "CSUNICODE11UTF7",
-    "CP737",
-    "MACICELAND",
-    "CSKOI8R",
-    "IBM869",
+    "XMACARABIC",
+    "IBM037",
     "GB18030:2005",
-    "EUCJIS2004",
-    "JISC62201969RO",
-    "UTF32BE",
-    "CSIBM869",
-    "IBM1169",
-    "GB198880",
-    "BIGFIVE",
-    "GB18030:2022",
-    "JISX02081983",
-    "XMACTHAI",
-    "GREEK",
-    "28597",
+    "IBM437",
+    "UTF16LE",
+    "IBMCP1133",
     "CHINESE",
-    "MSARAB",
-    "IBM273",
-    "CSPC8CODEPAGE437",
+    "IBMEUCJP",
+    "GB18030:2022",
+    "LATIN3",
+    "MACROMANIA",
+    "MACGREEK",
+    "MSGREEK",
+    "CP28599",
+    "KSC56011989",
+    "LATIN7",
+    "EUCJISX0213",
+    "IBM367",
+    "IBM278",
+    "1137",
+    "CSPC775BALTIC",
+    "857",
+    "LATIN9",
+    "CSISO885915",
+    "ISOIR87",
+    "KSC56011987",
+    "IBMEUCKR",
+    "CP51949",
+    "IBMEUCTW",
+    "ISO88598I",
+    "GBK",
+    "WINBALTRIM",
     "CP28597",
-    "EBCDICCPGR",
-    "ISO88593:1988",
-    "CSIBM277",
-    "BIG5HKSCS:2001",
+    "IBM943",
+    "JISC62201969RO",
+    "CCSID00858",
+    "CSISOLATIN3",
+    "ROMAN8",
+    "IBMEUCCN",
+    "CSPC8CODEPAGE1144",
+    "IBM273",
+    "IBM297",
+    "51949",
+    "IBM838",
+    "CCSID01143",
+    "IBM277",
+    "KOREAN",
+    "CSMACINTOSH",
+    "MACICELAND",
+    "CSUNICODE",
+    "CSPC8CODEPAGE1146",
+    "XMACCYRILLIC",
+    "IBM1097",
+    "XCP50227",
+    "ISO88595:1988",
+    "ISO885915:1998",
+    "ISO88594:1988",
+    "ISO885914:1998",
+    "ELOT928",
+    "KZ1048",
+    "CSKSC56011987",
+    "CSISOLATINGREEK",
+    "CSWINDOWS1251",
+    "XMACUKRAINIAN",
+    "CSWINDOWS1250",
+    "CSWINDOWS1255",
+    "UTF7",
+    "DECHANZI",
+    "CSWINDOWS1254",
     "IBM1157",
     "IBM775",
-    "EBCDICCPES",
-    "BIG5HKSCS:2004",
-    "CCSID01147",
-    "CSWINDOWS1257",
-    "IBM857",
-    "EBCDICCPCH",
+    "CSWINDOWS1252",
+    "JISX0208",
     "IBM1257",
-    "XMACUKRAINIAN",
-    "SDECKANJI",
-    "IBM278",
-    "BIG5HKSCS:2008",
+    "IBM1137",
+    "UNICODELITTLE",
+    "DECKANJI",
+    "JISX02121990",
+    "CSWINDOWS1256",
+    "XMACCROATIAN",
+    "HPROMAN8",
+    "UCS4INTERNAL",
+    "CP737",
+    "UCS2INTERNAL",
+    "UNICODEBIG",
+    "TIS620.2533",
+    "JISX02011976",
+    "EBCDICCPIT",
+    "TCVN57121:1993",
     "WINDOWS1251",
     "WINDOWS1250",
     "WINDOWS1255",
-    "MACROMANIA",
+    "ISO88598",
     "WINDOWS1254",
-    "CSPC862LATINHEBREW",
     "WINDOWS1252",
-    "ISO88597",
-    "JOHAB",
-    "WINDOWS1258",
-    "EBCDICCPFI",
+    "EBCDICCPTR",
+    "UTF32LE",
+    "SHIFTJIS2004",
+    "EBCDICIT280+EURO",
+    "MACUKRAINE",
+    "CCSID01149",
     "WINDOWS1256",
-    "EUCTW",
-    "IBM1137",
-    "CSIBM857",
-    "ISO88591:1987",
-    "IBM037",
-    "CSPC775BALTIC",
-    "IBM437",
-    "XMACTURKISH",
-    "ISO88592:1987",
-    "CSISO87JISX0208",
-    "CCSID853",
-    "ISOIR87",
-    "ISO88596:1987",
-    "IBM367",
-    "KOKR.JOHAP92",
-    "WINDOWS1253",
-    "GREEK8",
-    "EUCJISX0213",
-    "IBM297",
-    "EBCDICCPSE",
-    "BIG5HKSCS:1999",
-    "MACHEBREW",
-    "ISO88599:1989",
-    "DECKANJI",
+    "GREEK",
+    "CSUNICODE11UTF7",
     "RISCOSLATIN1",
-    "WINDOWS950",
-    "IBMEUCTW",
-    "EBCDICCPTR",
-    "EBCDICCPFR",
-    "WINBALTRIM",
-    "EBCDICCPNO",
-    "IBM1097",
-    "EBCDICES284+EURO",
-    "XMACCROATIAN",
-    "ISO88597:2003",
-    "EBCDICCPHE",
-    "EBCDICCPIT",
-    "DECKOREAN",
-    "IBM277",
-    "EXTENDEDUNIXCODEPACKEDFORMATFORJAPANESE",
-    "EBCDICCPROECE",
-    "TCVN57121:1993",
+    "UTF16BE",
+    "EBCDICCYRILLIC",
+    "ISO88598:1988",
+    "CCSID01147",
+    "CSISO57GB1988",
+    "BIGFIVE",
+    "JISC62261983",
     "EBCDICCPGB",
-    "EBCDICIT280+EURO",
-    "EBCDICGB285+EURO",
-    "ATARIST",
-    "WINDOWS1257",
-    "XMACARABIC",
+    "ISO88591:1987",
+    "CSWINDOWS1258",
+    "CSWINDOWS874",
+    "ISO88592:1987",
+    "HZGB2312",
+    "XMACROMANIAN",
     "CSEUCPKDFMTJAPANESE",
-    "EBCDICIS871+EURO",
-    "WINDOWS874",
-    "EBCDICCPCA",
-    "ISO88597:1987",
+    "JISX02081990",
+    "EBCDICCPYU",
+    "EBCDICCPROECE",
+    "ISO88596:1987",
+    "XMACHEBREW",
     "IBM737",
+    "ISO88593:1988",
+    "WINDOWS1258",
+    "EBCDICCPWT",
+    "EBCDICCPNO",
+    "EBCDICCPFI",
+    "CSWINDOWS1253",
+    "ISO88593",
+    "ISO885913",
+    "DECHANYU",
     "EBCDICCPBE",
+    "EBCDICCPGR",
+    "MACINTOSH",
+    "CSPC8CODEPAGE437",
+    "MACHEBREW",
+    "CSSHIFTJIS",
+    "EBCDICGB285+EURO",
+    "EBCDICCPCA",
+    "CSHPROMAN8",
+    "GB198880",
+    "WINDOWS1253",
+    "SHIFTJIS",
+    "ANSIX3.41986",
+    "CCSID853",
+    "CSISO87JISX0208",
+    "BIG5HKSCS:2001",
+    "GREEK8",
+    "CSWINDOWS1257",
+    "BIG5HKSCS:2004",
+    "UTF32BE",
+    "UCS4SWAPPED",
     "EBCDICINTERNATIONAL500+EURO",
-    "WINDOWS936",
-    "XMACGREEK",
-    "EBCDICUS37+EURO",
-    "EBCDICSE278+EURO",
-    "EBCDICGREEK",
+    "UCS2SWAPPED",
+    "EBCDICCPFR",
+    "XMACICELANDIC",
+    "EBCDICCPIS",
+    "EBCDICCPUS",
     "EBCDICLATIN9EURO",
+    "WINDOWS950",
+    "ISO88599",
+    "MACTURKISH",
+    "WINDOWS1257",
+    "NEXTSTEP",
+    "ISO88597:2003",
+    "JISX02081983",
+    "ISO88597",
+    "SDECKANJI",
+    "EBCDICES284+EURO",
+    "ANSIX3.41968",
+    "ISO88599:1989",
     "EBCDICNO277+EURO",
-    "EBCDICFR297+EURO",
-    "EBCDICCPWT",
-    "EBCDICFI278+EURO",
-    "XMACHEBREW",
     "CSHALFWIDTHKATAKANA",
-    "EBCDICCPDK",
+    "BIG5HKSCS:2008",
+    "ISO88597:1987",
+    "EBCDICCPSE",
+    "BIG5HKSCS",
+    "SHIFTJISX0213",
+    "EBCDICFI278+EURO",
+    "EBCDICCPES",
+    "WINDOWS874",
+    "EBCDICIS871+EURO",
+    "EBCDICCPNL",
+    "EBCDICFR297+EURO",
+    "EBCDICSE278+EURO",
+    "XMACTURKISH",
+    "GEORGIANACADEMY",
     "EBCDICDE273+EURO",
-    "EBCDICDK277+EURO"
+    "EBCDICCPHE",
+    "BIG5HKSCS:1999",
+    "EBCDICUS37+EURO",
+    "EBCDICCPCH",
+    "WINDOWS936",
+    "GEORGIANPS",
+    "KOKR.JOHAP92",
+    "XMACGREEK",
+    "DECKOREAN",
+    "EBCDICDK277+EURO",
+    "EBCDICCPDK",
+    "UNICODEFFFE",
+    "EBCDICGREEK",
+    "EXTENDEDUNIXCODEPACKEDFORMATFORJAPANESE"
   };
 #define stringpool ((const char *) &stringpool_contents)
 
 static const struct alias aliases[] =
   {
     {-1}, {-1}, {-1}, {-1},
-#line 355 "lib/generated/aliases.gperf"
+#line 366 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4, ei_mac_roman},
-    {-1},
-#line 21 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str6, ei_ascii},
-#line 84 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str7, ei_sjis},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 38 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 39 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str22, ei_ucs2be},
     {-1}, {-1},
-#line 296 "lib/generated/aliases.gperf"
+#line 307 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str25, ei_cp1251},
-#line 47 "lib/generated/aliases.gperf"
+#line 48 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str26, ei_ucs4be},
     {-1},
-#line 42 "lib/generated/aliases.gperf"
+#line 43 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str28, ei_ucs2le},
     {-1}, {-1},
-#line 290 "lib/generated/aliases.gperf"
+#line 301 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str31, ei_cp1250},
-#line 51 "lib/generated/aliases.gperf"
+#line 52 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str32, ei_ucs4le},
     {-1}, {-1}, {-1}, {-1},
-#line 319 "lib/generated/aliases.gperf"
+#line 330 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str37, ei_cp1255},
-#line 475 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str38, ei_iso646_cn},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 646 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 657 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str45, ei_ebcdic425},
-    {-1}, {-1},
-#line 374 "lib/generated/aliases.gperf"
+    {-1},
+#line 744 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str47, ei_ebcdic1141},
+#line 385 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str48, ei_mac_romania},
-#line 652 "lib/generated/aliases.gperf"
+#line 663 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str49, ei_ebcdic500},
     {-1},
-#line 358 "lib/generated/aliases.gperf"
+#line 369 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str51, ei_mac_roman},
-    {-1}, {-1},
-#line 178 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str54, ei_iso8859_2},
-#line 313 "lib/generated/aliases.gperf"
+    {-1},
+#line 736 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str53, ei_ebcdic1140},
+    {-1},
+#line 324 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str55, ei_cp1254},
     {-1},
-#line 394 "lib/generated/aliases.gperf"
+#line 405 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str57, ei_mac_hebrew},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 643 "lib/generated/aliases.gperf"
+    {-1},
+#line 778 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str59, ei_ebcdic1145},
+    {-1}, {-1}, {-1},
+#line 654 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str63, ei_ebcdic424},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1},
-#line 398 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1},
+#line 594 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str68, ei_cp1125},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 409 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str75, ei_mac_arabic},
-#line 402 "lib/generated/aliases.gperf"
+#line 413 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str76, ei_mac_thai},
-#line 147 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str77, ei_euc_kr},
-    {-1},
-#line 59 "lib/generated/aliases.gperf"
+    {-1}, {-1},
+#line 60 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str79, ei_utf32},
     {-1}, {-1}, {-1}, {-1},
-#line 691 "lib/generated/aliases.gperf"
+#line 702 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str84, ei_ebcdic1025},
-    {-1}, {-1}, {-1}, {-1},
-#line 45 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str89, ei_ucs4},
-    {-1}, {-1}, {-1},
-#line 302 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 313 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str93, ei_cp1252},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1},
-#line 390 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str106, ei_mac_turkish},
-    {-1},
-#line 156 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 164 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str108, ei_johab},
     {-1}, {-1}, {-1}, {-1},
-#line 98 "lib/generated/aliases.gperf"
+#line 103 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str113, ei_iso2022_jpms},
+    {-1},
+#line 753 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str115, ei_ebcdic1142},
+    {-1}, {-1}, {-1},
+#line 95 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str119, ei_iso2022_jp},
+#line 518 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str120, ei_cp1161},
     {-1}, {-1}, {-1}, {-1},
-#line 194 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str118, ei_iso8859_4},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 160 "lib/generated/aliases.gperf"
+#line 168 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str125, ei_iso2022_kr},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 558 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str131, ei_cp861},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 554 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str137, ei_cp860},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 571 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str143, ei_cp865},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 336 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str153, ei_cp1258},
-    {-1},
-#line 560 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str155, ei_cp861},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 569 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str161, ei_cp864},
-    {-1}, {-1}, {-1}, {-1},
-#line 840 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str166, ei_ebcdic16804},
-#line 246 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str167, ei_iso8859_10},
-    {-1}, {-1}, {-1},
-#line 651 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 662 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str171, ei_ebcdic500},
-#line 407 "lib/generated/aliases.gperf"
+#line 418 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str172, ei_hp_roman8},
-    {-1},
-#line 370 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str174, ei_mac_croatian},
-    {-1},
-#line 373 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1},
+#line 384 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str176, ei_mac_romania},
     {-1},
-#line 734 "lib/generated/aliases.gperf"
+#line 745 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str178, ei_ebcdic1141},
     {-1}, {-1},
-#line 121 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str181, ei_hz},
+#line 97 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str181, ei_iso2022_jp},
     {-1}, {-1}, {-1},
-#line 357 "lib/generated/aliases.gperf"
+#line 368 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str185, ei_mac_roman},
-    {-1}, {-1}, {-1}, {-1},
-#line 726 "lib/generated/aliases.gperf"
+    {-1}, {-1},
+#line 522 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str188, ei_cp1162},
+    {-1},
+#line 737 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str190, ei_ebcdic1140},
-#line 393 "lib/generated/aliases.gperf"
+#line 404 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str191, ei_mac_hebrew},
-#line 419 "lib/generated/aliases.gperf"
+#line 430 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str192, ei_pt154},
-    {-1}, {-1},
-#line 201 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str195, ei_iso8859_5},
-    {-1},
-#line 444 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str197, ei_viscii},
-    {-1},
-#line 342 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str199, ei_cp862},
-#line 37 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 38 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str200, ei_ucs2be},
-#line 657 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str201, ei_ebcdic838},
-#line 293 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str202, ei_cp1251},
-#line 295 "lib/generated/aliases.gperf"
+    {-1}, {-1},
+#line 306 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str203, ei_cp1251},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 397 "lib/generated/aliases.gperf"
+    {-1},
+#line 626 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str205, ei_ebcdic280},
+    {-1}, {-1}, {-1},
+#line 408 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str209, ei_mac_arabic},
-#line 48 "lib/generated/aliases.gperf"
+#line 49 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str210, ei_ucs4be},
-    {-1},
-#line 41 "lib/generated/aliases.gperf"
+#line 639 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str211, ei_ebcdic285},
+#line 42 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str212, ei_ucs2le},
-    {-1},
-#line 375 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str214, ei_mac_cyrillic},
-#line 285 "lib/generated/aliases.gperf"
+    {-1}, {-1},
+#line 296 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str215, ei_cp1250},
-#line 50 "lib/generated/aliases.gperf"
+#line 51 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str216, ei_ucs4le},
-#line 645 "lib/generated/aliases.gperf"
+#line 656 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str217, ei_ebcdic425},
     {-1}, {-1}, {-1},
-#line 325 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str221, ei_cp1256},
-    {-1}, {-1}, {-1},
-#line 731 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str225, ei_ebcdic1141},
+#line 336 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str221, ei_cp1256},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 634 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str229, ei_ebcdic284},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 723 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str231, ei_ebcdic1140},
-#line 340 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str232, ei_cp850},
-    {-1}, {-1},
-#line 642 "lib/generated/aliases.gperf"
+#line 653 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str235, ei_ebcdic424},
-    {-1},
-#line 765 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str237, ei_ebcdic1145},
-#line 541 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str238, ei_cp855},
-    {-1}, {-1},
-#line 386 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str241, ei_mac_greek},
-#line 806 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str242, ei_ebcdic1154},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 413 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str248, ei_pt154},
-#line 499 "lib/generated/aliases.gperf"
+#line 397 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str241, ei_mac_greek},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 510 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str249, ei_cp1046},
-    {-1},
-#line 760 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str251, ei_ebcdic1144},
-    {-1}, {-1}, {-1},
-#line 757 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str255, ei_ebcdic1144},
-    {-1}, {-1}, {-1}, {-1},
-#line 614 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str260, ei_ebcdic280},
-#line 508 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 704 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str255, ei_ebcdic1026},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 519 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str261, ei_cp1161},
-#line 401 "lib/generated/aliases.gperf"
+#line 412 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str262, ei_mac_thai},
-    {-1}, {-1},
-#line 168 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str265, ei_iso8859_1},
-#line 625 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str266, ei_ebcdic285},
-    {-1},
-#line 695 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1},
+#line 628 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str267, ei_ebcdic282},
+#line 706 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str268, ei_ebcdic1026},
-    {-1},
-#line 501 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str270, ei_cp1124},
-#line 186 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str271, ei_iso8859_3},
-#line 272 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str272, ei_iso8859_16},
-#line 821 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1},
+#line 832 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str273, ei_ebcdic1160},
-    {-1}, {-1},
-#line 312 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str276, ei_cp1254},
-    {-1}, {-1},
-#line 735 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str279, ei_ebcdic1141},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
 #line 28 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str280, ei_utf8},
-    {-1},
-#line 810 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str282, ei_ebcdic1155},
-    {-1},
-#line 622 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str284, ei_ebcdic284},
-#line 727 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str285, ei_ebcdic1140},
-#line 68 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 69 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str286, ei_utf7},
     {-1}, {-1},
-#line 703 "lib/generated/aliases.gperf"
+#line 714 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str289, ei_ebcdic1112},
-#line 676 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str290, ei_ebcdic880},
-#line 769 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str291, ei_ebcdic1145},
-    {-1},
-#line 739 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str293, ei_ebcdic1142},
-#line 532 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str294, ei_cp852},
-    {-1},
-#line 456 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str296, ei_jisx0201},
-    {-1}, {-1},
-#line 97 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 102 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str299, ei_iso2022_jpms},
-#line 807 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str300, ei_ebcdic1154},
-    {-1}, {-1}, {-1},
-#line 743 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str304, ei_ebcdic1142},
     {-1}, {-1}, {-1}, {-1},
-#line 761 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str309, ei_ebcdic1144},
-#line 581 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str310, ei_cp1125},
-#line 159 "lib/generated/aliases.gperf"
+#line 754 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str304, ei_ebcdic1142},
+#line 94 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str305, ei_iso2022_jp},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 167 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str311, ei_iso2022_kr},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 559 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str318, ei_cp861},
-    {-1}, {-1}, {-1},
-#line 618 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str322, ei_ebcdic282},
-#line 706 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str323, ei_ebcdic1122},
-#line 556 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str324, ei_cp860},
     {-1}, {-1},
-#line 347 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str327, ei_cp866},
-#line 502 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str328, ei_cp1124},
-#line 301 "lib/generated/aliases.gperf"
+#line 278 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str314, ei_iso8859_15},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 717 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str323, ei_ebcdic1122},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 312 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str329, ei_cp1252},
-#line 573 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str330, ei_cp865},
-    {-1},
-#line 704 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str332, ei_ebcdic1112},
-    {-1},
-#line 824 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str334, ei_ebcdic1164},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1},
-#line 744 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str347, ei_ebcdic1142},
-#line 568 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str348, ei_cp864},
-    {-1}, {-1}, {-1}, {-1},
-#line 789 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str353, ei_ebcdic1148},
-#line 549 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str354, ei_cp858},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 469 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str361, ei_jisx0212},
-#line 509 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str362, ei_cp1161},
-    {-1},
-#line 43 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str364, ei_ucs4},
-#line 839 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str365, ei_ebcdic16804},
-#line 707 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str366, ei_ebcdic1122},
-    {-1},
-#line 822 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str368, ei_ebcdic1160},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 828 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str374, ei_ebcdic1165},
-#line 385 "lib/generated/aliases.gperf"
+#line 184 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str344, ei_iso8859_2},
+    {-1}, {-1},
+#line 200 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str347, ei_iso8859_4},
+    {-1}, {-1},
+#line 173 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str350, ei_iso8859_1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 96 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str367, ei_iso2022_jp},
+    {-1}, {-1},
+#line 462 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str370, ei_iso646_jp},
+    {-1}, {-1}, {-1}, {-1},
+#line 396 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str375, ei_mac_greek},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 345 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str386, ei_cp862},
-#line 512 "lib/generated/aliases.gperf"
+#line 208 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str386, ei_iso8859_5},
+#line 523 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str387, ei_cp1162},
-    {-1},
-#line 688 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str389, ei_ebcdic924},
-    {-1}, {-1},
-#line 825 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str392, ei_ebcdic1164},
-    {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
 #line 25 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str395, ei_ascii},
-    {-1}, {-1},
-#line 819 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str398, ei_ebcdic1158},
-    {-1}, {-1}, {-1},
-#line 30 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str402, ei_ucs2},
-    {-1}, {-1}, {-1}, {-1},
-#line 793 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str407, ei_ebcdic1148},
-#line 668 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str408, ei_ebcdic871},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 663 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str414, ei_ebcdic870},
-    {-1}, {-1}, {-1},
-#line 90 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str418, ei_cp932},
-    {-1},
-#line 672 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str420, ei_ebcdic875},
-#line 773 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str421, ei_ebcdic1146},
-#line 489 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str422, ei_cp856},
-#line 351 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str423, ei_cp1131},
-#line 462 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str424, ei_jisx0208},
-    {-1}, {-1},
-#line 493 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str427, ei_cp922},
-    {-1}, {-1},
-#line 513 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str430, ei_cp1162},
-#line 277 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str431, ei_koi8_r},
-    {-1},
-#line 585 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str433, ei_cp1125},
-    {-1},
-#line 712 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str435, ei_ebcdic1130},
-    {-1}, {-1},
-#line 441 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str438, ei_cp874},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1},
-#line 167 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str450, ei_iso8859_1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 271 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str457, ei_iso8859_16},
-    {-1}, {-1}, {-1},
-#line 53 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str461, ei_utf16},
-#line 576 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str462, ei_cp869},
-#line 339 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str463, ei_cp850},
-#line 579 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str464, ei_cp869},
-    {-1},
-#line 813 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str466, ei_ebcdic1156},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 777 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str475, ei_ebcdic1146},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 823 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str423, ei_ebcdic1156},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 733 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str484, ei_ebcdic1141},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 725 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str490, ei_ebcdic1140},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 767 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str496, ei_ebcdic1145},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 105 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str502, ei_euc_cn},
-    {-1}, {-1},
-#line 583 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str505, ei_cp1125},
-#line 610 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str506, ei_ebcdic278},
-    {-1}, {-1},
-#line 136 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str509, ei_cp950},
-#line 809 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str510, ei_ebcdic1155},
-    {-1}, {-1}, {-1},
-#line 349 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str514, ei_cp866},
-    {-1}, {-1}, {-1}, {-1},
-#line 768 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str519, ei_ebcdic1145},
+#line 787 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str432, ei_ebcdic1146},
     {-1},
 #line 155 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str521, ei_johab},
-    {-1},
-#line 193 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str523, ei_iso8859_4},
-#line 352 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str524, ei_cp1131},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 713 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str530, ei_ebcdic1130},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 14 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str537, ei_ascii},
-#line 586 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str538, ei_cp1125},
-    {-1},
-#line 22 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str540, ei_ascii},
-#line 690 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str541, ei_ebcdic1025},
-#line 13 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str542, ei_ascii},
-    {-1},
-#line 318 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str544, ei_cp1255},
-#line 307 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str545, ei_cp1253},
-#line 111 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str546, ei_cp936},
-    {-1}, {-1},
-#line 715 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str549, ei_ebcdic1132},
-    {-1},
-#line 300 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str551, ei_cp1252},
-#line 742 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str552, ei_ebcdic1142},
-#line 638 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str553, ei_ebcdic423},
-    {-1},
-#line 238 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str555, ei_iso8859_9},
-#line 176 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str556, ei_iso8859_2},
-#line 507 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str557, ei_cp1161},
-#line 831 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str558, ei_ebcdic1166},
-#line 192 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str559, ei_iso8859_4},
-    {-1},
-#line 687 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str561, ei_ebcdic924},
-#line 165 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str562, ei_iso8859_1},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str434, ei_euc_kr},
+#line 509 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str435, ei_cp1046},
+    {-1}, {-1}, {-1},
+#line 158 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str439, ei_cp949},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1},
-#line 177 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str576, ei_iso8859_2},
-#line 420 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str577, ei_pt154},
-    {-1},
-#line 119 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str579, ei_iso2022_cn},
-#line 641 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str580, ei_ebcdic424},
-    {-1},
-#line 451 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str582, ei_iso646_jp},
+    {-1}, {-1},
+#line 491 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str451, ei_isoir165},
+    {-1}, {-1},
+#line 705 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str454, ei_ebcdic1026},
+    {-1}, {-1},
+#line 335 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str457, ei_cp1256},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 118 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str588, ei_iso2022_cn},
-    {-1}, {-1}, {-1},
-#line 716 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str592, ei_ebcdic1132},
+#line 401 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str463, ei_mac_turkish},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 150 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str594, ei_cp949},
+#line 45 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str483, ei_ucs4},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 652 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str500, ei_ebcdic424},
+    {-1},
+#line 31 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str502, ei_ucs2},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1},
-#line 200 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str598, ei_iso8859_5},
-#line 492 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str599, ei_cp922},
+#line 841 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str515, ei_ebcdic1166},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 381 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str531, ei_mac_croatian},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 624 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str540, ei_ebcdic280},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 638 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str546, ei_ebcdic285},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 827 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str602, ei_ebcdic1165},
+#line 14 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str558, ei_ascii},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 656 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str608, ei_ebcdic838},
-    {-1},
-#line 414 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str610, ei_pt154},
+#line 632 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str564, ei_ebcdic284},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 225 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str571, ei_iso8859_7},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 791 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str612, ei_ebcdic1148},
+#line 742 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str582, ei_ebcdic1141},
     {-1}, {-1}, {-1}, {-1},
-#line 338 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str617, ei_cp850},
-    {-1}, {-1},
-#line 613 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str620, ei_ebcdic280},
+#line 27 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str587, ei_utf8},
+#line 734 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str588, ei_ebcdic1140},
+#line 351 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str589, ei_cp850},
     {-1}, {-1},
-#line 539 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str623, ei_cp855},
-#line 130 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str624, ei_euc_tw},
-#line 511 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str625, ei_cp1162},
-#line 627 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str626, ei_ebcdic285},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 837 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str632, ei_ebcdic12712},
-#line 684 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str633, ei_ebcdic924},
+#line 688 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str592, ei_ebcdic880},
+#line 17 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str593, ei_ascii},
+#line 776 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str594, ei_ebcdic1145},
+#line 552 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str595, ei_cp855},
+    {-1}, {-1}, {-1},
+#line 817 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str599, ei_ebcdic1154},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 771 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str608, ei_ebcdic1144},
+    {-1}, {-1}, {-1},
+#line 768 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str612, ei_ebcdic1144},
     {-1}, {-1}, {-1}, {-1},
-#line 482 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str638, ei_ksc5601},
+#line 625 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str617, ei_ebcdic280},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 621 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str644, ei_ebcdic284},
-    {-1},
-#line 439 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str646, ei_cp874},
-    {-1}, {-1}, {-1}, {-1},
-#line 563 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str651, ei_cp863},
-    {-1},
-#line 29 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str653, ei_utf8},
+#line 636 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str623, ei_ebcdic285},
     {-1}, {-1}, {-1},
-#line 284 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str657, ei_koi8_ru},
+#line 512 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str627, ei_cp1124},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 323 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str633, ei_cp1254},
     {-1},
-#line 69 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str659, ei_utf7},
-    {-1}, {-1}, {-1},
-#line 480 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str663, ei_isoir165},
+#line 445 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str635, ei_tis620},
+    {-1},
+#line 467 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str637, ei_jisx0201},
     {-1}, {-1}, {-1},
-#line 294 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str667, ei_cp1251},
+#line 633 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str641, ei_ebcdic284},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 750 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str650, ei_ebcdic1142},
+#line 543 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str651, ei_cp852},
+    {-1}, {-1}, {-1}, {-1},
+#line 21 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str656, ei_ascii},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 281 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str663, ei_iso8859_16},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 530 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str679, ei_cp852},
-#line 424 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str680, ei_rk1048},
+#line 570 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str675, ei_cp861},
     {-1},
-#line 49 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str682, ei_ucs4le},
-    {-1}, {-1}, {-1}, {-1},
-#line 615 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str687, ei_ebcdic280},
-    {-1}, {-1}, {-1}, {-1},
-#line 693 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str692, ei_ebcdic1026},
-#line 628 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str693, ei_ebcdic285},
+#line 746 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str677, ei_ebcdic1141},
+    {-1},
+#line 629 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str679, ei_ebcdic282},
+#line 821 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str680, ei_ebcdic1155},
+#line 567 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str681, ei_cp860},
+    {-1},
+#line 738 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str683, ei_ebcdic1140},
+    {-1}, {-1}, {-1},
 #line 584 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str694, ei_cp1125},
-#line 278 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str695, ei_koi8_u},
-#line 236 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str696, ei_iso8859_9},
-#line 551 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str697, ei_cp858},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str687, ei_cp865},
+#line 186 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str688, ei_iso8859_2},
+#line 780 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str689, ei_ebcdic1145},
     {-1},
-#line 442 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str699, ei_viscii},
+#line 835 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str691, ei_ebcdic1164},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 818 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str698, ei_ebcdic1154},
+    {-1}, {-1}, {-1},
+#line 480 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str702, ei_jisx0212},
+    {-1}, {-1},
+#line 579 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str705, ei_cp864},
     {-1},
-#line 39 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str701, ei_ucs2le},
-    {-1}, {-1}, {-1}, {-1},
-#line 63 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str706, ei_utf32le},
+#line 772 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str707, ei_ebcdic1144},
+#line 592 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str708, ei_cp1125},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1},
-#line 623 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str711, ei_ebcdic284},
-#line 27 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str712, ei_utf8},
-#line 259 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str713, ei_iso8859_14},
+#line 850 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str722, ei_ebcdic16804},
     {-1}, {-1}, {-1},
-#line 677 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str717, ei_ebcdic880},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 637 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str725, ei_ebcdic423},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 513 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str726, ei_cp1124},
+    {-1}, {-1}, {-1},
+#line 715 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str730, ei_ebcdic1112},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 416 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str736, ei_hp_roman8},
+    {-1},
+#line 277 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str738, ei_iso8859_15},
     {-1}, {-1}, {-1}, {-1},
-#line 547 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str739, ei_cp858},
+#line 356 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str743, ei_cp862},
     {-1},
-#line 415 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str741, ei_pt154},
-#line 418 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str742, ei_pt154},
-    {-1}, {-1},
-#line 748 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str745, ei_ebcdic1143},
-#line 537 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str746, ei_cp853},
-#line 443 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str747, ei_viscii},
+#line 755 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str745, ei_ebcdic1142},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 202 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str752, ei_iso8859_4},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 520 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str760, ei_cp1161},
+    {-1}, {-1}, {-1},
+#line 718 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str764, ei_ebcdic1122},
     {-1},
-#line 617 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str749, ei_ebcdic282},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 362 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str758, ei_mac_centraleurope},
+#line 833 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str766, ei_ebcdic1160},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 667 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str764, ei_ebcdic871},
-    {-1}, {-1},
-#line 452 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str767, ei_iso646_jp},
-    {-1}, {-1},
-#line 659 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str770, ei_ebcdic870},
+#line 839 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str772, ei_ebcdic1165},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 671 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str776, ei_ebcdic875},
-    {-1}, {-1}, {-1}, {-1},
-#line 729 "lib/generated/aliases.gperf"
+#line 784 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str778, ei_ebcdic1146},
+#line 500 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str779, ei_cp856},
+    {-1},
+#line 740 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str781, ei_ebcdic1141},
-#line 647 "lib/generated/aliases.gperf"
+#line 658 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str782, ei_ebcdic500},
-#line 217 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str783, ei_iso8859_7},
-    {-1},
-#line 26 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str785, ei_utf8},
-    {-1},
-#line 721 "lib/generated/aliases.gperf"
+    {-1}, {-1}, {-1}, {-1},
+#line 732 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str787, ei_ebcdic1140},
-    {-1}, {-1},
-#line 804 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str790, ei_ebcdic1153},
-#line 237 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str791, ei_iso8859_9},
-    {-1},
-#line 763 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str793, ei_ebcdic1145},
-#line 440 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str794, ei_cp874},
-    {-1},
-#line 267 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str796, ei_iso8859_15},
-    {-1}, {-1},
-#line 753 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str799, ei_ebcdic1143},
+#line 288 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str788, ei_koi8_r},
     {-1},
-#line 134 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str801, ei_ces_big5},
-#line 650 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str802, ei_ebcdic500},
+#line 836 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str790, ei_ebcdic1164},
     {-1}, {-1},
-#line 108 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str805, ei_cp936},
+#line 774 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str793, ei_ebcdic1145},
     {-1},
-#line 490 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str807, ei_cp856},
-    {-1}, {-1},
-#line 836 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str810, ei_ebcdic12712},
-#line 755 "lib/generated/aliases.gperf"
+#line 691 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str795, ei_ebcdic905},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 766 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str811, ei_ebcdic1144},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 362 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str821, ei_cp1131},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 524 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str828, ei_cp1162},
     {-1},
-#line 575 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str813, ei_cp869},
-    {-1}, {-1}, {-1}, {-1},
-#line 710 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str818, ei_ebcdic1123},
-    {-1},
-#line 728 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str820, ei_ebcdic1141},
+#line 713 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str830, ei_ebcdic1112},
     {-1}, {-1},
-#line 124 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str823, ei_hz},
-#line 133 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str824, ei_ces_big5},
-#line 89 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str825, ei_cp932},
-#line 720 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str826, ei_ebcdic1140},
+#line 723 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str833, ei_ebcdic1130},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 569 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str845, ei_cp861},
     {-1}, {-1}, {-1},
-#line 702 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str830, ei_ebcdic1112},
+#line 748 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str849, ei_ebcdic1142},
     {-1},
-#line 762 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str832, ei_ebcdic1145},
-    {-1}, {-1}, {-1}, {-1}, {-1},
 #line 565 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str838, ei_cp863},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str851, ei_cp860},
+#line 427 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str852, ei_pt154},
     {-1}, {-1}, {-1}, {-1},
-#line 337 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str843, ei_cp850},
-    {-1}, {-1}, {-1},
-#line 434 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str847, ei_tis620},
-    {-1},
-#line 737 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str849, ei_ebcdic1142},
-#line 754 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str850, ei_ebcdic1144},
-    {-1},
-#line 129 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str852, ei_euc_tw},
+#line 582 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str857, ei_cp865},
     {-1},
-#line 52 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str854, ei_utf16},
+#line 54 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str859, ei_utf16},
     {-1}, {-1}, {-1}, {-1},
-#line 280 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str859, ei_koi8_ru},
+#line 824 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str864, ei_ebcdic1156},
     {-1},
-#line 405 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str861, ei_hp_roman8},
-#line 609 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str862, ei_ebcdic278},
-    {-1}, {-1}, {-1},
-#line 580 "lib/generated/aliases.gperf"
+#line 591 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str866, ei_cp1125},
-    {-1}, {-1},
-#line 689 "lib/generated/aliases.gperf"
+#line 347 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str867, ei_cp1258},
+    {-1},
+#line 700 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str869, ei_ebcdic1025},
     {-1},
-#line 611 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str871, ei_ebcdic280},
-    {-1}, {-1}, {-1},
-#line 270 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str875, ei_iso8859_16},
+#line 360 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str871, ei_cp866},
     {-1},
-#line 686 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str877, ei_ebcdic924},
-    {-1}, {-1}, {-1}, {-1},
-#line 517 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str882, ei_cp1163},
-#line 639 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str883, ei_ebcdic424},
-#line 500 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str884, ei_cp1124},
-    {-1}, {-1}, {-1},
-#line 736 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str888, ei_ebcdic1142},
-#line 67 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str889, ei_utf7},
-#line 252 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str890, ei_iso8859_13},
-#line 99 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str891, ei_euc_cn},
-    {-1}, {-1},
-#line 137 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str894, ei_cp950},
-    {-1}, {-1}, {-1},
-#line 598 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str898, ei_ebcdic273},
+#line 788 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str873, ei_ebcdic1146},
     {-1},
-#line 528 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str900, ei_cp775},
-#line 673 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str901, ei_ebcdic880},
-#line 170 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str902, ei_iso8859_1},
-    {-1}, {-1},
-#line 812 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str905, ei_ebcdic1156},
-#line 117 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str906, ei_gb18030_2022},
-#line 797 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str907, ei_ebcdic1149},
+#line 580 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str875, ei_cp864},
+    {-1}, {-1}, {-1}, {-1},
+#line 851 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str880, ei_ebcdic16804},
     {-1},
-#line 787 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str909, ei_ebcdic1148},
+#line 661 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str882, ei_ebcdic500},
     {-1},
-#line 849 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str911, ei_tds565},
+#line 511 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str884, ei_cp1124},
+    {-1}, {-1}, {-1}, {-1},
+#line 802 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str889, ei_ebcdic1148},
+#line 463 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str890, ei_iso646_jp},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 699 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str906, ei_ebcdic924},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 353 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str913, ei_cp862},
     {-1}, {-1},
-#line 776 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str914, ei_ebcdic1146},
+#line 486 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str916, ei_iso646_cn},
     {-1},
-#line 101 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str916, ei_euc_cn},
-#line 498 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str917, ei_cp1046},
+#line 517 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str918, ei_cp1161},
+#line 163 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str919, ei_johab},
     {-1}, {-1},
-#line 416 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str920, ei_pt154},
-    {-1},
-#line 705 "lib/generated/aliases.gperf"
+#line 716 "lib/generated/aliases.gperf"
     {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str922, ei_ebcdic1122},
-#line 557 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str923, ei_cp861},
-    {-1}, {-1}, {-1},
-#line 35 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str927, ei_ucs2be},
-#line 582 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str928, ei_cp1125},
-    {-1}, {-1}, {-1},
-#line 619 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str932, ei_ebcdic284},
+    {-1},
+#line 831 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str924, ei_ebcdic1160},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 837 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str930, ei_ebcdic1165},
     {-1}, {-1},
-#line 553 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str935, ei_cp860},
-#line 694 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str936, ei_ebcdic1026},
-#line 399 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str937, ei_mac_thai},
+#line 431 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str933, ei_pt154},
     {-1},
-#line 324 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str939, ei_cp1256},
-#line 82 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str940, ei_euc_jp},
-#line 227 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str941, ei_iso8859_8},
+#line 91 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str935, ei_cp932},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 504 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str944, ei_cp922},
     {-1}, {-1},
-#line 361 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str944, ei_mac_centraleurope},
-    {-1}, {-1}, {-1},
-#line 786 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str948, ei_ebcdic1148},
-    {-1}, {-1}, {-1}, {-1},
-#line 110 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str953, ei_cp936},
-    {-1}, {-1}, {-1},
-#line 529 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str957, ei_cp852},
+#line 726 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str947, ei_ebcdic1132},
+#line 834 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str948, ei_ebcdic1164},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 842 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str956, ei_ebcdic1166},
+#line 697 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str957, ei_ebcdic924},
     {-1}, {-1},
-#line 445 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str960, ei_tcvn},
-#line 801 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str961, ei_ebcdic1149},
-#line 496 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str962, ei_cp943},
-    {-1}, {-1}, {-1}, {-1},
-#line 803 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str967, ei_ebcdic1153},
-    {-1}, {-1}, {-1}, {-1},
-#line 131 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str972, ei_ces_big5},
+#line 424 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str960, ei_pt154},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 493 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str967, ei_ksc5601},
     {-1}, {-1}, {-1},
-#line 752 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str976, ei_ebcdic1143},
-#line 771 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str977, ei_ebcdic1146},
+#line 294 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str971, ei_koi8_ru},
     {-1}, {-1},
-#line 505 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str980, ei_cp1129},
-#line 354 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str981, ei_mac_roman},
+#line 287 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str974, ei_koi8_r},
+    {-1}, {-1},
+#line 782 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str977, ei_ebcdic1146},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 521 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str986, ei_cp1162},
     {-1},
-#line 531 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str983, ei_cp852},
+#line 848 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str988, ei_ebcdic12712},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 152 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1002, ei_euc_kr},
     {-1},
-#line 616 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str985, ei_ebcdic282},
-#line 58 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str986, ei_utf32},
+#line 687 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1004, ei_ebcdic880},
     {-1}, {-1}, {-1}, {-1},
-#line 289 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str991, ei_cp1250},
+#line 29 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1009, ei_utf8},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 70 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1015, ei_utf7},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 274 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str993, ei_koi8_r},
+#line 144 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1026, ei_cp950},
+#line 820 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1027, ei_ebcdic1155},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 779 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1036, ei_ebcdic1145},
+    {-1}, {-1}, {-1}, {-1},
+#line 358 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1041, ei_cp866},
+#line 551 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1042, ei_cp855},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 106 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1052, ei_euc_cn},
+#line 703 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1053, ei_ebcdic1026},
     {-1},
-#line 709 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str995, ei_ebcdic1123},
-#line 566 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str996, ei_cp864},
-#line 830 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str997, ei_ebcdic1166},
+#line 597 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1055, ei_cp1125},
     {-1}, {-1},
-#line 578 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1000, ei_cp869},
-#line 306 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1001, ei_cp1253},
+#line 701 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1058, ei_ebcdic1025},
     {-1}, {-1},
-#line 751 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1004, ei_ebcdic1143},
-    {-1}, {-1}, {-1}, {-1},
-#line 171 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1009, ei_iso8859_1},
-    {-1}, {-1}, {-1},
-#line 389 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1013, ei_mac_turkish},
+#line 329 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1061, ei_cp1255},
     {-1},
-#line 478 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1015, ei_gb2312},
-#line 770 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1016, ei_ebcdic1146},
-    {-1}, {-1},
-#line 497 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1019, ei_cp1046},
-#line 422 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1020, ei_rk1048},
-    {-1}, {-1}, {-1},
-#line 57 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1024, ei_utf16le},
+#line 116 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1063, ei_cp936},
+    {-1},
+#line 181 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1065, ei_iso8859_1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 144 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1027, ei_euc_kr},
+#line 212 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1077, ei_iso8859_5},
+#line 698 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1078, ei_ebcdic924},
     {-1}, {-1},
-#line 173 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1030, ei_iso8859_1},
+#line 62 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1081, ei_utf32be},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 495 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1032, ei_cp943},
+#line 98 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1092, ei_iso2022_jp1},
     {-1}, {-1},
-#line 406 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1035, ei_hp_roman8},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 204 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1042, ei_iso8859_5},
+#line 205 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1095, ei_iso8859_4},
+#line 46 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1096, ei_ucs4},
+#line 860 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1097, ei_tds565},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 840 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1114, ei_ebcdic1166},
     {-1},
-#line 428 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1044, ei_cp1133},
-    {-1}, {-1}, {-1}, {-1},
-#line 341 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1049, ei_cp862},
-    {-1}, {-1}, {-1},
-#line 692 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1053, ei_ebcdic1026},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 516 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1059, ei_cp1163},
-#line 197 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1060, ei_iso8859_4},
+#line 503 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1116, ei_cp922},
     {-1}, {-1},
-#line 833 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1063, ei_ebcdic4971},
-    {-1}, {-1}, {-1},
-#line 172 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1067, ei_iso8859_1},
+#line 838 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1119, ei_ebcdic1165},
     {-1}, {-1},
-#line 636 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1070, ei_ebcdic423},
-    {-1},
-#line 85 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1072, ei_sjis},
-    {-1}, {-1}, {-1},
-#line 818 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1076, ei_ebcdic1158},
-#line 515 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1077, ei_cp1163},
-    {-1},
-#line 203 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1079, ei_iso8859_5},
+#line 572 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1122, ei_cp861},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 566 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1128, ei_cp860},
+    {-1}, {-1}, {-1}, {-1},
+#line 189 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1133, ei_iso8859_2},
+#line 583 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1134, ei_cp865},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 857 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1144, ei_iso2022_jp3},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 695 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1150, ei_ebcdic924},
+#line 209 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1151, ei_iso8859_5},
+#line 578 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1152, ei_cp864},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 255 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1158, ei_iso8859_10},
     {-1},
-#line 369 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1081, ei_mac_croatian},
+#line 99 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1160, ei_iso2022_jp2},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 847 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1166, ei_ebcdic12712},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 400 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1173, ei_mac_turkish},
     {-1}, {-1}, {-1},
-#line 792 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1085, ei_ebcdic1148},
+#line 739 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1177, ei_ebcdic1141},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 731 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1183, ei_ebcdic1140},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 773 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1189, ei_ebcdic1145},
+    {-1}, {-1}, {-1}, {-1},
+#line 587 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1194, ei_cp869},
     {-1}, {-1}, {-1},
-#line 421 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1089, ei_rk1048},
-#line 429 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1090, ei_tis620},
-    {-1},
-#line 409 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1092, ei_armscii_8},
+#line 245 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1198, ei_iso8859_9},
     {-1},
-#line 430 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1094, ei_tis620},
+#line 348 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1200, ei_cp850},
+#line 44 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1201, ei_ucs4},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 765 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1207, ei_ebcdic1144},
+    {-1}, {-1}, {-1},
+#line 22 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1211, ei_ascii},
     {-1},
-#line 283 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1096, ei_koi8_ru},
-#line 196 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1097, ei_iso8859_4},
-#line 181 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1098, ei_iso8859_2},
-#line 276 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1099, ei_koi8_r},
+#line 13 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1213, ei_ascii},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 269 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1222, ei_iso8859_14},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 622 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1228, ei_ebcdic280},
     {-1}, {-1},
-#line 102 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1102, ei_euc_cn},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 808 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1109, ei_ebcdic1155},
-#line 335 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1110, ei_cp1258},
-    {-1},
-#line 519 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1112, ei_cp437},
-#line 331 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1113, ei_cp1257},
-#line 104 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1114, ei_euc_cn},
-    {-1},
-#line 730 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1116, ei_ebcdic1141},
-#line 81 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1117, ei_euc_jp},
+#line 406 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1231, ei_mac_arabic},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 30 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1239, ei_ucs2},
+#line 650 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1240, ei_ebcdic424},
+#line 380 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1241, ei_mac_croatian},
+    {-1}, {-1}, {-1},
+#line 747 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1245, ei_ebcdic1142},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 270 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1254, ei_iso8859_14},
     {-1}, {-1},
-#line 46 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1120, ei_ucs4be},
+#line 595 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1257, ei_cp1125},
+    {-1}, {-1}, {-1},
+#line 221 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1261, ei_iso8859_6},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 722 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1122, ei_ebcdic1140},
+#line 668 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1272, ei_ebcdic838},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 568 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1280, ei_cp861},
     {-1},
-#line 152 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1124, ei_cp949},
+#line 679 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1282, ei_ebcdic871},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 674 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1288, ei_ebcdic870},
     {-1}, {-1},
-#line 805 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1127, ei_ebcdic1154},
-#line 764 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1128, ei_ebcdic1145},
-#line 411 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1129, ei_georgian_ps},
-#line 382 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1130, ei_mac_ukraine},
-#line 534 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1131, ei_cp853},
-    {-1},
-#line 378 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1133, ei_mac_cyrillic},
-    {-1},
-#line 180 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1135, ei_iso8859_2},
-    {-1},
-#line 288 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1137, ei_cp1250},
-    {-1},
-#line 33 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1139, ei_ucs2be},
+#line 590 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1291, ei_cp869},
+#line 564 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1292, ei_cp860},
     {-1},
-#line 699 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1141, ei_ebcdic1047},
+#line 683 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1294, ei_ebcdic875},
+    {-1}, {-1},
+#line 176 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1297, ei_iso8859_1},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 194 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1303, ei_iso8859_3},
+#line 283 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1304, ei_iso8859_16},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 452 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1312, ei_cp874},
     {-1},
-#line 317 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1143, ei_cp1255},
-#line 61 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1144, ei_utf32be},
+#line 540 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1314, ei_cp852},
+    {-1}, {-1}, {-1},
+#line 359 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1318, ei_cp866},
     {-1},
-#line 756 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1146, ei_ebcdic1144},
+#line 363 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1320, ei_cp1131},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 724 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1326, ei_ebcdic1130},
+    {-1}, {-1}, {-1},
+#line 349 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1330, ei_cp850},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 550 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1336, ei_cp855},
     {-1}, {-1}, {-1}, {-1},
-#line 644 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1151, ei_ebcdic425},
+#line 318 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1341, ei_cp1253},
+#line 627 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1342, ei_ebcdic282},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 649 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1349, ei_ebcdic423},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 450 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1359, ei_cp874},
     {-1}, {-1}, {-1},
-#line 15 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1155, ei_ascii},
+#line 762 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1363, ei_ebcdic1143},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 781 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1373, ei_ebcdic1146},
     {-1}, {-1},
-#line 231 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1158, ei_iso8859_8},
-    {-1},
-#line 344 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1160, ei_cp862},
-#line 310 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1161, ei_cp1254},
-    {-1}, {-1}, {-1}, {-1},
-#line 799 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1166, ei_ebcdic1149},
-    {-1},
-#line 263 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1168, ei_iso8859_15},
+#line 508 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1376, ei_cp1046},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 180 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1384, ei_iso8859_1},
     {-1}, {-1}, {-1},
-#line 538 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1172, ei_cp855},
-    {-1},
-#line 260 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1174, ei_iso8859_14},
-#line 473 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1175, ei_iso646_cn},
-    {-1},
-#line 44 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1177, ei_ucs4},
+#line 727 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1388, ei_ebcdic1132},
     {-1}, {-1}, {-1},
-#line 93 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1181, ei_iso2022_jp1},
+#line 541 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1392, ei_cp852},
+    {-1},
 #line 92 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1182, ei_iso2022_jp},
-#line 96 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1183, ei_iso2022_jpms},
-#line 738 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1184, ei_ebcdic1142},
-#line 100 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1185, ei_euc_cn},
-#line 245 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1186, ei_iso8859_10},
-    {-1}, {-1}, {-1},
-#line 265 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1190, ei_iso8859_15},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1394, ei_iso2022_jp},
     {-1},
-#line 95 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1192, ei_iso2022_jp2},
+#line 211 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1396, ei_iso8859_5},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 352 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1406, ei_cp862},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 295 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1412, ei_koi8_ru},
     {-1},
-#line 151 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1194, ei_cp949},
-#line 230 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1195, ei_iso8859_8},
-#line 31 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1196, ei_ucs2},
+#line 204 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1414, ei_iso8859_4},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 800 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1424, ei_ebcdic1148},
+#line 560 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1425, ei_cp858},
+#line 322 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1426, ei_cp1254},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 526 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1436, ei_cp1163},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 499 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1442, ei_cp856},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 686 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1451, ei_ebcdic880},
+#line 188 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1452, ei_iso8859_2},
     {-1}, {-1},
-#line 299 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1199, ei_cp1252},
-#line 624 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1200, ei_ebcdic285},
-    {-1}, {-1}, {-1}, {-1},
-#line 91 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1205, ei_iso2022_jp},
-#line 163 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1206, ei_iso8859_1},
-#line 248 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1207, ei_iso8859_11},
+#line 571 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1455, ei_cp861},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 681 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1209, ei_ebcdic924},
-#line 353 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1210, ei_mac_roman},
-#line 431 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1211, ei_tis620},
-#line 128 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1212, ei_euc_tw},
-#line 242 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1213, ei_iso8859_10},
-    {-1}, {-1}, {-1}, {-1},
-#line 198 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1218, ei_iso8859_5},
-#line 261 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1219, ei_iso8859_15},
+#line 100 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1475, ei_iso2022_jp2},
     {-1},
-#line 427 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1221, ei_cp1133},
-#line 608 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1222, ei_ebcdic278},
-#line 477 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1223, ei_gb2312},
+#line 678 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1477, ei_ebcdic871},
     {-1},
-#line 817 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1225, ei_ebcdic1158},
-#line 213 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1226, ei_iso8859_6},
-    {-1}, {-1},
-#line 158 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1229, ei_iso2022_kr},
-#line 208 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1230, ei_iso8859_6},
-    {-1}, {-1},
-#line 846 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1233, ei_iso2022_jp3},
-    {-1}, {-1},
-#line 190 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1236, ei_iso8859_4},
-#line 255 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1237, ei_iso8859_14},
-#line 184 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1238, ei_iso8859_3},
-    {-1}, {-1},
-#line 470 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1241, ei_jisx0212},
-    {-1}, {-1},
-#line 788 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1244, ei_ebcdic1148},
+#line 473 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1479, ei_jisx0208},
     {-1}, {-1}, {-1},
-#line 185 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1248, ei_iso8859_3},
-#line 94 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1249, ei_iso2022_jp2},
-#line 485 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1250, ei_ksc5601},
-#line 148 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1251, ei_euc_kr},
-    {-1}, {-1},
-#line 597 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1254, ei_ebcdic273},
-    {-1},
-#line 527 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1256, ei_cp775},
-    {-1},
-#line 381 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1258, ei_mac_ukraine},
-#line 334 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1259, ei_cp1258},
-#line 116 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1260, ei_gb18030_2022},
-    {-1},
-#line 491 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1262, ei_cp922},
-#line 212 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1263, ei_iso8859_6},
-#line 570 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1264, ei_cp865},
-    {-1},
-#line 408 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1266, ei_nextstep},
-#line 377 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1267, ei_mac_cyrillic},
-#line 366 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1268, ei_mac_iceland},
+#line 670 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1483, ei_ebcdic870},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 682 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1489, ei_ebcdic875},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 165 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1495, ei_iso2022_kr},
     {-1}, {-1}, {-1},
-#line 680 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1272, ei_ebcdic905},
-    {-1},
-#line 174 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1274, ei_iso8859_2},
+#line 461 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1499, ei_iso646_jp},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 451 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1507, ei_cp874},
     {-1}, {-1},
-#line 122 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1277, ei_hz},
-    {-1},
-#line 123 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1279, ei_hz},
+#line 830 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1510, ei_ebcdic1158},
+#line 175 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1511, ei_iso8859_1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 461 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1286, ei_jisx0208},
-#line 17 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1287, ei_ascii},
-#line 316 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1288, ei_cp1255},
+#line 282 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1518, ei_iso8859_16},
+#line 804 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1519, ei_ebcdic1148},
+#line 501 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1520, ei_cp856},
+#line 648 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1521, ei_ebcdic423},
     {-1}, {-1},
-#line 479 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1291, ei_gb2312},
-    {-1},
-#line 811 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1293, ei_ebcdic1156},
+#line 16 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1524, ei_ascii},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 357 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1534, ei_cp866},
+    {-1}, {-1}, {-1}, {-1},
+#line 138 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1539, ei_euc_tw},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 247 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1545, ei_iso8859_9},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 350 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1300, ei_cp1131},
-#line 746 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1301, ei_ebcdic1143},
-#line 550 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1302, ei_cp858},
-    {-1},
-#line 254 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1304, ei_iso8859_13},
-#line 376 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1305, ei_mac_cyrillic},
-#line 711 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1306, ei_ebcdic1130},
+#line 300 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1552, ei_cp1250},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 149 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1309, ei_euc_kr},
+#line 846 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1564, ei_ebcdic12712},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 772 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1312, ei_ebcdic1146},
-#line 781 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1313, ei_ebcdic1147},
-#line 545 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1314, ei_cp857},
+#line 123 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1576, ei_iso2022_cn},
     {-1}, {-1}, {-1},
-#line 800 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1318, ei_ebcdic1149},
-#line 540 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1319, ei_cp855},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 322 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1327, ei_cp1256},
-#line 218 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1328, ei_iso8859_7},
+#line 220 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1580, ei_iso8859_6},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 693 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1592, ei_ebcdic924},
+#line 829 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1593, ei_ebcdic1158},
+    {-1}, {-1},
+#line 139 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1596, ei_ces_big5},
+    {-1},
+#line 596 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1598, ei_cp1125},
+    {-1}, {-1}, {-1},
+#line 803 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1602, ei_ebcdic1148},
+    {-1}, {-1}, {-1},
+#line 432 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1606, ei_rk1048},
+#line 446 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1607, ei_tis620},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 142 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1613, ei_ces_big5},
+    {-1},
+#line 684 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1615, ei_ebcdic880},
+#line 305 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1616, ei_cp1251},
+#line 124 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1617, ei_iso2022_cn},
+#line 264 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1618, ei_iso8859_13},
+    {-1}, {-1}, {-1}, {-1},
+#line 798 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1623, ei_ebcdic1148},
+#line 845 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1624, ei_ebcdic4971},
+#line 216 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1625, ei_iso8859_6},
+#line 819 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1626, ei_ebcdic1155},
+#line 346 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1627, ei_cp1258},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 185 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1637, ei_iso8859_2},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 816 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1644, ei_ebcdic1154},
+    {-1},
+#line 630 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1646, ei_ebcdic284},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 262 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1653, ei_iso8859_13},
+#line 299 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1654, ei_cp1250},
+    {-1},
+#line 361 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1656, ei_cp1131},
     {-1}, {-1}, {-1},
-#line 120 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1332, ei_iso2022_cn_ext},
+#line 328 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1660, ei_cp1255},
     {-1},
-#line 225 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1334, ei_iso8859_8},
-    {-1}, {-1},
-#line 504 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1337, ei_cp1129},
+#line 722 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1662, ei_ebcdic1130},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 655 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1668, ei_ebcdic425},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 321 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1678, ei_cp1254},
     {-1}, {-1},
-#line 745 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1340, ei_ebcdic1143},
-#line 403 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1341, ei_hp_roman8},
+#line 484 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1681, ei_iso646_cn},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 848 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1350, ei_tds565},
+#line 542 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1699, ei_cp852},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 47 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1707, ei_ucs4be},
     {-1}, {-1},
-#line 471 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1353, ei_jisx0212},
+#line 577 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1710, ei_cp864},
     {-1}, {-1}, {-1},
-#line 258 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1357, ei_iso8859_14},
-#line 816 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1358, ei_ebcdic1157},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 785 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1367, ei_ebcdic1147},
-#line 714 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1368, ei_ebcdic1132},
-#line 664 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1369, ei_ebcdic871},
-    {-1},
-#line 675 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1371, ei_ebcdic880},
-    {-1}, {-1},
-#line 708 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1374, ei_ebcdic1123},
+#line 64 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1714, ei_utf32le},
     {-1},
-#line 87 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1376, ei_sjis},
+#line 310 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1716, ei_cp1252},
+    {-1}, {-1}, {-1},
 #line 113 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1377, ei_gb18030_2022},
-#line 157 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1378, ei_iso2022_kr},
-#line 34 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1379, ei_ucs2be},
-#line 655 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1380, ei_ebcdic838},
-#line 658 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1381, ei_ebcdic870},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1720, ei_cp936},
+#line 814 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1721, ei_ebcdic1153},
     {-1}, {-1},
-#line 233 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1384, ei_iso8859_8},
+#line 725 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1724, ei_ebcdic1132},
+    {-1},
+#line 33 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1726, ei_ucs2be},
     {-1}, {-1}, {-1},
-#line 484 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1388, ei_ksc5601},
-#line 169 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1389, ei_iso8859_1},
-#line 435 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1390, ei_tis620},
+#line 763 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1730, ei_ebcdic1143},
+    {-1}, {-1}, {-1},
+#line 128 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1734, ei_iso2022_cn_ext},
     {-1}, {-1},
-#line 273 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1393, ei_iso8859_16},
-#line 211 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1394, ei_iso8859_6},
-#line 239 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1395, ei_iso8859_9},
-#line 202 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1396, ei_iso8859_5},
+#line 621 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1737, ei_ebcdic278},
+#line 132 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1738, ei_hz},
     {-1},
-#line 851 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1398, ei_atarist},
-#line 561 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1399, ei_cp861},
-#line 506 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1400, ei_cp1161},
-#line 453 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1401, ei_iso646_jp},
-#line 205 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1402, ei_iso8859_6},
-#line 268 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1403, ei_iso8859_16},
-#line 195 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1404, ei_iso8859_4},
-#line 555 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1405, ei_cp860},
-#line 820 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1406, ei_ebcdic1160},
-#line 834 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1407, ei_ebcdic4971},
-    {-1}, {-1}, {-1},
-#line 572 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1411, ei_cp865},
-#line 826 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1412, ei_ebcdic1165},
+#line 90 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1740, ei_cp932},
+#line 289 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1741, ei_koi8_u},
+    {-1},
+#line 93 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1743, ei_iso2022_jp},
+#line 101 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1744, ei_iso2022_jpms},
+    {-1}, {-1}, {-1}, {-1},
+#line 720 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1749, ei_ebcdic1123},
     {-1}, {-1},
-#line 23 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1415, ei_ascii},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 232 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1421, ei_iso8859_8},
+#line 273 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1752, ei_iso8859_15},
+#line 107 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1753, ei_euc_cn},
     {-1},
-#line 179 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1423, ei_iso8859_2},
+#line 317 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1755, ei_cp1253},
+    {-1}, {-1}, {-1}, {-1},
+#line 293 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1760, ei_koi8_ru},
+#line 15 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1761, ei_ascii},
+#line 68 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1762, ei_utf7},
+#line 810 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1763, ei_ebcdic1149},
     {-1},
-#line 72 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1425, ei_ucs4internal},
-    {-1}, {-1}, {-1},
-#line 567 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1429, ei_cp864},
-#line 823 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1430, ei_ebcdic1164},
-#line 454 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1431, ei_jisx0201},
+#line 254 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1765, ei_iso8859_10},
+    {-1},
+#line 145 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1767, ei_cp950},
+#line 826 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1768, ei_ebcdic1157},
+    {-1}, {-1}, {-1}, {-1},
+#line 539 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1773, ei_cp775},
     {-1}, {-1}, {-1},
-#line 552 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1435, ei_cp858},
+#line 795 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1777, ei_ebcdic1147},
     {-1},
-#line 433 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1437, ei_tis620},
+#line 502 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1779, ei_cp922},
+#line 709 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1780, ei_ebcdic1047},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 647 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1786, ei_ebcdic423},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 373 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1792, ei_mac_centraleurope},
+    {-1}, {-1},
+#line 811 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1795, ei_ebcdic1149},
     {-1},
 #line 56 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1439, ei_utf16le},
-#line 432 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1440, ei_tis620},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1797, ei_utf16be},
     {-1}, {-1}, {-1},
-#line 70 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1444, ei_ucs2internal},
+#line 53 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1801, ei_utf16},
+#line 341 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1802, ei_cp1257},
+    {-1}, {-1}, {-1}, {-1},
+#line 371 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1807, ei_mac_centraleurope},
+    {-1}, {-1},
+#line 822 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1810, ei_ebcdic1156},
+    {-1}, {-1},
+#line 527 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1813, ei_cp1163},
+#line 515 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1814, ei_cp1129},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 122 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1821, ei_gb18030_2022},
+#line 311 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1822, ei_cp1252},
+#line 410 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1823, ei_mac_thai},
+#line 530 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1824, ei_cp437},
+#line 342 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1825, ei_cp1257},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 678 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1446, ei_ebcdic905},
-#line 423 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1447, ei_rk1048},
+#line 492 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1836, ei_isoir165},
+    {-1}, {-1}, {-1},
+#line 708 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1840, ei_ebcdic1047},
+#line 235 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1841, ei_iso8859_8},
+#line 393 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1842, ei_mac_ukraine},
+    {-1},
+#line 333 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1844, ei_cp1256},
+#line 389 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1845, ei_mac_cyrillic},
+    {-1},
+#line 794 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1847, ei_ebcdic1147},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 710 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1853, ei_ebcdic1047},
+    {-1},
+#line 619 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1855, ei_ebcdic278},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1},
-#line 395 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1460, ei_mac_arabic},
+#line 115 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1868, ei_cp936},
+    {-1}, {-1}, {-1},
+#line 563 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1872, ei_cp858},
     {-1},
-#line 55 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1462, ei_utf16be},
-#line 795 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1463, ei_ebcdic1149},
+#line 862 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1874, ei_atarist},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 435 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1883, ei_rk1048},
     {-1}, {-1},
-#line 604 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1466, ei_ebcdic277},
+#line 137 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1886, ei_euc_tw},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 440 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1896, ei_tis620},
+#line 849 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1897, ei_ebcdic16804},
+#line 759 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1898, ei_ebcdic1143},
+#line 548 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1899, ei_cp853},
+#line 441 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1900, ei_tis620},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 240 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1907, ei_iso8859_8},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 126 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1913, ei_iso2022_cn},
+#line 141 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1914, ei_ces_big5},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 304 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1922, ei_cp1251},
     {-1},
-#line 510 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1468, ei_cp1162},
+#line 677 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1924, ei_ebcdic871},
+    {-1}, {-1},
+#line 853 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1927, ei_euc_jisx0213},
+    {-1}, {-1},
+#line 673 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1930, ei_ebcdic870},
     {-1},
-#line 360 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1470, ei_mac_centraleurope},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 65 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1477, ei_utf7},
-    {-1}, {-1}, {-1}, {-1},
-#line 311 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1482, ei_cp1254},
-#line 387 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1483, ei_mac_turkish},
+#line 620 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1932, ei_ebcdic278},
     {-1}, {-1}, {-1},
-#line 247 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1487, ei_iso8859_10},
-#line 88 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1488, ei_cp932},
+#line 844 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1936, ei_ebcdic4971},
     {-1}, {-1}, {-1}, {-1},
-#line 36 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1493, ei_ucs2be},
+#line 201 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1941, ei_iso8859_4},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 466 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1496, ei_jisx0212},
-    {-1}, {-1}, {-1}, {-1},
-#line 83 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1501, ei_sjis},
-#line 794 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1502, ei_ebcdic1149},
-    {-1}, {-1}, {-1}, {-1},
-#line 593 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1507, ei_ebcdic037},
-#line 76 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1508, ei_euc_jp},
-#line 683 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1509, ei_ebcdic924},
-    {-1},
-#line 486 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1511, ei_ksc5601},
+#line 741 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1953, ei_ebcdic1141},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 733 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1959, ei_ebcdic1140},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 775 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1965, ei_ebcdic1145},
+    {-1}, {-1},
+#line 538 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1968, ei_cp775},
     {-1},
-#line 383 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1513, ei_mac_greek},
-#line 305 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1514, ei_cp1253},
-#line 467 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1515, ei_jisx0212},
+#line 392 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1970, ei_mac_ukraine},
     {-1}, {-1}, {-1},
-#line 521 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1519, ei_cp437},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 253 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1526, ei_iso8859_13},
-    {-1},
-#line 282 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1528, ei_koi8_ru},
-#line 74 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1529, ei_c99},
+#line 110 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1974, ei_euc_cn},
+    {-1}, {-1}, {-1},
+#line 372 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1978, ei_mac_centraleurope},
+#line 388 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1979, ei_mac_cyrillic},
+    {-1}, {-1}, {-1},
+#line 767 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1983, ei_ebcdic1144},
+#line 815 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1984, ei_ebcdic1153},
+#line 134 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1985, ei_euc_tw},
     {-1}, {-1}, {-1}, {-1},
-#line 141 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1534, ei_big5hkscs2008},
+#line 82 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1990, ei_euc_jp},
+#line 576 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1991, ei_cp863},
     {-1},
-#line 503 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1536, ei_cp1129},
-#line 16 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1537, ei_ascii},
+#line 764 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1993, ei_ebcdic1143},
+    {-1}, {-1},
+#line 166 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1996, ei_iso2022_kr},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1},
+#line 77 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2009, ei_euc_jp},
+    {-1}, {-1},
+#line 721 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2012, ei_ebcdic1123},
+#line 455 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2013, ei_viscii},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 797 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2019, ei_ebcdic1148},
     {-1},
-#line 412 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1539, ei_koi8_t},
+#line 749 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2021, ei_ebcdic1142},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1},
+#line 489 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2034, ei_gb2312},
+#line 290 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2035, ei_koi8_u},
+    {-1}, {-1}, {-1},
+#line 285 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2039, ei_koi8_r},
     {-1}, {-1},
-#line 847 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1542, ei_big5_2003},
-#line 356 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1543, ei_mac_roman},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 189 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1550, ei_iso8859_3},
-#line 815 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1551, ei_ebcdic1157},
+#line 263 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2042, ei_iso8859_13},
+    {-1}, {-1}, {-1},
+#line 549 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2046, ei_cp855},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 844 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1557, ei_shift_jisx0213},
-    {-1},
-#line 458 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1559, ei_jisx0208},
-#line 784 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1560, ei_ebcdic1147},
-    {-1},
+#line 35 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2052, ei_ucs2be},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 192 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2060, ei_iso8859_3},
+    {-1}, {-1},
 #line 481 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1562, ei_isoir165},
-#line 698 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1563, ei_ebcdic1047},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2063, ei_jisx0212},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 496 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2072, ei_ksc5601},
     {-1},
-#line 697 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1565, ei_ebcdic1047},
+#line 635 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2074, ei_ebcdic285},
     {-1},
-#line 488 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1567, ei_cp856},
+#line 528 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2076, ei_cp1163},
+#line 667 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2077, ei_ebcdic838},
+    {-1}, {-1}, {-1}, {-1},
+#line 675 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2082, ei_ebcdic871},
+#line 692 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2083, ei_ebcdic924},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 426 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1569, ei_cp1133},
-    {-1}, {-1},
-#line 783 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1572, ei_ebcdic1147},
+#line 669 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2094, ei_ebcdic870},
     {-1}, {-1},
-#line 114 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1575, ei_gb18030_2022},
-#line 257 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1576, ei_iso8859_14},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 330 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1585, ei_cp1257},
+#line 757 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2097, ei_ebcdic1143},
     {-1},
-#line 188 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1587, ei_iso8859_3},
-    {-1}, {-1},
-#line 264 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1590, ei_iso8859_15},
-#line 483 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1591, ei_ksc5601},
+#line 125 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2099, ei_iso2022_cn},
+#line 218 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2100, ei_iso8859_6},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 151 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2110, ei_euc_kr},
     {-1},
+#line 453 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2112, ei_viscii},
+    {-1}, {-1}, {-1}, {-1},
 #line 425 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1593, ei_mulelao},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2117, ei_pt154},
+#line 133 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2118, ei_euc_tw},
+    {-1}, {-1}, {-1},
+#line 464 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2122, ei_iso646_jp},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 348 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1595, ei_cp866},
-#line 829 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1596, ei_ebcdic1166},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 24 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1602, ei_ascii},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 634 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1608, ei_ebcdic423},
+#line 121 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2133, ei_gb18030_2022},
+    {-1}, {-1}, {-1}, {-1},
+#line 581 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2138, ei_cp865},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 253 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2147, ei_iso8859_10},
+    {-1},
+#line 783 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2149, ei_ebcdic1146},
+    {-1}, {-1},
+#line 131 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2152, ei_hz},
+#line 482 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2153, ei_jisx0212},
+    {-1}, {-1},
+#line 76 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2156, ei_java},
+    {-1}, {-1}, {-1}, {-1},
+#line 574 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2161, ei_cp863},
+    {-1}, {-1}, {-1}, {-1},
+#line 558 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2166, ei_cp858},
     {-1}, {-1}, {-1},
 #line 719 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1612, ei_ebcdic1137},
-#line 209 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1613, ei_iso8859_6},
-#line 596 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1614, ei_ebcdic273},
-#line 759 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1615, ei_ebcdic1144},
-    {-1},
-#line 802 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1617, ei_ebcdic1153},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2170, ei_ebcdic1123},
+    {-1}, {-1}, {-1}, {-1},
+#line 215 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2175, ei_iso8859_6},
     {-1},
-#line 632 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1619, ei_ebcdic297},
+#line 666 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2177, ei_ebcdic838},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 292 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2187, ei_koi8_ru},
+    {-1}, {-1}, {-1},
+#line 104 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2191, ei_euc_cn},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 106 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1621, ei_euc_cn},
+#line 275 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2202, ei_iso8859_15},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 609 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2211, ei_ebcdic273},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 239 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2226, ei_iso8859_8},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 533 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1629, ei_cp853},
+#line 525 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2234, ei_cp1163},
+    {-1}, {-1}, {-1}, {-1},
+#line 423 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2239, ei_koi8_t},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 334 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2248, ei_cp1256},
+    {-1}, {-1}, {-1}, {-1},
+#line 83 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2253, ei_euc_jp},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 126 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1631, ei_euc_tw},
-#line 682 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1632, ei_ebcdic924},
-    {-1}, {-1},
-#line 62 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1635, ei_utf32le},
-#line 747 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1636, ei_ebcdic1143},
-#line 162 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1637, ei_dec_hanyu},
-    {-1}, {-1}, {-1},
-#line 524 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1641, ei_cp737},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 244 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1647, ei_iso8859_10},
+#line 442 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2264, ei_tis620},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 187 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1649, ei_iso8859_3},
+#line 507 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2275, ei_cp943},
     {-1}, {-1},
-#line 228 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1652, ei_iso8859_8},
-#line 410 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1653, ei_georgian_academy},
+#line 129 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2278, ei_hz},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 562 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2285, ei_cp858},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 178 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2293, ei_iso8859_1},
     {-1}, {-1}, {-1}, {-1},
-#line 367 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1658, ei_mac_croatian},
-#line 346 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1659, ei_cp866},
+#line 808 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2298, ei_ebcdic1149},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 420 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2304, ei_armscii_8},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 105 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2315, ei_euc_cn},
+    {-1}, {-1}, {-1},
+#line 429 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2319, ei_pt154},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 607 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2329, ei_ebcdic273},
+    {-1},
+#line 59 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2331, ei_utf32},
     {-1},
-#line 292 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1661, ei_cp1251},
-    {-1}, {-1},
 #line 286 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1664, ei_cp1250},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2333, ei_koi8_r},
+#line 843 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2334, ei_ebcdic4971},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 50 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2340, ei_ucs4le},
+    {-1}, {-1}, {-1},
+#line 327 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2344, ei_cp1255},
+#line 506 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2345, ei_cp943},
+#line 547 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2346, ei_cp853},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1},
+#line 40 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2359, ei_ucs2le},
     {-1}, {-1},
-#line 315 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1667, ei_cp1255},
-    {-1}, {-1}, {-1}, {-1},
-#line 266 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1672, ei_iso8859_15},
+#line 645 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2362, ei_ebcdic423},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 246 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2369, ei_iso8859_9},
+    {-1}, {-1}, {-1},
+#line 438 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2373, ei_cp1133},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 197 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2381, ei_iso8859_3},
+#line 792 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2382, ei_ebcdic1147},
+#line 556 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2383, ei_cp857},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 589 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2391, ei_cp869},
+    {-1},
+#line 812 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2393, ei_ebcdic1149},
+    {-1}, {-1}, {-1},
+#line 261 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2397, ei_iso8859_13},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 89 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2403, ei_cp932},
     {-1}, {-1},
-#line 207 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1675, ei_iso8859_6},
-#line 309 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1676, ei_cp1254},
-    {-1}, {-1}, {-1}, {-1},
-#line 143 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1681, ei_euc_kr},
+#line 608 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2406, ei_ebcdic273},
+#line 454 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2407, ei_viscii},
+#line 856 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2408, ei_iso2022_jp3},
     {-1}, {-1}, {-1},
-#line 654 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1685, ei_ebcdic838},
-#line 40 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1686, ei_ucs2le},
+#line 516 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2412, ei_cp1129},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 729 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2420, ei_ebcdic1137},
     {-1}, {-1}, {-1},
-#line 365 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1690, ei_mac_iceland},
-    {-1}, {-1}, {-1}, {-1},
-#line 298 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1695, ei_cp1252},
-#line 436 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1696, ei_tis620},
+#line 75 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2424, ei_c99},
     {-1},
-#line 775 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1698, ei_ebcdic1146},
-#line 543 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1699, ei_cp857},
+#line 605 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2426, ei_ebcdic037},
     {-1},
-#line 845 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1701, ei_iso2022_jp3},
+#line 119 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2428, ei_gb18030_2022},
     {-1},
-#line 835 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1703, ei_ebcdic12712},
+#line 58 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2430, ei_utf16le},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 669 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1710, ei_ebcdic875},
+#line 226 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2437, ei_iso8859_7},
+#line 575 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2438, ei_cp863},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 26 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2446, ei_utf8},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 136 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2454, ei_euc_tw},
     {-1},
-#line 241 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1712, ei_iso8859_9},
+#line 828 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2456, ei_ebcdic1158},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 827 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2468, ei_ebcdic1157},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 562 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1721, ei_cp863},
+#line 796 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2477, ei_ebcdic1147},
+    {-1}, {-1},
+#line 689 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2480, ei_ebcdic905},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 603 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2488, ei_ebcdic037},
     {-1},
-#line 219 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1723, ei_iso8859_7},
-#line 404 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1724, ei_hp_roman8},
-#line 333 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1725, ei_cp1258},
-#line 182 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1726, ei_iso8859_3},
-#line 249 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1727, ei_iso8859_13},
+#line 345 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2490, ei_cp1258},
+    {-1},
+#line 217 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2492, ei_iso8859_6},
+#line 756 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2493, ei_ebcdic1143},
     {-1}, {-1}, {-1},
-#line 79 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1731, ei_euc_jp},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 838 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1737, ei_ebcdic16804},
-#line 546 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1738, ei_cp858},
-#line 438 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1739, ei_cp874},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 64 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1745, ei_utf7},
-#line 548 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1746, ei_cp858},
-    {-1}, {-1},
-#line 240 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1749, ei_iso8859_9},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 279 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1758, ei_koi8_u},
-#line 321 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1759, ei_cp1256},
+#line 806 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2497, ei_ebcdic1149},
+    {-1},
+#line 88 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2499, ei_sjis},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 161 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2519, ei_johab},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 355 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2527, ei_cp862},
+    {-1}, {-1}, {-1},
+#line 242 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2531, ei_iso8859_8},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 644 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2542, ei_ebcdic297},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 177 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2553, ei_iso8859_1},
+    {-1}, {-1}, {-1},
+#line 284 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2557, ei_iso8859_16},
+#line 219 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2558, ei_iso8859_6},
+#line 248 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2559, ei_iso8859_9},
+#line 210 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2560, ei_iso8859_5},
+#line 586 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2561, ei_cp869},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 203 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2568, ei_iso8859_4},
+    {-1},
+#line 514 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2570, ei_cp1129},
+#line 665 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2571, ei_ebcdic838},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 107 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1776, ei_ces_gbk},
-    {-1}, {-1},
-#line 250 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1779, ei_iso8859_13},
+#line 364 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2579, ei_mac_roman},
+    {-1},
+#line 790 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2581, ei_ebcdic1147},
+    {-1}, {-1}, {-1},
+#line 376 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2585, ei_mac_iceland},
+    {-1},
+#line 187 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2587, ei_iso8859_2},
+    {-1}, {-1}, {-1},
+#line 85 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2591, ei_sjis},
+    {-1}, {-1}, {-1}, {-1},
+#line 465 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2596, ei_jisx0201},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 86 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1791, ei_sjis},
-#line 450 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1792, ei_iso646_jp},
+#line 456 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2608, ei_tcvn},
+    {-1}, {-1}, {-1},
+#line 557 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2612, ei_cp858},
+    {-1}, {-1}, {-1}, {-1},
+#line 604 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2617, ei_ebcdic037},
     {-1}, {-1},
-#line 18 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1795, ei_ascii},
-#line 476 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1796, ei_iso646_cn},
+#line 559 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2620, ei_cp858},
     {-1},
-#line 796 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1798, ei_ebcdic1149},
-#line 487 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1799, ei_ksc5601},
+#line 86 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2622, ei_sjis},
+#line 712 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2623, ei_ebcdic1097},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 718 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1805, ei_ebcdic1137},
+#line 532 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2629, ei_cp437},
     {-1}, {-1}, {-1}, {-1},
-#line 468 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1810, ei_jisx0212},
-#line 594 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1811, ei_ebcdic037},
-    {-1}, {-1}, {-1},
-#line 592 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1815, ei_ebcdic037},
+#line 428 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2634, ei_pt154},
+    {-1},
+#line 439 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2636, ei_cp1133},
     {-1}, {-1}, {-1},
-#line 32 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1819, ei_ucs2},
+#line 545 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2640, ei_cp853},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 593 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2646, ei_cp1125},
+    {-1}, {-1}, {-1}, {-1},
+#line 256 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2651, ei_iso8859_10},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 377 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2658, ei_mac_iceland},
     {-1}, {-1},
-#line 603 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1822, ei_ebcdic277},
+#line 477 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2661, ei_jisx0212},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1},
-#line 536 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1827, ei_cp853},
+#line 160 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2675, ei_cp949},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 19 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1829, ei_ascii},
-    {-1}, {-1},
-#line 251 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1832, ei_iso8859_13},
-    {-1}, {-1},
-#line 75 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1835, ei_java},
-    {-1}, {-1},
-#line 447 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1838, ei_tcvn},
+#line 615 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2695, ei_ebcdic277},
     {-1}, {-1}, {-1}, {-1},
-#line 460 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1843, ei_jisx0208},
+#line 196 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2700, ei_iso8859_3},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 535 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2709, ei_cp737},
+#line 488 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2710, ei_gb2312},
     {-1},
-#line 666 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1845, ei_ebcdic871},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 662 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1851, ei_ebcdic870},
-#line 372 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1852, ei_mac_romania},
+#line 24 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2712, ei_ascii},
+#line 291 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2713, ei_koi8_ru},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1},
-#line 665 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1864, ei_ebcdic871},
-    {-1},
-#line 588 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1866, ei_ebcdic037},
-    {-1}, {-1},
-#line 779 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1869, ei_ebcdic1147},
     {-1},
-#line 446 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1871, ei_tcvn},
-    {-1}, {-1},
-#line 455 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1874, ei_jisx0201},
+#line 386 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2724, ei_mac_cyrillic},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 411 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2733, ei_mac_thai},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 591 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1881, ei_ebcdic037},
-#line 661 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1882, ei_ebcdic870},
-#line 54 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1883, ei_utf16be},
+#line 544 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2740, ei_cp853},
+    {-1},
+#line 171 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2742, ei_iso8859_1},
+#line 257 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2743, ei_iso8859_11},
+    {-1},
+#line 159 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2745, ei_cp949},
+    {-1},
+#line 458 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2747, ei_tcvn},
+    {-1},
+#line 251 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2749, ei_iso8859_10},
     {-1}, {-1}, {-1}, {-1},
-#line 234 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1888, ei_iso8859_9},
-#line 701 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1889, ei_ebcdic1097},
+#line 206 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2754, ei_iso8859_5},
+#line 271 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2755, ei_iso8859_15},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 642 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2771, ei_ebcdic297},
+#line 198 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2772, ei_iso8859_4},
+#line 265 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2773, ei_iso8859_14},
     {-1}, {-1}, {-1},
-#line 243 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1893, ei_iso8859_10},
+#line 378 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2777, ei_mac_croatian},
+    {-1}, {-1},
+#line 457 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2780, ei_tcvn},
+#line 250 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2781, ei_iso8859_9},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 553 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2787, ei_cp857},
+#line 370 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2788, ei_mac_centraleurope},
+    {-1},
+#line 433 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2790, ei_rk1048},
+    {-1}, {-1}, {-1}, {-1},
+#line 799 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2795, ei_ebcdic1148},
+    {-1}, {-1},
+#line 179 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2798, ei_iso8859_1},
+#line 174 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2799, ei_iso8859_1},
+#line 36 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2800, ei_ucs2be},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 182 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2810, ei_iso8859_2},
+    {-1}, {-1},
+#line 613 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2813, ei_ebcdic277},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 379 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1902, ei_mac_ukraine},
-#line 222 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1903, ei_iso8859_7},
-#line 145 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1904, ei_euc_kr},
-    {-1}, {-1}, {-1},
-#line 778 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1908, ei_ebcdic1147},
+#line 118 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2822, ei_gb18030_2022},
     {-1},
-#line 281 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1910, ei_koi8_ru},
-#line 696 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1911, ei_ebcdic1047},
-    {-1}, {-1}, {-1},
-#line 494 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1915, ei_cp943},
-    {-1}, {-1}, {-1},
-#line 564 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1919, ei_cp863},
-#line 514 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1920, ei_cp1163},
-#line 304 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1921, ei_cp1253},
-    {-1}, {-1}, {-1},
-#line 199 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1925, ei_iso8859_5},
-#line 262 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1926, ei_iso8859_15},
-    {-1}, {-1}, {-1},
-#line 229 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1930, ei_iso8859_8},
+#line 472 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2824, ei_jisx0208},
+    {-1}, {-1},
+#line 861 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2827, ei_atarist},
+#line 354 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2828, ei_cp862},
     {-1},
-#line 359 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1932, ei_mac_centraleurope},
+#line 555 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2830, ei_cp857},
     {-1},
-#line 191 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1934, ei_iso8859_4},
-#line 256 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1935, ei_iso8859_14},
-#line 210 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1936, ei_iso8859_6},
+#line 573 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2832, ei_cp863},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 588 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2838, ei_cp869},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 269 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1954, ei_iso8859_16},
+#line 643 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2848, ei_ebcdic297},
     {-1},
-#line 832 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1956, ei_ebcdic4971},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 166 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1965, ei_iso8859_1},
-    {-1}, {-1}, {-1},
-#line 633 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1969, ei_ebcdic297},
+#line 241 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2850, ei_iso8859_8},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 859 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2857, ei_tds565},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 474 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1975, ei_iso646_cn},
-    {-1}, {-1}, {-1},
-#line 631 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1979, ei_ebcdic297},
+#line 694 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2863, ei_ebcdic924},
+    {-1},
+#line 232 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2865, ei_iso8859_7},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 23 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2882, ei_ascii},
+#line 350 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2883, ei_cp850},
+    {-1}, {-1}, {-1}, {-1},
+#line 444 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2888, ei_tis620},
+    {-1},
+#line 614 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2890, ei_ebcdic277},
+#line 443 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2891, ei_tis620},
+    {-1},
+#line 805 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2893, ei_ebcdic1149},
     {-1}, {-1}, {-1},
-#line 226 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1983, ei_iso8859_8},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 843 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1989, ei_shift_jisx0213},
-    {-1}, {-1},
-#line 653 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str1992, ei_ebcdic838},
+#line 585 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2897, ei_cp869},
+#line 490 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2898, ei_gb2312},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 674 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2008, ei_ebcdic880},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 267 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2915, ei_iso8859_14},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 73 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2020, ei_ucs4swapped},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 364 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2026, ei_mac_iceland},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1},
-#line 71 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2039, ei_ucs2swapped},
-#line 464 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2040, ei_jisx0208},
-#line 66 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2041, ei_utf7},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 523 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2048, ei_cp737},
+#line 478 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2927, ei_jisx0212},
     {-1}, {-1},
-#line 363 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2051, ei_mac_iceland},
+#line 813 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2930, ei_ebcdic1153},
     {-1}, {-1}, {-1}, {-1},
-#line 275 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2056, ei_koi8_r},
+#line 268 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2935, ei_iso8859_14},
+#line 436 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2936, ei_mulelao},
+    {-1},
+#line 213 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2938, ei_iso8859_6},
+#line 279 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2939, ei_iso8859_16},
+#line 680 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2940, ei_ebcdic875},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 574 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2063, ei_cp869},
-    {-1}, {-1},
-#line 112 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2066, ei_gb18030_2005},
-    {-1}, {-1},
-#line 842 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2069, ei_euc_jisx0213},
+#line 252 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2947, ei_iso8859_10},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 259 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2957, ei_iso8859_13},
+#line 66 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2958, ei_utf7},
     {-1}, {-1}, {-1},
-#line 449 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2073, ei_iso646_jp},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 60 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2079, ei_utf32be},
-    {-1},
-#line 577 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2081, ei_cp869},
-#line 417 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2082, ei_pt154},
-    {-1}, {-1},
-#line 472 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2085, ei_iso646_cn},
+#line 858 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2962, ei_big5_2003},
+#line 236 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2963, ei_iso8859_8},
     {-1}, {-1}, {-1}, {-1},
-#line 132 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2090, ei_ces_big5},
-    {-1}, {-1}, {-1},
-#line 115 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2094, ei_gb18030_2022},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 459 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2100, ei_jisx0208},
-#line 400 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2101, ei_mac_thai},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 221 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2110, ei_iso8859_7},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 224 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2118, ei_iso8859_7},
+#line 426 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2968, ei_pt154},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 103 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2127, ei_euc_cn},
+#line 789 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2977, ei_ebcdic1147},
     {-1}, {-1},
-#line 323 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2130, ei_cp1256},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 595 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2137, ei_ebcdic273},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 520 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2143, ei_cp437},
+#line 707 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2980, ei_ebcdic1047},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1},
-#line 223 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2155, ei_iso8859_7},
+#line 485 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2992, ei_iso646_cn},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 635 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2171, ei_ebcdic423},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 237 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3007, ei_iso8859_8},
+#line 280 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3008, ei_iso8859_16},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 407 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3018, ei_mac_arabic},
+    {-1}, {-1},
+#line 598 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3021, ei_ebcdic037},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 183 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2179, ei_iso8859_3},
+#line 117 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3029, ei_gb18030_2005},
+    {-1}, {-1}, {-1},
+#line 529 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3033, ei_cp437},
+    {-1}, {-1}, {-1}, {-1},
+#line 57 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3038, ei_utf16le},
     {-1}, {-1},
-#line 602 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2182, ei_ebcdic277},
-#line 139 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2183, ei_big5hkscs2001},
-    {-1},
-#line 814 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2185, ei_ebcdic1157},
+#line 437 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3041, ei_cp1133},
     {-1}, {-1}, {-1}, {-1},
-#line 525 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2190, ei_cp775},
-    {-1},
-#line 620 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2192, ei_ebcdic284},
+#line 108 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3046, ei_euc_cn},
+    {-1}, {-1}, {-1}, {-1},
+#line 80 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3051, ei_euc_jp},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 140 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2198, ei_big5hkscs2004},
+#line 120 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3057, ei_gb18030_2022},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 780 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2204, ei_ebcdic1147},
-#line 327 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2205, ei_cp1257},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 542 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2213, ei_cp857},
-    {-1}, {-1}, {-1}, {-1},
-#line 649 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2218, ei_ebcdic500},
-#line 329 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2219, ei_cp1257},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 193 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3063, ei_iso8859_3},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 382 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3072, ei_mac_romania},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1},
-#line 380 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2240, ei_mac_ukraine},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 394 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3090, ei_mac_greek},
+#line 316 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3091, ei_cp1253},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 249 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3100, ei_iso8859_9},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 495 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3108, ei_ksc5601},
+    {-1},
+#line 260 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3110, ei_iso8859_13},
     {-1}, {-1}, {-1},
-#line 80 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2244, ei_euc_jp},
+#line 852 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3114, ei_euc_jisx0213},
     {-1},
-#line 605 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2246, ei_ebcdic278},
-#line 142 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2247, ei_big5hkscs2008},
-    {-1}, {-1},
-#line 291 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2250, ei_cp1251},
+#line 20 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3116, ei_ascii},
     {-1}, {-1},
-#line 287 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2253, ei_cp1250},
+#line 616 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3119, ei_ebcdic278},
+#line 730 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3120, ei_ebcdic1137},
+#line 537 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3121, ei_cp775},
     {-1}, {-1},
-#line 314 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2256, ei_cp1255},
-    {-1}, {-1}, {-1}, {-1},
-#line 371 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2261, ei_mac_romania},
+#line 554 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3124, ei_cp857},
     {-1}, {-1}, {-1},
-#line 308 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2265, ei_cp1254},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 274 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3128, ei_iso8859_15},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 276 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3137, ei_iso8859_15},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 343 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2280, ei_cp862},
+#line 474 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3143, ei_jisx0208},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 494 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3150, ei_ksc5601},
+    {-1},
+#line 153 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3152, ei_euc_kr},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 156 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3159, ei_euc_kr},
+#line 135 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3160, ei_euc_tw},
     {-1}, {-1}, {-1},
-#line 297 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2284, ei_cp1252},
+#line 238 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3164, ei_iso8859_8},
+    {-1},
+#line 112 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3166, ei_ces_gbk},
+    {-1}, {-1}, {-1}, {-1},
+#line 339 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3171, ei_cp1257},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 214 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2294, ei_iso8859_7},
-#line 153 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2295, ei_johab},
+    {-1}, {-1}, {-1},
+#line 231 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3184, ei_iso8859_7},
+    {-1},
+#line 505 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3186, ei_cp943},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 460 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3202, ei_iso646_jp},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 561 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3210, ei_cp858},
+#line 195 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3211, ei_iso8859_3},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 332 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2314, ei_cp1258},
+    {-1},
+#line 415 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3222, ei_hp_roman8},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 109 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3233, ei_euc_cn},
+    {-1},
+#line 770 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3235, ei_ebcdic1144},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
 #line 606 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2333, ei_ebcdic278},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3247, ei_ebcdic273},
+    {-1}, {-1}, {-1}, {-1},
+#line 640 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3252, ei_ebcdic297},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 320 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2348, ei_cp1256},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 125 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2365, ei_euc_tw},
+#line 157 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3258, ei_euc_kr},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 664 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3264, ei_ebcdic838},
+    {-1}, {-1}, {-1}, {-1},
+#line 758 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3269, ei_ebcdic1143},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 610 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3294, ei_ebcdic277},
+    {-1},
+#line 498 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3296, ei_ksc5601},
     {-1}, {-1}, {-1}, {-1},
-#line 717 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2388, ei_ebcdic1137},
+#line 367 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3301, ei_mac_roman},
+    {-1}, {-1}, {-1}, {-1},
+#line 374 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3306, ei_mac_iceland},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 544 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2395, ei_cp857},
+#line 32 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3313, ei_ucs2},
+    {-1}, {-1}, {-1}, {-1},
+#line 786 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3318, ei_ebcdic1146},
+#line 387 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3319, ei_mac_cyrillic},
+    {-1}, {-1}, {-1}, {-1},
+#line 711 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3324, ei_ebcdic1097},
     {-1}, {-1}, {-1},
-#line 164 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2399, ei_iso8859_1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 587 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2406, ei_ebcdic037},
-    {-1},
-#line 526 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2408, ei_cp775},
+#line 127 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3328, ei_iso2022_cn},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 207 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3336, ei_iso8859_5},
+#line 272 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3337, ei_iso8859_15},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 199 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3345, ei_iso8859_4},
+#line 266 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3346, ei_iso8859_14},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 518 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2418, ei_cp437},
+#line 227 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3356, ei_iso8859_7},
+    {-1},
+#line 434 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3358, ei_rk1048},
     {-1}, {-1}, {-1}, {-1},
-#line 388 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2423, ei_mac_turkish},
+#line 497 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3363, ei_ksc5601},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 175 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2433, ei_iso8859_2},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 230 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3396, ei_iso8859_7},
+#line 303 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3397, ei_cp1251},
+    {-1},
+#line 391 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3399, ei_mac_ukraine},
+#line 297 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3400, ei_cp1250},
+    {-1}, {-1},
+#line 326 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3403, ei_cp1255},
+#line 65 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3404, ei_utf7},
+    {-1},
+#line 111 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3406, ei_euc_cn},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 320 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3412, ei_cp1254},
+    {-1},
+#line 825 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3414, ei_ebcdic1157},
+    {-1}, {-1}, {-1}, {-1},
+#line 536 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3419, ei_cp775},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 309 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3431, ei_cp1252},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 465 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2449, ei_jisx0208},
+#line 469 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3438, ei_jisx0208},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 535 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2459, ei_cp853},
+#line 340 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3448, ei_cp1257},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 728 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3456, ei_ebcdic1137},
+    {-1}, {-1},
+#line 41 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3459, ei_ucs2le},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 169 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3468, ei_dec_kanji},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 463 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2483, ei_jisx0208},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1},
-#line 206 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2497, ei_iso8859_6},
-    {-1}, {-1}, {-1},
-#line 20 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2501, ei_ascii},
-#line 154 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2502, ei_johab},
+#line 479 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3492, ei_jisx0212},
+    {-1}, {-1},
+#line 332 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3495, ei_cp1256},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 379 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3501, ei_mac_croatian},
+#line 414 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3502, ei_hp_roman8},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 303 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2510, ei_cp1253},
+#line 73 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3510, ei_ucs4internal},
     {-1}, {-1}, {-1},
-#line 220 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2514, ei_iso8859_7},
-    {-1}, {-1},
-#line 841 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2517, ei_euc_jisx0213},
-#line 629 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2518, ei_ebcdic297},
+#line 534 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3514, ei_cp737},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 71 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3529, ei_ucs2internal},
     {-1},
-#line 607 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2520, ei_ebcdic278},
-    {-1}, {-1}, {-1},
-#line 138 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2524, ei_big5hkscs1999},
+#line 34 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3531, ei_ucs2be},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 447 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3545, ei_tis620},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 391 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2535, ei_mac_hebrew},
+#line 466 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3556, ei_jisx0201},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 623 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3563, ei_ebcdic280},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 459 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3572, ei_tcvn},
     {-1},
-#line 235 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2537, ei_iso8859_9},
+#line 302 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3574, ei_cp1251},
+    {-1}, {-1},
+#line 298 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3577, ei_cp1250},
+    {-1}, {-1},
+#line 325 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3580, ei_cp1255},
     {-1}, {-1}, {-1},
-#line 161 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2541, ei_dec_kanji},
+#line 233 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3584, ei_iso8859_8},
+    {-1}, {-1}, {-1}, {-1},
+#line 319 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3589, ei_cp1254},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 308 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3608, ei_cp1252},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 690 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3614, ei_ebcdic905},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 63 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3632, ei_utf32le},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 855 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3642, ei_shift_jisx0213},
     {-1},
-#line 852 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2552, ei_riscos1},
+#line 769 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3644, ei_ebcdic1144},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 135 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2562, ei_cp950},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 390 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3660, ei_mac_ukraine},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 807 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3669, ei_ebcdic1149},
+    {-1}, {-1},
+#line 331 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3672, ei_cp1256},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 229 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3701, ei_iso8859_7},
+    {-1}, {-1},
+#line 67 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3704, ei_utf7},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 863 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3714, ei_riscos1},
+    {-1}, {-1},
+#line 55 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3717, ei_utf16be},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 685 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3735, ei_ebcdic880},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 127 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2588, ei_euc_tw},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 234 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3751, ei_iso8859_8},
     {-1},
-#line 679 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2590, ei_ebcdic905},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 791 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3753, ei_ebcdic1147},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 487 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3759, ei_iso646_cn},
+    {-1},
+#line 140 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3761, ei_ces_big5},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 475 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3779, ei_jisx0208},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 630 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2635, ei_ebcdic297},
-    {-1}, {-1}, {-1}, {-1},
-#line 328 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2640, ei_cp1257},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 601 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2647, ei_ebcdic277},
-    {-1}, {-1}, {-1}, {-1},
-#line 700 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2652, ei_ebcdic1097},
+#line 637 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3806, ei_ebcdic285},
+    {-1}, {-1},
+#line 172 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3809, ei_iso8859_1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 344 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3818, ei_cp1258},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1},
-#line 766 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2657, ei_ebcdic1145},
+#line 449 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3832, ei_cp874},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 183 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3843, ei_iso8859_2},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 368 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2681, ei_mac_croatian},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1},
-#line 216 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2693, ei_iso8859_7},
     {-1}, {-1}, {-1},
-#line 640 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2697, ei_ebcdic424},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 612 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2712, ei_ebcdic280},
+#line 130 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3865, ei_hz},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 146 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2720, ei_euc_kr},
-#line 599 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2721, ei_ebcdic277},
+#line 383 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3873, ei_mac_romania},
+#line 79 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3874, ei_euc_jp},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 471 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3882, ei_jisx0208},
     {-1}, {-1}, {-1}, {-1},
-#line 77 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2726, ei_euc_jp},
-    {-1}, {-1}, {-1}, {-1}, {-1},
-#line 660 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2732, ei_ebcdic870},
+#line 672 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3887, ei_ebcdic870},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 671 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3904, ei_ebcdic870},
+    {-1}, {-1},
+#line 214 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3907, ei_iso8859_6},
     {-1}, {-1}, {-1}, {-1}, {-1},
-#line 448 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2747, ei_tcvn},
-    {-1}, {-1}, {-1},
-#line 626 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2751, ei_ebcdic285},
-    {-1},
-#line 758 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2753, ei_ebcdic1144},
+#line 403 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3913, ei_mac_hebrew},
+    {-1}, {-1}, {-1}, {-1},
+#line 533 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3918, ei_cp737},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1},
-#line 774 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2775, ei_ebcdic1146},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 850 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2784, ei_atarist},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 326 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2794, ei_cp1257},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 396 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2829, ei_mac_arabic},
-    {-1},
-#line 78 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2831, ei_euc_jp},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 798 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2839, ei_ebcdic1149},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 437 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2847, ei_cp874},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 191 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3988, ei_iso8859_3},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 343 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3995, ei_cp1258},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 601 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4012, ei_ebcdic037},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 612 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4020, ei_ebcdic277},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 617 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4043, ei_ebcdic278},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 315 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4055, ei_cp1253},
+    {-1}, {-1},
+#line 190 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4058, ei_iso8859_3},
+#line 258 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4059, ei_iso8859_13},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 170 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4070, ei_dec_hanyu},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 659 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4095, ei_ebcdic500},
     {-1}, {-1}, {-1}, {-1},
-#line 589 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2924, ei_ebcdic037},
+#line 646 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4100, ei_ebcdic423},
+    {-1}, {-1}, {-1},
+#line 365 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4104, ei_mac_roman},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 531 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4119, ei_cp437},
+#line 402 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4120, ei_mac_hebrew},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 215 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2943, ei_iso8859_7},
+#line 87 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4130, ei_sjis},
     {-1}, {-1}, {-1},
-#line 522 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2947, ei_cp737},
+#line 785 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4134, ei_ebcdic1146},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1},
-#line 648 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str2961, ei_ebcdic500},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 600 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4163, ei_ebcdic037},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 417 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4170, ei_hp_roman8},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 790 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3005, ei_ebcdic1148},
-#line 109 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3006, ei_cp936},
     {-1},
-#line 384 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3008, ei_mac_greek},
+#line 483 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4208, ei_iso646_cn},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 314 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4232, ei_cp1253},
+    {-1}, {-1}, {-1},
+#line 84 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4236, ei_sjis},
+    {-1}, {-1},
+#line 19 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4239, ei_ascii},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 724 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3036, ei_ebcdic1140},
+    {-1}, {-1}, {-1},
+#line 546 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4252, ei_cp853},
+    {-1}, {-1},
+#line 476 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4255, ei_jisx0208},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 147 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4285, ei_big5hkscs2001},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 228 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4293, ei_iso8859_7},
+    {-1}, {-1}, {-1},
+#line 338 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4297, ei_cp1257},
+    {-1}, {-1},
+#line 148 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4300, ei_big5hkscs2004},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 61 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4311, ei_utf32be},
+    {-1}, {-1}, {-1},
+#line 74 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4315, ei_ucs4swapped},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 801 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4326, ei_ebcdic1148},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 72 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4334, ei_ucs2swapped},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 641 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4345, ei_ebcdic297},
+    {-1}, {-1}, {-1}, {-1},
+#line 375 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4350, ei_mac_iceland},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1},
+#line 676 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4361, ei_ebcdic871},
+    {-1},
+#line 599 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4363, ei_ebcdic037},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 696 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4377, ei_ebcdic924},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 143 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4403, ei_cp950},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1},
-#line 750 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3137, ei_ebcdic1143},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 243 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4458, ei_iso8859_9},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 398 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4467, ei_mac_turkish},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 670 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3162, ei_ebcdic875},
+#line 337 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4474, ei_cp1257},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 685 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3188, ei_ebcdic924},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 741 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3206, ei_ebcdic1142},
+#line 419 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4500, ei_nextstep},
+#line 224 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4501, ei_iso8859_7},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1},
-#line 782 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3226, ei_ebcdic1147},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 470 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4537, ei_jisx0208},
+    {-1}, {-1}, {-1}, {-1},
+#line 222 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4542, ei_iso8859_7},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1},
-#line 590 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3248, ei_ebcdic037},
+#line 81 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4555, ei_euc_jp},
+    {-1}, {-1},
+#line 777 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4558, ei_ebcdic1145},
+    {-1}, {-1}, {-1},
+#line 18 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4562, ei_ascii},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1},
-#line 749 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3278, ei_ebcdic1143},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 244 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4625, ei_iso8859_9},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 392 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3315, ei_mac_hebrew},
+    {-1}, {-1}, {-1}, {-1},
+#line 752 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4657, ei_ebcdic1142},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 468 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4691, ei_jisx0201},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1},
+#line 150 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4706, ei_big5hkscs2008},
+    {-1}, {-1},
+#line 223 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4709, ei_iso8859_7},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 618 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4741, ei_ebcdic278},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 149 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4768, ei_big5hkscs2008},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 854 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4813, ei_shift_jisx0213},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 760 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4854, ei_ebcdic1143},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1},
+#line 631 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4876, ei_ebcdic284},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 448 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4884, ei_cp874},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 809 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4909, ei_ebcdic1149},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 602 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4946, ei_ebcdic037},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 457 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3558, ei_jisx0201},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 793 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4963, ei_ebcdic1147},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
@@ -4151,18 +4345,39 @@ static const struct alias aliases[] =
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1},
-#line 600 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3632, ei_ebcdic277},
+#line 761 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5037, ei_ebcdic1143},
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1},
+#line 399 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5059, ei_mac_turkish},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 421 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5087, ei_georgian_academy},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 743 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5135, ei_ebcdic1141},
+    {-1}, {-1}, {-1}, {-1},
+#line 651 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5140, ei_ebcdic424},
+    {-1}, {-1},
+#line 146 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5143, ei_big5hkscs1999},
+    {-1}, {-1}, {-1},
+#line 735 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5147, ei_ebcdic1140},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 660 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5159, ei_ebcdic500},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
@@ -4172,6 +4387,9 @@ static const struct alias aliases[] =
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 114 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5245, ei_cp936},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
@@ -4179,33 +4397,51 @@ static const struct alias aliases[] =
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1},
+#line 422 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5312, ei_georgian_ps},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1}, {-1}, {-1},
+#line 162 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5326, ei_johab},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-#line 732 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str3885, ei_ebcdic1141},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 395 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5356, ei_mac_greek},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 154 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5411, ei_euc_kr},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+    {-1}, {-1},
+#line 751 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5459, ei_ebcdic1142},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 611 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5487, ei_ebcdic277},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 37 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5515, ei_ucs2be},
+#line 681 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5516, ei_ebcdic875},
     {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
-    {-1},
-#line 740 "lib/generated/aliases.gperf"
-    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str4067, ei_ebcdic1142}
+    {-1}, {-1}, {-1}, {-1}, {-1}, {-1}, {-1},
+#line 78 "lib/generated/aliases.gperf"
+    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str5533, ei_euc_jp}
   };
 
 const struct alias *
-- 
2.43.0


From 8da0036cabaf2af91fe704bcbbe7c3d475659889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 15/17] fix: reiconv_result_size does not change the byte order
 that the conversion starts with

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index a2f61dc..2740fdc 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -240,6 +240,7 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
 {
     size_t count = 0;
     char tmpbuf[TEMP_BUFFER_SIZE];
+    state_t ibyteorder = ((conv_t)cd)->ibyteorder; // Byte-order marks count only when the text is really converted.
     char *inptr = (char *)start;
     size_t insize = inlength;
     while (insize > 0)
@@ -255,6 +256,7 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
             }
             // Return to the initial state.
             reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            ((conv_t)cd)->ibyteorder = ibyteorder;
             return (size_t)(-1);
         }
         count += outptr - tmpbuf;
@@ -266,9 +268,11 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     {
         // Return to the initial state.
         reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+        ((conv_t)cd)->ibyteorder = ibyteorder;
         return (size_t)(-1);
     }
     reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+    ((conv_t)cd)->ibyteorder = ibyteorder;
     return count + outptr - tmpbuf;
 }
 
-- 
2.43.0


From 2fae20def3a0bdabbede54a5c0c3754ce9e1a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 16/17] fix: a character that produces no output needs no room
 in the output buffer

With a full buffer the loop reported E2BIG even for characters that are
dropped, so reiconv_convert failed with E2BIG when the input ended with one.
---
 lib/loop_unicode.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 6fa411a..8b234d2 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -34,6 +34,23 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* Encode a character without room in the output buffer. Returns 0 if it produces no output (for now), 1 if it is
+   discarded, RET_TOOSMALL otherwise. */
+static int unicode_loop_encode_nothing(conv_t cd, ucs4_t wc)
+{
+    unsigned char buf[64];
+    state_t last_ostate = cd->ostate;
+    int outcount = cd->ofuncs.xxx_wctomb(cd, buf, wc, sizeof(buf));
+    if (outcount == 0)
+        return 0;
+    cd->ostate = last_ostate;
+    if (outcount != RET_ILUNI)
+        return RET_TOOSMALL;
+    if ((wc >> 7) == (0xe0000 >> 7))
+        return 0;
+    return cd->discard_ilseq ? 1 : RET_TOOSMALL;
+}
+
 static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *inbytesleft, char **outbuf,
                                    size_t *outbytesleft)
 {
@@ -107,6 +124,12 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
             /* Case 4: k bytes read, making up a wide character */
             if (outleft == 0)
             {
+                outcount = unicode_loop_encode_nothing(cd, wc);
+                if (outcount >= 0)
+                {
+                    result += outcount;
+                    goto outcount_zero;
+                }
                 cd->istate = last_istate;
                 errno = E2BIG;
                 result = -1;
@@ -181,6 +204,12 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
                 int outcount;
                 if (outleft == 0)
                 {
+                    outcount = unicode_loop_encode_nothing(cd, wc);
+                    if (outcount >= 0)
+                    {
+                        result += outcount;
+                        goto outcount_zero;
+                    }
                     cd->istate = last_istate;
                     errno = E2BIG;
                     return -1;
-- 
2.43.0


From 5b892e24378d3b3e2989aa539995cb32c7771f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:31 +0000
Subject: [PATCH 17/17] fix: reiconv::convert closes its descriptor when the
 result cannot be allocated

---
 lib/reiconv.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index e0e92a9..fd2efe1 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -66,7 +66,16 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
         throw std::system_error(errno, std::system_category(), "reiconv_result_size");
     }
 
-    std::string res(outlen, '\0');
+    std::string res;
+    try
+    {
+        res.resize(outlen);
+    }
+    catch (...)
+    {
+        ::reiconv_handle_close(cd);
+        throw;
+    }
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
-- 
2.43.0

