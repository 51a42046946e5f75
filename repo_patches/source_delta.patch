From 5406e2d721754ed11dafb46d41d0c65daf823fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 1/9] fix: transform strings of one and two bytes instead of
 crashing

extract_LMS_strings returned without a hash table for n <= 2, which
sort_LMS_strings then dereferenced, and the loop of
create_shortened_string wrapped around for n == 1.
---
 src/flbwt.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..cfc050f 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -320,8 +320,8 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
+    // If T is empty, then return the result immediately
+    if (n == 0)
         return container;
 
     // Initialize hash table where unique substrings are stored
@@ -526,7 +526,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (int64_t i = n - 2; i >= 0; i--)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
@@ -553,9 +553,6 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
 
             previous_type = TYPE_L;
         }
-
-        if (i == 0)
-            break; // to prevent integer underflow
     }
 
     T1->set_value(0, max_name);
-- 
2.43.0


From 1cf46d3123e85e1396cc5ce9515b102f4b213f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 2/9] fix: write trailing zero bytes of a stored substring
 length

HashTable::set_length stopped as soon as the remaining length bits were
zero, so the low bytes of lengths such as 256 or 65536 were whatever the
freshly allocated memory contained.
---
 src/hashtable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..41ed320 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -175,7 +175,8 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    // write every length byte, also trailing bytes that are zero
+    for (uint8_t i = 0; i < *r; i++)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0


From 358b9aecac33378314f780cdd2fee2bedca690d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 3/9] fix: reject inputs that cannot be measured or read
 completely

The result of fseek and ftell was not checked, so that for an input that
cannot be measured (a pipe, say) n became 2^64-1, malloc(0) followed and
fread wrote behind it. A read that failed after part of the file was
accepted and the rest of the string was uninitialised memory.
---
 src/flbwt.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index cfc050f..a11dd82 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -34,9 +34,15 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (fp == NULL)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
-    fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
-    rewind(fp);
+    long size = -1;
+    if (fseek(fp, 0L, SEEK_END) == 0)
+        size = ftell(fp);
+    if (size < 0 || fseek(fp, 0L, SEEK_SET) != 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("fseek failed(): Could not determine the size of the input file");
+    }
+    n = size;
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
 
@@ -46,7 +52,7 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
         throw std::runtime_error("fread failed(): Could not read input file");
     fclose(fp);
 
-- 
2.43.0


From 012e9d27b6d44421a67da31652de82f7d6db8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 4/9] fix: report an output file that could not be written
 completely

The results of fwrite and fclose were ignored, so a full disk or a write
error left a truncated output file and a successful exit.
---
 src/flbwt.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index a11dd82..fdc7d34 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -66,6 +66,7 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     // std::cout << "Running time: " << ((double)(end - begin) / CLOCKS_PER_SEC) << std::endl;
 
     // Write the bwt to the output file */
+    bool written = true;
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
@@ -83,26 +84,27 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[5] = (0x0000000000ff0000 & B->last) >> 16;
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
-        fwrite(rank, sizeof(uint8_t), 8, fp);
+        written = fwrite(rank, sizeof(uint8_t), 8, fp) == 8;
         delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
         {
-            fwrite(B->BWT + 1, sizeof(uint8_t), n, fp);
+            written = fwrite(B->BWT + 1, sizeof(uint8_t), n, fp) == n && written;
         }
         else if (B->last == n)
         {
-            fwrite(B->BWT, sizeof(uint8_t), n, fp);
+            written = fwrite(B->BWT, sizeof(uint8_t), n, fp) == n && written;
         }
         else
         {
-            fwrite(B->BWT, sizeof(uint8_t), B->last, fp);
-            fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp);
+            written = fwrite(B->BWT, sizeof(uint8_t), B->last, fp) == B->last && written;
+            written = fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp) == n - B->last && written;
         }
     }
 
-    fclose(fp);
+    if (fclose(fp) != 0)
+        written = false;
 
     // Release result resources
     if (B != NULL)
@@ -111,6 +113,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (!written)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From 960a960f1144aa4d11b3131dcf27ef0fb7fb7b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 5/9] fix: release memory and files when bwt_file fails

The string and the input stream leaked when the input could not be read,
and the result leaked when the output could not be opened.
---
 src/flbwt.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index fdc7d34..04bc2e1 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -53,7 +53,11 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     }
 
     if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        fclose(fp);
+        free(T);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
@@ -70,7 +74,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        if (B != NULL)
+            delete[] B->BWT;
+        free(B);
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
 
     if (B != NULL && B->BWT != NULL)
     {
-- 
2.43.0


From d8a70c668af3bf4fe412de4dca4361377b4cf027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 6/9] fix: throw std::bad_alloc when malloc or realloc fails

The results of these calls were used unchecked, so running out of memory
dereferenced a null pointer.
---
 src/flbwt.cpp        | 5 +++++
 src/hashtable.cpp    | 3 +++
 src/induce32bit.cpp  | 3 +++
 src/induce40bit.cpp  | 3 +++
 src/induce48bit.cpp  | 3 +++
 src/induce56bit.cpp  | 3 +++
 src/induce64bit.cpp  | 3 +++
 src/packed_array.cpp | 3 +++
 src/queue.cpp        | 5 +++++
 9 files changed, 31 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 04bc2e1..5c7696b 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <iostream>
+#include <new>
 // #include <time.h>
 #include <stdlib.h>
 #include "flbwt.hpp"
@@ -402,6 +403,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
 {
     // array s will hold hashtable positions of sorted S* substrings
     uint8_t **s = (uint8_t **)malloc((container->num_of_unique_substrings + 2) * sizeof(uint8_t *));
+    if (s == NULL)
+        throw std::bad_alloc();
 
     uint64_t p, i, j, l, m;
     uint8_t *r, *q;
@@ -412,6 +415,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
     uint64_t space_required = 1 + 1 + container->hashtable->calculate_lenlen(p + 1) + (p + 1) + container->hashtable->NAME_BYTES;
     space_required += 1 + 1 + 1 + 1 + container->hashtable->NAME_BYTES;
     r = (uint8_t *)realloc(container->hashtable->buf, container->hashtable->bufsize + space_required);
+    if (r == NULL)
+        throw std::bad_alloc();
     if (r != container->hashtable->buf)
         container->hashtable->buf = r;
     container->hashtable->bufsize += space_required;
diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 41ed320..deebc75 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <algorithm>
+#include <new>
 #include "hashtable.hpp"
 #include "utility.hpp"
 
@@ -88,6 +89,8 @@ uint8_t flbwt::HashTable::insert_string(const uint64_t m, uint8_t *p)
     if ((int64_t)space_required >= (int64_t)this->rest[h] - 12)
     {
         r2 = (uint8_t *)realloc(this->buf, this->bufsize + this->HBSIZE + space_required);
+        if (r2 == NULL)
+            throw std::bad_alloc();
 
         if (r2 != this->buf)
             this->buf = r2;
diff --git a/src/induce32bit.cpp b/src/induce32bit.cpp
index afba1a6..50fd941 100644
--- a/src/induce32bit.cpp
+++ b/src/induce32bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce32bit.hpp"
 #include "queue.hpp"
 
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_32bit(int32_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce40bit.cpp b/src/induce40bit.cpp
index da4e17f..cda710a 100644
--- a/src/induce40bit.cpp
+++ b/src/induce40bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce40bit.hpp"
 #include "sais40bit.hpp"
 #include "queue.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_40bit(uint32_t *SA_L, int8_t *SA_U, flbwt::
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce48bit.cpp b/src/induce48bit.cpp
index 5d67da7..2e2ec39 100644
--- a/src/induce48bit.cpp
+++ b/src/induce48bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce48bit.hpp"
 #include "sais48bit.hpp"
 #include "queue.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_48bit(uint32_t *SA_L, int16_t *SA_U, flbwt:
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce56bit.cpp b/src/induce56bit.cpp
index c9588f5..8a434e1 100644
--- a/src/induce56bit.cpp
+++ b/src/induce56bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce56bit.hpp"
 #include "sais56bit.hpp"
 #include "queue.hpp"
@@ -174,6 +175,8 @@ flbwt::BWT_result *flbwt::induce_bwt_56bit(uint32_t *SA_L, uint16_t *SA_M, int8_
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce64bit.cpp b/src/induce64bit.cpp
index d59cb3a..3fc599b 100644
--- a/src/induce64bit.cpp
+++ b/src/induce64bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce64bit.hpp"
 #include "queue.hpp"
 
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_64bit(int64_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/packed_array.cpp b/src/packed_array.cpp
index cdca17d..65249c3 100644
--- a/src/packed_array.cpp
+++ b/src/packed_array.cpp
@@ -1,4 +1,5 @@
 #include <cstdlib>
+#include <new>
 #include <stddef.h>
 #include "packed_array.hpp"
 #include "utility.hpp"
@@ -12,6 +13,8 @@ flbwt::PackedArray::PackedArray(uint64_t length, uint8_t integer_bits)
     uint64_t bits_required = length * this->integer_bits;
     uint64_t arr_length = bits_required / 64 + 1;
     this->arr = (uint64_t *)malloc(arr_length * sizeof(uint64_t));
+    if (this->arr == NULL)
+        throw std::bad_alloc();
     this->arr_length = arr_length;
 }
 
diff --git a/src/queue.cpp b/src/queue.cpp
index acf3655..c679b25 100644
--- a/src/queue.cpp
+++ b/src/queue.cpp
@@ -1,5 +1,6 @@
 #include <stddef.h>
 #include <stdlib.h>
+#include <new>
 #include "queue.hpp"
 #include "utility.hpp"
 
@@ -37,6 +38,8 @@ void flbwt::Queue::enqueue(uint64_t x)
     if (this->e_ofs == QSIZ - 1)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->eb == NULL)
@@ -67,6 +70,8 @@ void flbwt::Queue::enqueue_l(uint64_t x)
     if (this->s_ofs == 0)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->sb == NULL)
-- 
2.43.0


From 3357900a20ac8365045b23bb8480efd63cb58506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 7/9] Verification hook: FLBWT_VERIFY lets a harness move the
 origin of positions

With the define off nothing changes. With it on, small inputs can be run
with positions of any magnitude, and so through every integer width.
---
 src/flbwt.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 5c7696b..0ec9665 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -15,6 +15,10 @@
 #include "sais56bit.hpp"
 #include "sais64bit.hpp"
 
+#ifdef FLBWT_VERIFY
+extern uint64_t flbwt_verify_base_offset; // defined by the verification harness
+#endif
+
 /**
  * @brief Algorithm 1 from the research paper (simplified version).
  * 
@@ -521,6 +525,11 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
             container->max_ptr = s[i];
     }
 
+#ifdef FLBWT_VERIFY
+    // verification hook: move the origin of all positions down (the harness chooses by how much)
+    container->min_ptr -= flbwt_verify_base_offset;
+#endif
+
     container->bwp_width = flbwt::position_of_msb(container->max_ptr - container->min_ptr + 2);
 
     // also store the maximum value that will be user later --> needed for SA memory allocation
-- 
2.43.0


From 8d002944962ac4115c0841444c3c65e19674815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:00 +0000
Subject: [PATCH 8/9] fix: no shift by the full width in BIT_MASK for zero ones

---
 include/packed_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/packed_array.hpp b/include/packed_array.hpp
index 8f21537..8f04d36 100644
--- a/include/packed_array.hpp
+++ b/include/packed_array.hpp
@@ -6,8 +6,8 @@
 
 // https://stackoverflow.com/questions/22899466/this-declaration-has-no-storage-class-or-type-specifier-in-c
 #define BIT_MASK(__TYPE__, __ONE_COUNT__) \
-    ((__TYPE__) (-((__ONE_COUNT__) != 0))) \
-    & (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__)))
+    (((__ONE_COUNT__) == 0) ? (__TYPE__) 0 \
+    : (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__))))
 
 namespace flbwt {
 
-- 
2.43.0


From ff03bcf5be040897822720fe134a589d7f2ad39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:53 +0000
Subject: [PATCH 9/9] fix: no left shift of negative values when split integers
 are read

---
 include/sais40bit.hpp | 2 +-
 include/sais48bit.hpp | 2 +-
 include/sais56bit.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sais40bit.hpp b/include/sais40bit.hpp
index 2ff72c3..0609803 100644
--- a/include/sais40bit.hpp
+++ b/include/sais40bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_40bit_value(uint32_t *L, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32 | L[index]);
     }
 
     /**
diff --git a/include/sais48bit.hpp b/include/sais48bit.hpp
index edb2c19..e9c0d40 100644
--- a/include/sais48bit.hpp
+++ b/include/sais48bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_48bit_value(uint32_t *L, int16_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32 | L[index]);
     }
 
     /**
diff --git a/include/sais56bit.hpp b/include/sais56bit.hpp
index 2616b8f..943d1b1 100644
--- a/include/sais56bit.hpp
+++ b/include/sais56bit.hpp
@@ -20,7 +20,7 @@ namespace flbwt
 
     inline int64_t get_56bit_value(uint32_t *L, uint16_t *M, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 48 | (int64_t)M[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 48 | (uint64_t)M[index] << 32 | L[index]);
     }
 
     /**
-- 
2.43.0

