From bb3e02a88ca38252887e7f2881b0fc535f8692b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 1/7] fix: HashTable::set_length writes every length byte, also
 trailing zero bytes

The loop stopped at the last non-zero byte, so for a length that is a multiple
of 256 the low bytes of the length field kept whatever was in memory.
---
 src/hashtable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..43b3430 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -175,7 +175,7 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    for (uint8_t i = 0; i < *r; i++)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0


From e250ed2ad076a268ea4a0bb6c45bca367d331390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 2/7] fix: bwt_string handles inputs of one and two bytes

extract_LMS_strings returned a container without a hash table for n <= 2, which
sort_LMS_strings then dereferenced; the scan of create_shortened_string started
at n - 2 as an unsigned number, far out of bounds for n == 1.
---
 src/flbwt.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..6a9566f 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -320,10 +320,6 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
-        return container;
-
     // Initialize hash table where unique substrings are stored
     container->hashtable = new HashTable(67777, n);
 
@@ -526,7 +522,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (int64_t i = n - 2; i >= 0; i--)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
@@ -553,9 +549,6 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
 
             previous_type = TYPE_L;
         }
-
-        if (i == 0)
-            break; // to prevent integer underflow
     }
 
     T1->set_value(0, max_name);
-- 
2.43.0


From 52d69fa723da27d055fe6a724bbe7589302b8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 3/7] fix: bwt_file rejects input it cannot size or read
 completely, and leaks nothing then

ftell's -1 for an input that cannot be positioned (a FIFO) became a buffer of
size 0 filled by an unbounded fread; a short read was taken for the whole file;
the failing read leaked the buffer and the stream.
---
 src/flbwt.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 6a9566f..a3b8ef6 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -34,9 +34,15 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (fp == NULL)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
-    fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
-    rewind(fp);
+    long size = fseek(fp, 0L, SEEK_END) == 0 ? ftell(fp) : -1L;
+
+    if (size < 0 || fseek(fp, 0L, SEEK_SET) != 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("fseek failed(): Could not determine the size of the input file");
+    }
+
+    n = size;
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
 
@@ -46,8 +52,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        free(T);
+        fclose(fp);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
-- 
2.43.0


From d79204508d0f8cba62bdc9bf5926fe54b8160b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 4/7] fix: bwt_file reports output it could not write, and
 frees the result when the output cannot be opened

fwrite and fclose results were dropped, so a full disk left a truncated file
behind a normal return.
---
 src/flbwt.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index a3b8ef6..1d7246d 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -73,7 +73,14 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        if (B != NULL)
+            delete[] B->BWT;
+        free(B);
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
+
+    bool written = true; // did every byte reach the output file
 
     if (B != NULL && B->BWT != NULL)
     {
@@ -87,26 +94,27 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[5] = (0x0000000000ff0000 & B->last) >> 16;
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
-        fwrite(rank, sizeof(uint8_t), 8, fp);
+        written = fwrite(rank, sizeof(uint8_t), 8, fp) == 8;
         delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
         {
-            fwrite(B->BWT + 1, sizeof(uint8_t), n, fp);
+            written = fwrite(B->BWT + 1, sizeof(uint8_t), n, fp) == n && written;
         }
         else if (B->last == n)
         {
-            fwrite(B->BWT, sizeof(uint8_t), n, fp);
+            written = fwrite(B->BWT, sizeof(uint8_t), n, fp) == n && written;
         }
         else
         {
-            fwrite(B->BWT, sizeof(uint8_t), B->last, fp);
-            fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp);
+            written = fwrite(B->BWT, sizeof(uint8_t), B->last, fp) == B->last && written;
+            written = fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp) == n - B->last && written;
         }
     }
 
-    fclose(fp);
+    if (fclose(fp) != 0)
+        written = false;
 
     // Release result resources
     if (B != NULL)
@@ -115,6 +123,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (!written)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From a8c68efc2c0becc3335f0b1f6cf91b4f4d229c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 5/7] fix: BIT_MASK(T, 0) no longer shifts by the full width of
 T

Every PackedArray::set_value of a value that ends on a word boundary evaluated
that undefined shift.
---
 include/packed_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/packed_array.hpp b/include/packed_array.hpp
index 8f21537..49018da 100644
--- a/include/packed_array.hpp
+++ b/include/packed_array.hpp
@@ -6,8 +6,8 @@
 
 // https://stackoverflow.com/questions/22899466/this-declaration-has-no-storage-class-or-type-specifier-in-c
 #define BIT_MASK(__TYPE__, __ONE_COUNT__) \
-    ((__TYPE__) (-((__ONE_COUNT__) != 0))) \
-    & (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__)))
+    ((__ONE_COUNT__) == 0 ? (__TYPE__) 0 \
+    : (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__))))
 
 namespace flbwt {
 
-- 
2.43.0


From 55e649de930a46fc7078d08dd37d240224975314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 6/7] fix: a failed malloc or realloc is reported as
 std::bad_alloc

The results were dereferenced unchecked, so running out of memory on a large
input was an access through a null pointer.
---
 src/flbwt.cpp        | 5 +++++
 src/hashtable.cpp    | 4 ++++
 src/induce32bit.cpp  | 3 +++
 src/induce40bit.cpp  | 3 +++
 src/induce48bit.cpp  | 3 +++
 src/induce56bit.cpp  | 3 +++
 src/induce64bit.cpp  | 3 +++
 src/packed_array.cpp | 3 +++
 src/queue.cpp        | 5 +++++
 9 files changed, 32 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 1d7246d..187778a 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <iostream>
+#include <new>
 // #include <time.h>
 #include <stdlib.h>
 #include "flbwt.hpp"
@@ -399,6 +400,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
 {
     // array s will hold hashtable positions of sorted S* substrings
     uint8_t **s = (uint8_t **)malloc((container->num_of_unique_substrings + 2) * sizeof(uint8_t *));
+    if (s == NULL)
+        throw std::bad_alloc();
 
     uint64_t p, i, j, l, m;
     uint8_t *r, *q;
@@ -409,6 +412,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
     uint64_t space_required = 1 + 1 + container->hashtable->calculate_lenlen(p + 1) + (p + 1) + container->hashtable->NAME_BYTES;
     space_required += 1 + 1 + 1 + 1 + container->hashtable->NAME_BYTES;
     r = (uint8_t *)realloc(container->hashtable->buf, container->hashtable->bufsize + space_required);
+    if (r == NULL)
+        throw std::bad_alloc();
     if (r != container->hashtable->buf)
         container->hashtable->buf = r;
     container->hashtable->bufsize += space_required;
diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 43b3430..9e1d212 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <algorithm>
+#include <new>
 #include "hashtable.hpp"
 #include "utility.hpp"
 
@@ -89,6 +90,9 @@ uint8_t flbwt::HashTable::insert_string(const uint64_t m, uint8_t *p)
     {
         r2 = (uint8_t *)realloc(this->buf, this->bufsize + this->HBSIZE + space_required);
 
+        if (r2 == NULL)
+            throw std::bad_alloc();
+
         if (r2 != this->buf)
             this->buf = r2;
 
diff --git a/src/induce32bit.cpp b/src/induce32bit.cpp
index afba1a6..50fd941 100644
--- a/src/induce32bit.cpp
+++ b/src/induce32bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce32bit.hpp"
 #include "queue.hpp"
 
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_32bit(int32_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce40bit.cpp b/src/induce40bit.cpp
index da4e17f..cda710a 100644
--- a/src/induce40bit.cpp
+++ b/src/induce40bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce40bit.hpp"
 #include "sais40bit.hpp"
 #include "queue.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_40bit(uint32_t *SA_L, int8_t *SA_U, flbwt::
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce48bit.cpp b/src/induce48bit.cpp
index 5d67da7..2e2ec39 100644
--- a/src/induce48bit.cpp
+++ b/src/induce48bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce48bit.hpp"
 #include "sais48bit.hpp"
 #include "queue.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_48bit(uint32_t *SA_L, int16_t *SA_U, flbwt:
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce56bit.cpp b/src/induce56bit.cpp
index c9588f5..8a434e1 100644
--- a/src/induce56bit.cpp
+++ b/src/induce56bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce56bit.hpp"
 #include "sais56bit.hpp"
 #include "queue.hpp"
@@ -174,6 +175,8 @@ flbwt::BWT_result *flbwt::induce_bwt_56bit(uint32_t *SA_L, uint16_t *SA_M, int8_
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce64bit.cpp b/src/induce64bit.cpp
index d59cb3a..3fc599b 100644
--- a/src/induce64bit.cpp
+++ b/src/induce64bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce64bit.hpp"
 #include "queue.hpp"
 
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_64bit(int64_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/packed_array.cpp b/src/packed_array.cpp
index cdca17d..65249c3 100644
--- a/src/packed_array.cpp
+++ b/src/packed_array.cpp
@@ -1,4 +1,5 @@
 #include <cstdlib>
+#include <new>
 #include <stddef.h>
 #include "packed_array.hpp"
 #include "utility.hpp"
@@ -12,6 +13,8 @@ flbwt::PackedArray::PackedArray(uint64_t length, uint8_t integer_bits)
     uint64_t bits_required = length * this->integer_bits;
     uint64_t arr_length = bits_required / 64 + 1;
     this->arr = (uint64_t *)malloc(arr_length * sizeof(uint64_t));
+    if (this->arr == NULL)
+        throw std::bad_alloc();
     this->arr_length = arr_length;
 }
 
diff --git a/src/queue.cpp b/src/queue.cpp
index acf3655..c679b25 100644
--- a/src/queue.cpp
+++ b/src/queue.cpp
@@ -1,5 +1,6 @@
 #include <stddef.h>
 #include <stdlib.h>
+#include <new>
 #include "queue.hpp"
 #include "utility.hpp"
 
@@ -37,6 +38,8 @@ void flbwt::Queue::enqueue(uint64_t x)
     if (this->e_ofs == QSIZ - 1)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->eb == NULL)
@@ -67,6 +70,8 @@ void flbwt::Queue::enqueue_l(uint64_t x)
     if (this->s_ofs == 0)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->sb == NULL)
-- 
2.43.0


From 8d84e575a0bec63e7893b1bd09badf99372183e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 7/7] fix: the output stream is not left open when no memory is
 left for the position header

---
 src/flbwt.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 187778a..cff32cd 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -86,7 +86,7 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (B != NULL && B->BWT != NULL)
     {
         // Write rank of the last character to the first 64 bits
-        uint8_t *rank = new uint8_t[8];
+        uint8_t rank[8];
         rank[0] = (0xff00000000000000 & B->last) >> 56;
         rank[1] = (0x00ff000000000000 & B->last) >> 48;
         rank[2] = (0x0000ff0000000000 & B->last) >> 40;
@@ -96,7 +96,6 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
         written = fwrite(rank, sizeof(uint8_t), 8, fp) == 8;
-        delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
-- 
2.43.0

