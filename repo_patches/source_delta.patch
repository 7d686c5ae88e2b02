From 023d8026ac22584312f96012c98cec914456bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 01/56] fix: limit buffer allocation requests to the largest
 buffer size

size_max held the total allocator memory, so a request larger than the
largest size class indexed past the last pool.
---
 src/memory/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..9b722a5 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (((embc_size_t) 32) << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 892a188181e0fb2ee1ab60ac654f83a76fadf5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 02/56] fix: buffer string writes that exactly fill the buffer
 are not truncated

Also keep the existing length when data already extends past the
reserved limit: it was overwritten, leaving the cursor past the length.
---
 src/memory/buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 9b722a5..fa1d59a 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -237,8 +237,8 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return (*str == 0);
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From 8c262ad1221431e6aa02ad050b198917f6198b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 03/56] fix: initialize reserve for static buffers

---
 include/embc/memory/buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..bd2d9a0 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
-- 
2.43.0


From 0b2c1c45b45b91d424ea1dd365249750fe4bb9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 04/56] fix: do not truncate values in the DBC range check

A value outside int wrapped into range, so embc_buffer_erase() accepted
indices such as 2^32 + 5.
---
 include/embc/dbc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embc/dbc.h b/include/embc/dbc.h
index fe4b675..601a035 100644
--- a/include/embc/dbc.h
+++ b/include/embc/dbc.h
@@ -173,9 +173,9 @@
  * @param xmax The maximum value, inclusive.
  */
 #define EMBC_DBC_RANGE_INT(x, x_min, x_max)  do { \
-    int x__ = (x); \
-    int x_min__ = (x_min); \
-    int x_max__ = (x_max); \
+    long long x__ = (x); \
+    long long x_min__ = (x_min); \
+    long long x_max__ = (x_max); \
     EMBC_DBC_ASSERT(x__ >= x_min__, #x " too small"); \
     EMBC_DBC_ASSERT(x__ <= x_max__, #x " too big"); \
 } while(0)
-- 
2.43.0


From 22e45c7e0a7364fc242c9ed24a99df8f374c7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 05/56] fix: test only the addressed bit of the block bitmap

Higher blocks of the same byte made free blocks look allocated, so
allocation skipped them and the free check accepted blocks that were
not allocated.
---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From f4880defd05f5d9385f3815e08008d1d7bb62843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 06/56] fix: avoid overflow when converting huge sizes to
 blocks

---
 src/memory/block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 84e36f5..09884f2 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -47,7 +47,7 @@ void embc_mblock_finalize(struct embc_mblock_s * self) {
 }
 
 static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size) {
-    return (size + s->block_size - 1) / s->block_size;
+    return (size / s->block_size) + (((size % s->block_size) > 0) ? 1 : 0);
 }
 
 void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
-- 
2.43.0


From f2b0c5774d44627ff4e9ed651e3560c2a0a73f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 07/56] fix: refuse freeing blocks beyond the end of the
 managed memory

---
 src/memory/block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memory/block.c b/src/memory/block.c
index 09884f2..e1cd9c5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -93,6 +93,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     EMBC_ASSERT(b < (s->mem + s->mem_size));
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
+    EMBC_ASSERT(blocks <= (s->block_count - idx_start));
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
         int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
-- 
2.43.0


From 189a68e8a2e800ccb3403b60c34e139a0a4b2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 08/56] fix: embc_list_contains reports membership, not its
 opposite

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..6c8db28 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
-- 
2.43.0


From 1003e572a2aaff3f0ddf8a1e7f37f5ce8d65188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 09/56] fix: embc_list_foreach_reverse_unsafe starts at the
 tail

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 6c8db28..638c86b 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
-- 
2.43.0


From 7aad0583c02bd61d2f12536864c9ca57f3a4780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 10/56] fix: appending an empty list leaves the target list
 intact

---
 include/embc/collections/list.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 638c86b..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From 23e79d787f49e96d1846fd9509835d65d6f26bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 11/56] fix: keep every entry when intmap resizes

---
 src/collections/intmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..14b6f2a 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,7 +109,7 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &(*previous)->next;
             }
             *previous = item;
         }
-- 
2.43.0


From 7547ed7621dcd5e752d3243be594b30bb0793483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 12/56] fix: free the old bins when intmap resizes

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 14b6f2a..0f6c9a4 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -114,6 +114,7 @@ static void resize(struct embc_intmap_s * self) {
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From 65ea0aa93abd129e9e7c8d2a49b58fe8aaefe939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 13/56] fix: free the entry removed from intmap

---
 src/collections/intmap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 0f6c9a4..812225f 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -190,8 +190,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
                     itermap_iterator_next_advance(iter);
                 }
             }
-            item->next = 0;
-            item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From cea9fea41258752ea0aaf7b368970d389120c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 14/56] fix: end intmap iteration after an item in the last bin

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 812225f..2ef3737 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -206,6 +206,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             return;
         } else {
             self->current_bin += 1;
+            self->next_item = 0;
         }
     }
     while (self->current_bin <= self->intmap->hash_mask) {
-- 
2.43.0


From 8d1307b0b2cbe05ff3d45f7094b3cb1e4bf60159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 15/56] fix: free the wrappers allocated by custom intmaps

---
 include/embc/collections/intmap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..9761bae 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,10 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { \
+        embc_intmap_free(self->intmap); \
+        free(self); \
+    } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -200,6 +203,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
         embc_intmap_iterator_free(self->iter); \
+        free(self); \
     }
 
 /** @} */
-- 
2.43.0


From 386bf24ca14075418fe07f451e34f3d890cf3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 16/56] fix: free the entries and table of a hashmap

---
 src/collections/hashmap.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..5960c6e 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -63,7 +63,15 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
-        // free everything
+        for (embc_size_t idx = 0; idx <= self->hashtable_mask; ++idx) {
+            struct entry_s * item = self->hashtable[idx];
+            while (item) {
+                struct entry_s * next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From 83b997da53f75225bd7ed58e739c60d4b6f0852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 17/56] fix: compute the strmap hash without signed overflow

---
 src/collections/strmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collections/strmap.c b/src/collections/strmap.c
index ccf63d4..cbb3ca1 100644
--- a/src/collections/strmap.c
+++ b/src/collections/strmap.c
@@ -78,7 +78,7 @@ embc_size_t embc_strmap_length(struct embc_strmap_s *self) {
 
 // djb2: http://www.cse.yorku.ca/~oz/hash.html
 static embc_size_t compute_hash(const char * key) {
-    embc_size_t hash = 5381;
+    uintptr_t hash = 5381;
     int c;
 
     while (1) {
@@ -89,7 +89,7 @@ static embc_size_t compute_hash(const char * key) {
         hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
     }
 
-    return hash;
+    return (embc_size_t) hash;
 }
 
 static bool is_key_equiv(const char * key1, const char * key2) {
-- 
2.43.0


From d6291a2c9db1dbd54d6054cf885dbcf16c7a12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 18/56] fix: report an error for unsigned numbers out of range

---
 src/cstr.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 71e4226..65b3911 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -88,6 +88,23 @@ const char * embc_cstr_starts_with(const char * s, const char * prefix) {
     }
 }
 
+/**
+ * @brief Append a digit to a value.
+ *
+ * @param[inout] value The value.
+ * @param radix The number base.
+ * @param digit The digit to append, less than radix.
+ * @param max The maximum allowed value.
+ * @return 0 or 1 if the result would exceed max.
+ */
+static int append_digit(uint32_t * value, uint32_t radix, uint32_t digit, uint32_t max) {
+    if (*value > ((max - digit) / radix)) {
+        return 1;
+    }
+    *value = *value * radix + digit;
+    return 0;
+}
+
 int embc_cstr_to_u32(const char * src, uint32_t * value) {
     uint32_t v = 0;
 
@@ -116,12 +133,16 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
             } else {
                 break;
             }
-            v = v * 16 + nibble;
+            if (append_digit(&v, 16, nibble, UINT32_MAX)) {
+                return 1;
+            }
             ++src;
         }
     } else {
         while ((*src >= '0') && (*src <= '9')) {
-            v = v * 10 + (*src - '0');
+            if (append_digit(&v, 10, (uint32_t) (*src - '0'), UINT32_MAX)) {
+                return 1;
+            }
             ++src;
         }
     }
-- 
2.43.0


From bf19f3710644b49c91606410d35ef0d6351184ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 19/56] fix: report an error for a hex prefix without digits

---
 src/cstr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cstr.c b/src/cstr.c
index 65b3911..a0a764c 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -122,6 +122,9 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
         // hex string
         uint32_t nibble;
         src += 2;
+        if (!*src || _isspace((uint8_t) *src)) { // no digits
+            return 1;
+        }
         while (*src) {
             char c = *src;
             if ((c >= '0') && (c <= '9')) {
-- 
2.43.0


From 7e9ba6372cb3478c2a53360ac81addb304894d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 20/56] fix: report an error for signed numbers out of range

---
 src/cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index a0a764c..adb1f56 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -181,10 +181,10 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
     if (rc) {
         return rc;
     }
-    *value = (int32_t) v;
-    if (neg) {
-        *value = -*value;
+    if (v > (neg ? 0x80000000u : 0x7fffffffu)) { // out of range
+        return 1;
     }
+    *value = (int32_t) (neg ? (0u - v) : v);
     return 0;
 }
 
-- 
2.43.0


From 5eb9df2c82d41d1cae440e97bd54e478f03bebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 21/56] fix: parse fixed-point numbers exactly

Out-of-range numbers overflowed, text without digits, with several decimal
points or with digits after trailing whitespace was accepted, and integers
followed by whitespace were rejected.
---
 src/cstr.c | 60 ++++++++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index adb1f56..4bc54d0 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -189,12 +189,14 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
 }
 
 int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
-    int32_t v = 0;
+    uint32_t v = 0;
+    uint32_t max = 0x7fffffffu;
     int32_t decimal = -1;  // still on integer part
+    int digits = 0;
     int neg = 0;
 
     if (!src) {
-        return 0;
+        return 1;
     }
     if (exponent < 0) {
         return -1;
@@ -206,59 +208,51 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
 
     if (*src == '-') {
         neg = 1;
+        max = 0x80000000u;
         ++src;
     } else if (*src == '+') {
         ++src;
     }
 
-    while (decimal < exponent) {
-        if (*src == '.') {
+    while (1) {
+        if ((*src == '.') && (decimal < 0)) {
             decimal = 0;
-            ++src;
-            continue;
-        }
-        if ((*src == 0) || (*src == ',')) {
-            if (decimal < 0) {
-                break;
-            } else {
-                v *= 10;
-                ++decimal;
+        } else if ((*src >= '0') && (*src <= '9')) {
+            digits = 1;
+            if (decimal < exponent) { // otherwise discard extra digits
+                if (append_digit(&v, 10, (uint32_t) (*src - '0'), max)) {
+                    return 1;
+                }
+                if (decimal >= 0) {
+                    ++decimal;
+                }
             }
         } else {
-            if (decimal >= 0) {
-                ++decimal;
-            }
-            v *= 10;
-            if ((*src >= '0') && (*src <= '9')) {
-                v += *src - '0';
-            } else {
-                return 1;
-            }
-            ++src;
+            break;
         }
+        ++src;
+    }
+    if (!digits) {
+        return 1;
     }
 
     while (*src) {
-        if ((*src >= '0') && (*src <= '9')) {
-            // discard extra digits
-        } else if (!_isspace((uint8_t) *src)) { // did not parse full string
+        if (!_isspace((uint8_t) *src++)) { // did not parse full string
             return 1;
         }
-        ++src;
     }
 
     if (decimal < 0) {
         decimal = 0;
     }
-    while (decimal < exponent) {
-        v *= 10;
+    while (v && (decimal < exponent)) {
+        if (append_digit(&v, 10, 0, max)) {
+            return 1;
+        }
         ++decimal;
     }
-    if (neg) {
-        v = -v;
-    }
     if (value) {
-        *value = v;
+        *value = (int32_t) (neg ? (0u - v) : v);
     }
     return 0;
 }
-- 
2.43.0


From 239da38f2498b6ad899adbfad81302efdc262b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 22/56] fix: never execute a command line truncated to the line
 buffer

---
 src/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..1c0f469 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,7 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From acf9be1fdbddc8973609954e309c67920b7d2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 23/56] fix: do not read past the end of the command line to
 parse

---
 src/cli.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 1c0f469..d92dcba 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -25,6 +25,7 @@
  */
 
 #include "embc/cli.h"
+#include "embc/cstr.h"
 #include "embc/dbc.h"
 #include "embc/platform.h"
 
@@ -222,8 +223,9 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
-    line[sizeof(line) - 1] = 0; // just to be sure.
+    if (embc_cstr_copy(line, cmdline, sizeof(line))) { // too long
+        return EMBC_CLI_ERROR_PARAMETER_VALUE;
+    }
     while (1) {
         // consume multiple delimiters
         while (*lineptr && _is_delimiter(*lineptr, delimiters)) {
-- 
2.43.0


From d2b460099ca40da2645e1d65a2123255323e1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 24/56] fix: pass the user cookie to the argument handler

---
 src/cli.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index d92dcba..88b3456 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -151,7 +151,9 @@ static void embc_cli_process_line(embc_cli_t * self) {
         print_newline(self);
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
-        if (self->execute_line) {
+        if (self->execute_args) {
+            rc = embc_cli_line_parser(self, self->cmdline);
+        } else if (self->execute_line) {
             rc = self->execute_line(self->execute_cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
@@ -173,7 +175,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     self->cmdlen = 0;
     if (self->execute_args) {
         self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
     }
     print_prompt(self);
 }
-- 
2.43.0


From 56bbac979eb9ac973566c84f92e9bbf176c958cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 25/56] fix: process events correctly when callbacks schedule
 or cancel

---
 src/event_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..53b1f44 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -114,7 +114,9 @@ int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
     struct embc_list_s * node;
     struct event_s * ev;
     int32_t count = 0;
-    embc_list_foreach(&self->events_pending, node) {
+    // callbacks may change the pending list: always start from the head
+    while (!embc_list_is_empty(&self->events_pending)) {
+        node = embc_list_peek_head(&self->events_pending);
         ev = EVGET(node);
         if (ev->timestamp > time_current) {
             break;
-- 
2.43.0


From 0142252abcb6a9bdf41e0f56b267999abf900398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 26/56] fix: give every scheduled event a new event_id

---
 src/event_manager.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index 53b1f44..89d6d3e 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -53,13 +53,13 @@ int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
     if (embc_list_is_empty(&self->events_free)) {
-        ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-        ev->event_id = self->event_counter;
         embc_list_initialize(&ev->node);
     } else {
         ev = EVGET(embc_list_remove_head(&self->events_free));
     }
+    self->event_counter = (self->event_counter < INT32_MAX) ? (self->event_counter + 1) : 1;
+    ev->event_id = self->event_counter;
     ev->timestamp = timestamp;
     ev->cbk_fn = cbk_fn;
     ev->cbk_user_data = cbk_user_data;
-- 
2.43.0


From b52fa05cafe02cf6514354de1184ec75c3174eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 27/56] fix: report an error when no memory is left for an
 event

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 89d6d3e..75f8541 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -54,6 +54,9 @@ int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
     struct event_s * ev = 0;
     if (embc_list_is_empty(&self->events_free)) {
         ev = calloc(1, sizeof(struct event_s));
+        if (!ev) {
+            return 0;
+        }
         embc_list_initialize(&ev->node);
     } else {
         ev = EVGET(embc_list_remove_head(&self->events_free));
-- 
2.43.0


From 2e23b7c40ebed28ba6cc9cbf424f9555a095aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 28/56] fix: ignore events with timestamps that are not
 positive

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 75f8541..f39783d 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -52,6 +52,9 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
         ev = calloc(1, sizeof(struct event_s));
         if (!ev) {
-- 
2.43.0


From 9f3ec0eec1eace290d9e48a9ea6b8c4bec23c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 29/56] fix: free the events of an event manager

---
 src/event_manager.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index f39783d..dd5c5e2 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -45,8 +45,18 @@ struct embc_evm_s * embc_evm_allocate() {
     return self;
 }
 
+static void events_free(struct embc_list_s * list) {
+    while (!embc_list_is_empty(list)) {
+        free(EVGET(embc_list_remove_head(list)));
+    }
+}
+
 void embc_evm_free(struct embc_evm_s * self) {
-    free(self);
+    if (self) {
+        events_free(&self->events_pending);
+        events_free(&self->events_free);
+        free(self);
+    }
 }
 
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
-- 
2.43.0


From f3f67984d8653ceb5442eb1bcf12cd01cdcb2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 30/56] fix: initialize and accumulate the pattern duplicate
 count

---
 src/pattern_32a.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..ddfe641 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
@@ -183,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
@@ -206,6 +207,7 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
+                self->duplicate_count = 0;
                 self->error_count = 0;
                 self->state = ST_SYNC;
             } else {
-- 
2.43.0


From c1ad54b96ebbea49303efd47ec6dd199da6e842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 31/56] fix: do not synchronize the pattern receiver to words
 outside the pattern

---
 src/pattern_32a.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index ddfe641..950c8c3 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -129,6 +129,10 @@ static bool is_counter_value(uint32_t value) {
     return (((~value) >> 16) == (value & 0xffff));
 }
 
+static bool is_shift_value(uint32_t value) {
+    return (0 == (value & (value - 1)));
+}
+
 static uint8_t shift_position(uint32_t shift) {
     // CLZ instruction would be much faster
     uint8_t position = 0;
@@ -155,6 +159,9 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     if (v1_is_counter == v2_is_counter) {
         return false;
     }
+    if (!is_shift_value(v1_is_counter ? v2 : v1)) {
+        return false;
+    }
 
     // Since tx state holds next values, sync to before v1
     if (v2_is_counter && !v1_is_counter) { // most recent is counter
-- 
2.43.0


From 4656377b55781a231befa99a1d09bfb9e787aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 32/56] fix: presume duplicates for every skip longer than half
 the pattern period

---
 src/pattern_32a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 950c8c3..281a425 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -189,7 +189,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     }
     delta *= 2; // total pattern value = 2 words
 
-    if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
+    if ((delta + incr) > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
         self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
-- 
2.43.0


From 2f79cf55857bd8da14bd4c039d82541c3899d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 33/56] fix: free framer frames received for invalid ports

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..6852df5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -660,6 +660,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From 32e8358906412f419e6e2f54a34c88e875aa4383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 34/56] fix: order pending framer frames across the frame_id
 wrap

---
 src/stream/framer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6852df5..0d94e80 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -310,10 +310,11 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (h->frame_id - h1->frame_id) & EMBC_FRAMER_ID_MASK;
         if (0 == delta) { // duplicate
+            embc_buffer_free(frame);
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > 8) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From e7aac1b784d30e87a62875f87ea14118c1a4c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 35/56] fix: abort queued framer frames as buffers

---
 src/stream/framer.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 0d94e80..c617283 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -441,14 +441,11 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
-static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
-    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+static void tx_complete_buffer(struct embc_framer_s * self, struct embc_buffer_s * b, uint8_t status) {
+    struct embc_framer_header_s hdr = *buffer_hdr(b);
+    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(t->b);
-    t->b = 0;
-    t->status = TX_STATUS_EMPTY;
-    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    embc_buffer_free(b);
     uint16_t port_def = hdr_port_def(&hdr);
     if (hdr.port < EMBC_FRAMER_PORTS) {
         self->port_cbk[hdr.port].tx_done_fn(
@@ -463,6 +460,14 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     }
 }
 
+static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+    struct embc_buffer_s * b = t->b;
+    t->b = 0;
+    t->status = TX_STATUS_EMPTY;
+    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    tx_complete_buffer(self, b, status);
+}
+
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
         tx_complete(self, t, status);
@@ -481,9 +486,9 @@ static void tx_purge_queued(struct embc_framer_s * self) {
         tx_complete(self, t, EMBC_ERROR_ABORTED);
     }
     embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
         embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+        tx_complete_buffer(self, b, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From 85de2f2822f55240226526f707f9ae6208e4aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 36/56] fix: continue with the first byte after a frame found
 on resync

---
 src/stream/framer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index c617283..a870345 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -805,9 +805,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     }
     self->rx_state = ST_SOF_UNSYNC;
 
-    for (; i < count; ++i) {
+    while (i < count) {
         uint8_t * b = self->rx_buffer->data + i;
         if (*b != SOF) {
+            ++i;
             continue;
         }
         sz = count - i;
@@ -833,13 +834,14 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 count = embc_buffer_length(self->rx_buffer);
                 ++self->status.rx_count;
                 self->rx_hook_fn(self->rx_hook_user_data, f);
-                break;
+                continue;
             }
             case EMBC_ERROR_IO:
                 break;
             default:
                 break;
         }
+        ++i;
     }
 exit:
     embc_buffer_erase(self->rx_buffer, 0, i);
-- 
2.43.0


From 968c55469c180b8c1887ec2fc3a6466aab1cf48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 37/56] fix: keep the acknowledged status when the HAL
 completes a frame

---
 src/stream/framer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index a870345..128b070 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -930,7 +930,7 @@ void embc_framer_hal_tx_done(
         EMBC_LOGD3("embc_framer_hal_tx_done data %d %p", hdr->frame_id, (void *) buffer);
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-            if (t->b == buffer) {
+            if ((t->b == buffer) && (TX_STATUS_TRANSMITTING == t->status)) {
                 t->status = TX_STATUS_AWAIT_ACK;
             }
         }
-- 
2.43.0


From fe47713089cdcb05309b34c03e71f267de721c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 38/56] fix: always restart the framer timer after it expires

---
 src/stream/framer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 128b070..bfad109 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -520,6 +520,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
+    self->next_timeout = EMBC_TIME_MAX;  // the timer is no longer pending
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     if (current_time >= self->rx_next_timeout) {
         self->rx_next_timeout = EMBC_TIME_MAX;
@@ -557,7 +558,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
-- 
2.43.0


From 947d858c6aea703dd489676c2ce5cc5f98607414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 39/56] fix: check the framer payload length limit exactly

---
 src/stream/framer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index bfad109..ff87ab7 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -1003,7 +1003,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
@@ -1011,6 +1011,7 @@ void embc_framer_send(
         length = embc_buffer_length(buffer);
     }
     EMBC_ASSERT(buffer->reserve == EMBC_FRAMER_FOOTER_SIZE);
+    EMBC_ASSERT((length - HEADER_SIZE) <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
 
     buffer->reserve = 0;
     struct embc_framer_header_s * hdr = buffer_hdr(buffer);
-- 
2.43.0


From 1c62ea6c7c6511d5ef6fed1c07a0f40db64427b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 40/56] fix: ignore nacks of frames that do not await an
 acknowledgement

---
 src/stream/framer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index ff87ab7..fd5fc98 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -649,7 +649,7 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         uint8_t frame_id = hdr_frame_id(&hdr);
         EMBC_LOGI("handle_ack nack, status=%d, frame_id=%d", (int) status, (int) frame_id);
         struct tx_buf_s * t = find_tx(self, frame_id);
-        if (t) {
+        if (t && (TX_STATUS_AWAIT_ACK == t->status)) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
-- 
2.43.0


From f522d42d14681c042140f7919bafb059497dcd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 41/56] fix: do not free or resend framer frames that the HAL
 still owns

---
 src/stream/framer.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index fd5fc98..6efa6ea 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -77,6 +77,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    uint8_t hal_owned;  // the HAL has not yet returned b
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -441,11 +442,13 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
-static void tx_complete_buffer(struct embc_framer_s * self, struct embc_buffer_s * b, uint8_t status) {
+static void tx_complete_buffer(struct embc_framer_s * self, struct embc_buffer_s * b, uint8_t hal_owned, uint8_t status) {
     struct embc_framer_header_s hdr = *buffer_hdr(b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(b);
+    if (!hal_owned) {  // otherwise freed by embc_framer_hal_tx_done
+        embc_buffer_free(b);
+    }
     uint16_t port_def = hdr_port_def(&hdr);
     if (hdr.port < EMBC_FRAMER_PORTS) {
         self->port_cbk[hdr.port].tx_done_fn(
@@ -462,10 +465,12 @@ static void tx_complete_buffer(struct embc_framer_s * self, struct embc_buffer_s
 
 static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     struct embc_buffer_s * b = t->b;
+    uint8_t hal_owned = t->hal_owned;
     t->b = 0;
+    t->hal_owned = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
-    tx_complete_buffer(self, b, status);
+    tx_complete_buffer(self, b, hal_owned, status);
 }
 
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
@@ -488,7 +493,7 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     embc_list_foreach(&self->tx_queue, item) {
         struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
         embc_list_remove(item);
-        tx_complete_buffer(self, b, EMBC_ERROR_ABORTED);
+        tx_complete_buffer(self, b, 0, EMBC_ERROR_ABORTED);
     }
 }
 
@@ -576,7 +581,10 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     t->status = TX_STATUS_TRANSMITTING;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
-    self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    if (!t->hal_owned) {
+        t->hal_owned = 1;
+        self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    }
     timer_schedule(self);
 }
 
@@ -931,10 +939,15 @@ void embc_framer_hal_tx_done(
         EMBC_LOGD3("embc_framer_hal_tx_done data %d %p", hdr->frame_id, (void *) buffer);
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-            if ((t->b == buffer) && (TX_STATUS_TRANSMITTING == t->status)) {
-                t->status = TX_STATUS_AWAIT_ACK;
+            if (t->b == buffer) {
+                t->hal_owned = 0;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                return;
             }
         }
+        embc_buffer_free(buffer);  // completed while owned by the HAL
     }
 }
 
-- 
2.43.0


From d8ceafe4d7acc831c93cbef05e186e3d42ffd76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 42/56] fix: continue framer transmission after a frame fails

---
 src/stream/framer.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6efa6ea..935f1dd 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -95,6 +95,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
 static void timer_schedule(struct embc_framer_s * self);
+static void transmit_queued(struct embc_framer_s * self);
 
 struct embc_framer_s {
     struct embc_buffer_allocator_s * buffer_allocator;
@@ -419,17 +420,6 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
-}
-
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -499,14 +489,12 @@ static void tx_purge_queued(struct embc_framer_s * self) {
 
 static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s * t_current) {
     // Complete only when guaranteed in order!
-    bool match_current = false;
+    bool match_current = (0 == t_current);
     struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
         match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
+        if (TX_STATUS_ACKED == t->status) {
             tx_complete(self, t, 0);
         } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
             ++self->status.tx_retransmit_count;
@@ -515,7 +503,6 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
         } else {
             break;
         }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
     }
 }
 
@@ -537,6 +524,8 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
             tx_error(self, t, EMBC_ERROR_TIMED_OUT);
         }
     }
+    tx_complete_in_order(self, 0);  // frames acknowledged behind a failed frame
+    transmit_queued(self);
     timer_schedule(self);
 }
 
@@ -659,6 +648,9 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         struct tx_buf_s * t = find_tx(self, frame_id);
         if (t && (TX_STATUS_AWAIT_ACK == t->status)) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            tx_complete_in_order(self, 0);  // frames acknowledged behind a failed frame
+            transmit_queued(self);
+            timer_schedule(self);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
-- 
2.43.0


From 9c107b3ee7fb25503592faa3d98922c7c34163e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 43/56] fix: do not assert on acknowledgements received after a
 middle frame failed

---
 src/stream/framer.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 935f1dd..b8dbe3e 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -610,12 +610,11 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
         struct embc_list_s * item = &t_match->item;
         while (item->prev != &self->tx_buffers_active) {
             item = item->prev;
-            mask = mask << 1;
             struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
             struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-            frame_id = (frame_id - 1) & EMBC_FRAMER_ID_MASK;
-            EMBC_ASSERT(frame_id == hdr->frame_id);
-            if ((TX_STATUS_AWAIT_ACK == t->status) && (mask & EMBC_FRAMER_ACK_MASK_CURRENT)) {
+            // frames may be missing in between when they failed
+            uint8_t delta = (frame_id - hdr->frame_id) & EMBC_FRAMER_ID_MASK;
+            if ((TX_STATUS_AWAIT_ACK == t->status) && ((mask << delta) & EMBC_FRAMER_ACK_MASK_CURRENT)) {
                 t->status = TX_STATUS_ACKED;
             }
         }
-- 
2.43.0


From ebb8b3acdcb9d44497b4dacd14eda685842133a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 44/56] fix: separate the log level names that ran together

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From 468006f5350ad8e67053a5536a651641e596435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 45/56] fix: do not pass an undeclared argument in
 EMBC_LOG_ALERT

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From 08ca8247593ade919344b9f479889de1debce28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 46/56] fix: convert time to counter ticks for every frequency
 expression

---
 include/embc/time.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embc/time.h b/include/embc/time.h
index 9116a7b..d992c03 100644
--- a/include/embc/time.h
+++ b/include/embc/time.h
@@ -182,7 +182,7 @@ EMBC_CPP_GUARD_START
  * @return The 64-bit time in counter ticks.
  */
 #define EMBC_TIME_TO_COUNTER(x, z) \
-    (( ((int64_t) (x)) * z + \
+    (( ((int64_t) (x)) * ((int64_t) (z)) + \
        _EMBC_TIME_SIGNUM(z) * EMBC_TIME_SECOND / 2) \
      >> EMBC_TIME_Q)
 
@@ -193,7 +193,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * z + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * ((int64_t) (z)) + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to counter ticks, rounded down
@@ -202,7 +202,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * z) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * ((int64_t) (z))) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to 32-bit unsigned seconds.
-- 
2.43.0


From d58e4ad9052f44ead9b6d19b09c829a23c99c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 47/56] fix: round up to every multiple expression

---
 include/embc/cdef.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/cdef.h b/include/embc/cdef.h
index af10b83..7cb0ea9 100644
--- a/include/embc/cdef.h
+++ b/include/embc/cdef.h
@@ -170,7 +170,7 @@
  *
  * Some examples:
  *
- *     ROUND_UP_TO_MULTIPLE(0, 128) => 128
+ *     ROUND_UP_TO_MULTIPLE(0, 128) => 0
  *     ROUND_UP_TO_MULTIPLE(1, 128) => 128
  *     ROUND_UP_TO_MULTIPLE(128, 128) => 128
  *     ROUND_UP_TO_MULTIPLE(129, 128) => 256
@@ -179,7 +179,7 @@
  * WARNING: The values for x and m MUST NOT have any side effects
  * as the parameters occur multiple times in the macro!
  */
-#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * (m - 1) )) / m) * m)
+#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * ((m) - 1) )) / (m)) * (m))
 
 /**
  * @brief Find the container instance given a member pointer.
-- 
2.43.0


From 70f9120aed26b89c0f242d12fe248f46f6e8dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 48/56] fix: check argument ranges without truncating the
 argument

---
 include/embc/argchk.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/embc/argchk.h b/include/embc/argchk.h
index 24a904f..f7a022e 100644
--- a/include/embc/argchk.h
+++ b/include/embc/argchk.h
@@ -139,15 +139,15 @@ EMBC_CPP_GUARD_START
  * @param xmax The maximum value, inclusive.
  */
 #define EMBC_ARGCHK_RANGE_INT(x, x_min, x_max)  do { \
-    int x__ = (x); \
-    int x_min__ = (x_min); \
-    int x_max__ = (x_max); \
+    long long x__ = (x); \
+    long long x_min__ = (x_min); \
+    long long x_max__ = (x_max); \
     if (x__ < x_min__) { \
-        EMBC_LOGI("chk_assert: %s [%d] < %d", #x, x__, x_min__); \
+        EMBC_LOGI("chk_assert: %s [%d] < %d", #x, (int) x__, (int) x_min__); \
         return EMBC_ARGCHK_FAIL_RETURN_CODE; \
     } \
     if (x__ > x_max__) { \
-        EMBC_LOGI("chk_assert: %s [%d] > %d", #x, x__, x_max__); \
+        EMBC_LOGI("chk_assert: %s [%d] > %d", #x, (int) x__, (int) x_max__); \
         return EMBC_ARGCHK_FAIL_RETURN_CODE; \
     } \
 } while (0)
-- 
2.43.0


From 7bcb0c46e874fbca391a5f082323684c79f22728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 49/56] fix: do not write past the stream sink buffer when the
 length wraps

---
 src/stream/async_sink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..4380094 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -68,7 +68,7 @@ static void send(struct embc_stream_consumer_s * self,
                 s->write_fn(s->write_user_data, transaction->data.ioctl_write.ptr, transaction->length);
             }
             if (s->dst_buffer) {
-                if (s->dst_length < (s->offset + transaction->length)) {
+                if ((s->dst_length - s->offset) < transaction->length) {
                     EMBC_LOGW("async_sink buffer overflow");
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
-- 
2.43.0


From 4f78844014a2df1072bc53cba29e353a5303a312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 50/56] fix: accept stream sink transactions without a producer

---
 src/stream/async_sink.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 4380094..22877d3 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -55,7 +55,9 @@ static void send(struct embc_stream_consumer_s * self,
             transaction->file_id = 1;
             s->mode = 1;
             s->offset = 0;
-            s->producer->send(s->producer, transaction);
+            if (s->producer) {
+                s->producer->send(s->producer, transaction);
+            }
             if (s->dst_buffer) {
                 send_write_request(s);
             } else {
@@ -77,7 +79,9 @@ static void send(struct embc_stream_consumer_s * self,
                     s->offset += transaction->length;
                 }
             }
-            s->producer->send(s->producer, transaction);
+            if (s->producer) {
+                s->producer->send(s->producer, transaction);
+            }
             send_write_request(s);
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-- 
2.43.0


From 76c7bc40cb329f97aaf0a0661a0b9e9ce16b6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 51/56] fix: do not emit stream sink events after close

---
 src/stream/async_sink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 22877d3..5e30610 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -85,7 +85,7 @@ static void send(struct embc_stream_consumer_s * self,
             send_write_request(s);
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 1;
+            s->mode = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-- 
2.43.0


From 762686e6bd637b9298143f6879017ac85198f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 52/56] fix: keep stream source writes within the requested MTU

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..b380e37 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -45,6 +45,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -52,6 +53,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From 50c552391599f0d98c43b806666a76e58b63fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 53/56] fix: close each stream source file once and stop
 sending after close

---
 include/embc/stream/async_source.h |  1 +
 src/stream/async_source.c          | 26 +++++++++++++++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/embc/stream/async_source.h b/include/embc/stream/async_source.h
index 256387a..8c6d3e7 100644
--- a/include/embc/stream/async_source.h
+++ b/include/embc/stream/async_source.h
@@ -52,6 +52,7 @@ struct embc_stream_source_s {
     uint32_t source_length;
     uint32_t tx_offset;
     uint32_t rx_offset;
+    uint8_t is_open;
     void (*done_fn)(void * user_data, uint8_t status);
     void * done_user_data;
 };
diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index b380e37..6555f40 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -17,6 +17,16 @@
 #include "embc/stream/async_source.h"
 #include "embc.h"
 
+static void close_file(struct embc_stream_source_s * self,
+                       struct embc_stream_transaction_s * transaction,
+                       uint8_t status) {
+    EMBC_STRUCT_PTR_INIT(transaction);
+    transaction->type = EMBC_STREAM_IOCTL_CLOSE;
+    transaction->status = status;
+    self->is_open = 0;
+    self->consumer->send(self->consumer, transaction);
+}
+
 static void send(struct embc_stream_producer_s * self,
                  struct embc_stream_transaction_s * transaction) {
     EMBC_DBC_NOT_NULL(self);
@@ -30,15 +40,16 @@ static void send(struct embc_stream_producer_s * self,
             }
             break;
         case EMBC_STREAM_IOCTL_WRITE:
+            if (!s->is_open) {
+                break;
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
-                EMBC_STRUCT_PTR_INIT(transaction);
-                transaction->type = EMBC_STREAM_IOCTL_CLOSE;
-                s->consumer->send(s->consumer, transaction);
+                close_file(s, transaction, 0);
             }
             break;
         case EMBC_STREAM_EVENT_WRITE_REQUEST: {
-            if (s->tx_offset >= s->source_length) {
+            if (!s->is_open || (s->tx_offset >= s->source_length)) {
                 break;
             }
             uint16_t sz = transaction->length;
@@ -71,9 +82,9 @@ static void send(struct embc_stream_producer_s * self,
             break;
         }
         case EMBC_STREAM_EVENT_ABORT:
-            transaction->type = EMBC_STREAM_IOCTL_CLOSE;
-            transaction->status = EMBC_ERROR_ABORTED;
-            s->consumer->send(s->consumer, transaction);
+            if (s->is_open) {
+                close_file(s, transaction, EMBC_ERROR_ABORTED);
+            }
             break;
         default:
             break;
@@ -132,6 +143,7 @@ EMBC_API void embc_stream_source_open_ex(
         uint16_t length) {
     self->tx_offset = 0;
     self->rx_offset = 0;
+    self->is_open = 1;
     struct embc_stream_transaction_s transaction;
     EMBC_STRUCT_INIT(transaction);
     transaction.type = EMBC_STREAM_IOCTL_OPEN;
-- 
2.43.0


From 52e0d67235dfe6f8251c7c6d88ff94321429e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 54/56] fix: stop the stream source when its file is closed

---
 src/stream/async_source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 6555f40..8cfea45 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -35,6 +35,7 @@ static void send(struct embc_stream_producer_s * self,
         case EMBC_STREAM_IOCTL_OPEN:
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
+            s->is_open = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, transaction->status);
             }
-- 
2.43.0


From 4b26ce931b83d5c54813c8fab0285864ca357a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 55/56] fix: report stream sink overflow instead of success

---
 src/stream/async_sink.c   | 1 +
 src/stream/async_source.c | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 5e30610..39d41c3 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -72,6 +72,7 @@ static void send(struct embc_stream_consumer_s * self,
             if (s->dst_buffer) {
                 if ((s->dst_length - s->offset) < transaction->length) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    transaction->status = EMBC_ERROR_FULL;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 8cfea45..b59cee0 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -44,6 +44,10 @@ static void send(struct embc_stream_producer_s * self,
             if (!s->is_open) {
                 break;
             }
+            if (transaction->status) {
+                close_file(s, transaction, transaction->status);
+                break;
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
                 close_file(s, transaction, 0);
-- 
2.43.0


From f273a865754f5c90517be9ec997ea8b1939c8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 56/56] fix: do not erase an empty receive buffer after a frame
 found on resync

---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index b8dbe3e..0b5db8c 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -844,7 +844,9 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
         ++i;
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0

