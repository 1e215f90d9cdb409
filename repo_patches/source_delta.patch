From 2eda30428af87876d01e776d53c993af2797dbbe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 01/44] fix: GGC_PUSH_N compiles and records the size of its
 frame

---
 ggggc/push.h | 3 ++-
 pushgen.c    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ggggc/push.h b/ggggc/push.h
index a1bdb02..3de0d5d 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -776,8 +776,9 @@ do { \
     struct GGGGC_PointerStack *ggggc_pstack_cur = \
         (struct GGGGC_PointerStack *) \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
-    void *ggggc_pptrs[] = (void*[]) pptrs; \
+    void **ggggc_pptrs = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
+    ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
     ggggc_pstack_cur->pointers[ggggc_n] = NULL; \
     ggggc_pointerStack = ggggc_pstack_cur; \
diff --git a/pushgen.c b/pushgen.c
index ebe3daa..1931f25 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -81,8 +81,9 @@ int main()
            "    struct GGGGC_PointerStack *ggggc_pstack_cur = \\\n"
            "        (struct GGGGC_PointerStack *) \\\n"
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
-           "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
+           "    void **ggggc_pptrs = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
+           "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
            "    ggggc_pstack_cur->pointers[ggggc_n] = NULL; \\\n"
            "    ggggc_pointerStack = ggggc_pstack_cur; \\\n"
-- 
2.43.0


From 400bb39c2a029099f00f7ab22297e0a751c04d31 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 02/44] fix: GGC_PTR describes members at word offsets 31 and
 above

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 6870515..ae37fc4 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -229,7 +229,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGGGC_OFFSETOF(type, member) \
     ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))
 #define GGC_PTR(type, member) \
-    | (1<<GGGGC_OFFSETOF(type, member))
+    | ((ggc_size_t) 1<<GGGGC_OFFSETOF(type, member))
 #define GGC_NO_PTRS | 0
 
 /* macros for array types */
-- 
2.43.0


From 3b24fb860afc915b9403191058701c513fc3d18a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 03/44] fix: ggggc_allocateDescriptor describes objects larger
 than one description word

---
 allocator.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/allocator.c b/allocator.c
index dfb161f..677d905 100644
--- a/allocator.c
+++ b/allocator.c
@@ -268,9 +268,24 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
  * given pointer layout */
 struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t pointers)
 {
+    struct GGGGC_Descriptor *ret;
     ggc_size_t pointersA[1];
+    ggc_size_t *pointersL;
+    ggc_size_t i, words;
+
     pointersA[0] = pointers;
-    return ggggc_allocateDescriptorL(size, pointersA);
+    if (size <= GGGGC_BITS_PER_WORD)
+        return ggggc_allocateDescriptorL(size, pointersA);
+
+    /* everything beyond the first description word is data */
+    words = (size + GGGGC_BITS_PER_WORD - 1) / GGGGC_BITS_PER_WORD;
+    pointersL = (ggc_size_t *) malloc(sizeof(ggc_size_t) * words);
+    if (!pointersL) abort();
+    pointersL[0] = pointers;
+    for (i = 1; i < words; i++) pointersL[i] = 0;
+    ret = ggggc_allocateDescriptorL(size, pointersL);
+    free(pointersL);
+    return ret;
 }
 
 /* descriptor allocator when more than one word is required to describe the
-- 
2.43.0


From 283dabbdcb47bc01e2acf27304dba486ec7b0fba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 04/44] fix: scan of the remembered set stops at the end of the
 used part of a pool

---
 collector/gembc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b2e5496..2e92efc 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -538,11 +538,10 @@ collect:
                 if (poolCur->remember[i]) {
                     struct GGGGC_Header *obj = (struct GGGGC_Header *)
                         ((ggc_size_t) poolCur + i * GGGGC_CARD_BYTES + poolCur->firstObject[i] * sizeof(ggc_size_t));
-                    while (GGGGC_CARD_OF(obj) == i) {
+                    while ((ggc_size_t *) obj < poolCur->free && GGGGC_CARD_OF(obj) == i) {
                         ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);
                         obj = (struct GGGGC_Header *)
                             ((ggc_size_t) obj + obj->descriptor__ptr->size * sizeof(ggc_size_t));
-                        if (obj->descriptor__ptr == NULL) break;
                     }
                 }
             }
-- 
2.43.0


From c0236e88d13909bd6870210234f08f070354ee19 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 05/44] fix: compaction of a pool that stays full does not
 clobber the first card

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 2e92efc..98f4018 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1265,7 +1265,7 @@ void ggggc_postCompact(struct GGGGC_Pool *pool)
 
 #if GGGGC_GENERATIONS > 1
     /* and perhaps set firstObject for the free space */
-    if (pool->gen) {
+    if (pool->gen && pool->free < pool->end) {
         card = GGGGC_CARD_OF(pool->free);
         if (card != lastCard)
             pool->firstObject[card] = ((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);
-- 
2.43.0


From 18cf1fb8e48668d5892e038fc37883c1818eb6b7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 06/44] fix: compaction does not touch the word beyond an
 odd-sized chunk

---
 collector/gembc.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 98f4018..44038e6 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1127,7 +1127,7 @@ void ggggc_compact(struct GGGGC_Pool *pool)
 {
     ggc_size_t chSize, fchSize;
     struct BreakTableEl *bt = NULL, *btEnd;
-    ggc_size_t i, j, *cur;
+    ggc_size_t i, *cur;
 
     /* ggggc_countUsed put the size of the first contiguous chunk in breakTableSize, so start from there */
     cur = pool->start + pool->breakTableSize;
@@ -1152,32 +1152,41 @@ void ggggc_compact(struct GGGGC_Pool *pool)
             fchSize = 0;
 
         /* now copy in the data while rolling forward the bt */
-        for (i = 0; i < chSize; i += sizeof(struct BreakTableEl) / sizeof(ggc_size_t)) {
-            /* move the bt entry out of the way */
-            *btEnd++ = *bt++;
+        for (i = 0; i < chSize; i++) {
+            /* move the bt entry out of the way, if it's still in the way */
+            if ((ggc_size_t *) bt <= pool->free + i)
+                *btEnd++ = *bt++;
 
             /* and copy in the data */
-            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t); j++)
-                pool->free[i+j] = cur[i+j];
+            pool->free[i] = cur[i];
+        }
+        pool->free += chSize;
+        cur += chSize;
+
+        /* an odd chunk may leave a word unused before the table, which the
+         * next entry may need */
+        if ((ggc_size_t *) (btEnd + 1) > cur + fchSize) {
+            ggc_size_t btSize = btEnd - bt;
+            memmove(pool->free, bt, btSize * sizeof(struct BreakTableEl));
+            bt = (struct BreakTableEl *) pool->free;
+            btEnd = bt + btSize;
         }
 
         /* add the bt table entry */
-        btEnd->orig = cur;
-        btEnd->newL = pool->free;
+        btEnd->orig = cur - chSize;
+        btEnd->newL = pool->free - chSize;
         btEnd++;
-        pool->free += chSize;
-        cur += chSize;
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
         if ((ggc_size_t *) bt < pool->free) abort();
-        if ((ggc_size_t *) btEnd >= cur + fchSize) abort();
+        if ((ggc_size_t *) btEnd > cur + fchSize) abort();
 #endif
 
         if (cur >= pool->end) break;
     }
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
-    if ((ggc_size_t *) btEnd >= pool->end) abort();
+    if ((ggc_size_t *) btEnd > pool->end) abort();
 #endif
 
     pool->breakTableSize = btEnd - bt;
-- 
2.43.0


From 7226ddcd9180f2af12f13eb0aebfaf16701378ba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 07/44] fix: allocation grows the heap or gives up when
 collecting frees too little

---
 collector/gembc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/collector/gembc.c b/collector/gembc.c
index 44038e6..4ed49a8 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -70,6 +70,7 @@ void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, /* descriptor to pro
                       ) {
     struct GGGGC_Pool *pool;
     struct GGGGC_Header *ret;
+    int collections = 0;
 
 retry:
     /* get our allocation pool */
@@ -97,12 +98,22 @@ retry:
         ggggc_pool0 = pool = pool->next;
         goto retry;
 
+    } else if (collections > GGGGC_GENERATIONS) {
+        /* collecting doesn't free enough, so we must grow */
+        if ((ggc_size_t) (pool->end - pool->start) < size) {
+            fprintf(stderr, "GGGGC: object too large for a pool\n");
+            abort();
+        }
+        pool->next = ggggc_newPoolGen(0, 1);
+        goto retry;
+
     } else {
         /* need to collect, which means we need to actually be a GC-safe function */
         GGC_PUSH_1(*descriptor);
         ggggc_collect0(0);
         GGC_POP();
         pool = ggggc_pool0;
+        collections++;
         goto retry;
 
     }
-- 
2.43.0


From f626c47bfd430b795dbee3496d28337ee7902d72 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 08/44] fix: pools start with no survivors and no finalizers

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index 677d905..86fa4b1 100644
--- a/allocator.c
+++ b/allocator.c
@@ -126,6 +126,10 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     ret->next = NULL;
     ret->free = ret->start;
     ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);
+    ret->survivors = 0;
+#ifdef GGGGC_FEATURE_FINALIZERS
+    ret->finalizers = NULL;
+#endif
 
     return ret;
 }
-- 
2.43.0


From 5ef9b4c3cb805e7623d7fbbad965fd07a255f757 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 09/44] fix: pointer stack is balanced without compiler support
 for cleanup

---
 allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/allocator.c b/allocator.c
index 86fa4b1..7b76c52 100644
--- a/allocator.c
+++ b/allocator.c
@@ -263,6 +263,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     {
         GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return ret;
@@ -455,6 +456,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlo
     {
         GGC_PUSH_1(slot->descriptor);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return slot->descriptor;
@@ -494,6 +496,8 @@ void ggggc_finalize(void *obj, ggc_finalizer_t finalizer)
     next = (GGGGC_FinalizerEntry) pool->finalizers;
     GGC_WP(entry, next, next);
     pool->finalizers = entry;
+
+    return;
 }
 
 /* and function for running finalizers */
@@ -513,6 +517,8 @@ void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers)
 
         finalizer = GGC_RP(finalizer, next);
     }
+
+    return;
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From 7fa8674a492b8d8bfe39431b65a54a85f07a5b41 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 10/44] fix: GGC_ListShift returns the element rather than the
 list node

---
 collections/list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/list.c b/collections/list.c
index 9c8b384..1db0841 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -176,6 +176,7 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
 void *GGC_ListShift(GGC_List list)
 {
     GGC_ListNode node = NULL, head = NULL;
+    void *el = NULL;
     ggc_size_t len;
 
     GGC_PUSH_2(list, node);
@@ -189,9 +190,11 @@ void *GGC_ListShift(GGC_List list)
 
         len = GGC_RD(list, length) - 1;
         GGC_WD(list, length, len);
+
+        el = GGC_RP(node, el);
     }
 
-    return node;
+    return el;
 }
 
 /* insert an element after the specified one, in the given list */
-- 
2.43.0


From dea1bd1a722d2529c0d404e43e96e21fc2a65de2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 11/44] fix: inserting after the last element of a list updates
 its tail

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 1db0841..f02b949 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -211,6 +211,8 @@ void GGC_ListInsertAfter(GGC_List list, GGC_ListNode after, void *value)
     next = GGC_RP(after, next);
     GGC_WP(node, next, next);
     GGC_WP(after, next, node);
+    if (!next)
+        GGC_WP(list, tail, node);
 
     len = GGC_RD(list, length) + 1;
     GGC_WD(list, length, len);
@@ -239,6 +241,8 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
     next = GGC_RP(after, next);
     GGC_WP(after, next, head);
     GGC_WP(tail, next, next);
+    if (!next)
+        GGC_WP(to, tail, tail);
 
     /* then set the length properly */
     tolen = GGC_RD(to, length) + fromlen;
-- 
2.43.0


From 37ea11ab09c67b3baf44e389e6d8f584d2f6885e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 12/44] fix: adding an empty list to another leaves both intact

---
 collections/list.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index f02b949..4d85d5b 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -70,6 +70,11 @@ void GGC_ListPushList(GGC_List to, GGC_List from)
         return;
     }
 
+    if (!GGC_RP(from, head)) {
+        /* there's nothing to append */
+        return;
+    }
+
     /* they both exist, so we actually need to append */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -146,6 +151,11 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
         return;
     }
 
+    if (!GGC_RP(from, head)) {
+        /* there's nothing to prepend */
+        return;
+    }
+
     /* they both exist, so we actually need to prepend */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -228,6 +238,11 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
 
     GGC_PUSH_6(to, after, from, head, tail, next);
 
+    if (!GGC_RP(from, head)) {
+        /* there's nothing to insert */
+        return;
+    }
+
     /* pull them out of the old list */
     fromlen = GGC_RD(from, length);
     head = GGC_RP(from, head);
-- 
2.43.0


From ed620e4b3a14a41cd97b5bdee6f87d353acbb3a8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 13/44] fix: descriptor descriptor table has room for every
 descriptor with external tags

---
 ggggc-internals.h | 3 ++-
 globals.c         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 8f8f058..9c6fee2 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -107,7 +107,8 @@ extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 
 /* descriptor descriptors */
-extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+#define GGGGC_DESCRIPTOR_DESCRIPTORS (GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor))
+extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_DESCRIPTORS];
 
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
diff --git a/globals.c b/globals.c
index 136fb25..b8ac9b1 100644
--- a/globals.c
+++ b/globals.c
@@ -24,5 +24,5 @@ ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
-struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_DESCRIPTORS];
 ggc_mutex_t ggggc_descriptorDescriptorsLock;
-- 
2.43.0


From ef1a1da374656ba6c31d851ee81703640b74b70c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 14/44] fix: JIT pointer stack works together with internal
 tagging

---
 collector/gembc.c      | 4 ++--
 collector/portablems.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 4ed49a8..584a175 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -520,7 +520,7 @@ collect:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (!IS_TAGGED(*((void *) jpsCur)))
+            if (!IS_TAGGED(*jpsCur))
                 TOSEARCH_ADD(jpsCur);
 #else
             int wordIdx;
@@ -997,7 +997,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur)
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 FOLLOW_COMPACTED_OBJECT(*jpsCur);
 #else
             int wordIdx;
diff --git a/collector/portablems.c b/collector/portablems.c
index 9893de6..3ba4825 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -585,8 +585,8 @@ void ggggc_collect0(unsigned char gen)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur && !IS_TAGGED(*((void *) jpsCur)))
-                mark(*jpsCur);
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
+                mark((struct GGGGC_Header *) *jpsCur);
 #else
             int wordIdx;
             size_t tags = *((ggc_size_t *) jpsCur);
@@ -600,7 +600,7 @@ void ggggc_collect0(unsigned char gen)
                 jpsCur++;
                 /* Lowest bit indicates pointer */
                 if ((tag & 0x1) == 0 && *jpsCur)
-                    mark(*jpsCur);
+                    mark((struct GGGGC_Header *) *jpsCur);
             }
 #endif /* GGGGC_FEATURE_EXTTAG */
         }
-- 
2.43.0


From 7b73bf59f60fd828b194298c00858da1626937b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 15/44] fix: finalizers never run on objects that survived the
 collection

---
 collector/gembc.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 584a175..96ba497 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -262,8 +262,9 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* macro to handle the finalizers for a given pool */
-#define FINALIZER_POOL() do { \
+/* macro to handle the finalizers for a given pool. ALIVE tests whether an
+ * object (after following forwarding) has survived */
+#define FINALIZER_POOL(ALIVE) do { \
     finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
     poolCur->finalizers = NULL; \
     while (finalizer) { \
@@ -275,7 +276,8 @@ static struct ToSearch toSearchList;
         \
         /* grab the object */ \
         obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
-        if (IS_FORWARDED_OBJECT(obj)) { \
+        FOLLOW_FORWARDED_OBJECT(obj); \
+        if (ALIVE(obj)) { \
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
@@ -292,6 +294,10 @@ static struct ToSearch toSearchList;
         finalizer = nextFinalizer; \
     } \
 } while(0)
+
+/* during a partial collection, whatever survives is promoted, so anything in
+ * an older generation than those collected has survived */
+#define IS_UNCOLLECTED(obj) (GGGGC_GEN_OF(obj) > gen)
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -652,12 +658,12 @@ collect:
             /* add all the finalizers themselves */
             for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                 for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_UNCOLLECTED);
                 }
             }
             for (genCur = 1; genCur <= gen; genCur++) {
                 for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_UNCOLLECTED);
                 }
             }
 
@@ -941,12 +947,12 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add all the finalizers themselves */
             for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                 for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_MARKED);
                 }
             }
             for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
                 for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
+                    FINALIZER_POOL(IS_MARKED);
                 }
             }
 
-- 
2.43.0


From eb31d944c9f304b721a642e2f18caa912182090c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 16/44] fix: finalizers of surviving objects stay registered
 with their pool

---
 collector/gembc.c | 56 +++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 96ba497..566aa63 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -183,7 +183,6 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 #ifdef GGGGC_FEATURE_FINALIZERS
 #define COLLECT_FULL_ARGS \
     GGGGC_FinalizerEntry *survivingFinalizersOut, \
-    GGGGC_FinalizerEntry *survivingFinalizersTailOut, \
     GGGGC_FinalizerEntry *readyFinalizersOut
 #else
 #define COLLECT_FULL_ARGS void
@@ -281,8 +280,6 @@ static struct ToSearch toSearchList;
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
-            if (!survivingFinalizersTail) \
-                survivingFinalizersTail = finalizer; \
             \
         } else { \
             /* object died, add this to ready finalizers */ \
@@ -300,6 +297,27 @@ static struct ToSearch toSearchList;
 #define IS_UNCOLLECTED(obj) (GGGGC_GEN_OF(obj) > gen)
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
+#ifdef GGGGC_FEATURE_FINALIZERS
+/* put finalizers back on the lists of the pools they're (now) in */
+static void restoreFinalizers(GGGGC_FinalizerEntry finalizer)
+{
+    struct GGGGC_Pool *pool;
+    struct GGGGC_Header *obj;
+    GGGGC_FinalizerEntry nextFinalizer;
+
+    while (finalizer) {
+        obj = (struct GGGGC_Header *) finalizer;
+        FOLLOW_FORWARDED_OBJECT(obj);
+        finalizer = (GGGGC_FinalizerEntry) obj;
+        nextFinalizer = finalizer->next__ptr;
+        pool = GGGGC_POOL_OF(finalizer);
+        finalizer->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+        pool->finalizers = finalizer;
+        finalizer = nextFinalizer;
+    }
+}
+#endif
+
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
 static void memoryCorruptionCheckObj(const char *when, struct GGGGC_Header *obj)
 {
@@ -438,8 +456,8 @@ void ggggc_collect0(unsigned char gen)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     /* first, make sure we stop the world */
@@ -505,7 +523,7 @@ collect:
     ) {
         ggggc_collectFull(
 #ifdef GGGGC_FEATURE_FINALIZERS
-            &survivingFinalizers, &survivingFinalizersTail, &readyFinalizers
+            &survivingFinalizers, &readyFinalizers
 #endif
         );
         goto postCollect;
@@ -608,16 +626,9 @@ collect:
             if (!nobj) {
 #ifdef GGGGC_FEATURE_FINALIZERS
                 /* preserve all finalizers */
-                if (survivingFinalizers) {
-                    poolCur = GGGGC_POOL_OF(survivingFinalizers);
-                    poolCur->finalizers = survivingFinalizers;
-                    survivingFinalizersTail->next__ptr = readyFinalizers;
-                } else if (readyFinalizers) {
-                    poolCur = GGGGC_POOL_OF(readyFinalizers);
-                    poolCur->finalizers = readyFinalizers;
-                }
-                survivingFinalizers = survivingFinalizersTail =
-                    readyFinalizers = NULL;
+                restoreFinalizers(survivingFinalizers);
+                restoreFinalizers(readyFinalizers);
+                survivingFinalizers = readyFinalizers = NULL;
 #endif
 
                 /* failed to allocate, need to collect gen+1 too */
@@ -669,7 +680,6 @@ collect:
 
             /* then make sure the finalizer queues get promoted */
             TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
             TOSEARCH_ADD(&readyFinalizers);
         }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -680,10 +690,7 @@ postCollect:
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* preserve surviving finalizers */
-    if (survivingFinalizers) {
-        poolCur = GGGGC_POOL_OF(survivingFinalizers);
-        poolCur->finalizers = survivingFinalizers;
-    }
+    restoreFinalizers(survivingFinalizers);
 #endif
 
     /* heuristically expand too-small generations */
@@ -863,8 +870,8 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked = 0;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     TOSEARCH_INIT();
@@ -958,7 +965,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 
             /* then make sure the finalizer queues get promoted */
             TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
             TOSEARCH_ADD(&readyFinalizers);
         }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -1034,7 +1040,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     } \
 } while(0)
     F(survivingFinalizers);
-    F(survivingFinalizersTail);
     F(readyFinalizers);
 #undef F
 #endif
@@ -1075,7 +1080,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     *survivingFinalizersOut = survivingFinalizers;
-    *survivingFinalizersTailOut = survivingFinalizersTail;
     *readyFinalizersOut = readyFinalizers;
 #endif
 }
-- 
2.43.0


From 3b34064be7605eabfd04a88a5994eb879e1f2909 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 17/44] fix: finalizers are checked no matter which pointer is
 searched last

---
 collector/gembc.c | 112 +++++++++++++++++++++++++---------------------
 1 file changed, 60 insertions(+), 52 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 566aa63..9795463 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -589,10 +589,39 @@ collect:
 #endif
 
     /* now test all our pointers */
-    while (toSearch->used) {
+    while (1) {
         void **ptr;
         struct GGGGC_Header *obj;
 
+        if (!toSearch->used) {
+#ifdef GGGGC_FEATURE_FINALIZERS
+            /* perhaps check finalizers */
+            if (!finalizersChecked) {
+                GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+
+                finalizersChecked = 1;
+
+                /* add all the finalizers themselves */
+                for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+                    for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(IS_UNCOLLECTED);
+                    }
+                }
+                for (genCur = 1; genCur <= gen; genCur++) {
+                    for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(IS_UNCOLLECTED);
+                    }
+                }
+
+                /* then make sure the finalizer queues get promoted */
+                TOSEARCH_ADD(&survivingFinalizers);
+                TOSEARCH_ADD(&readyFinalizers);
+                continue;
+            }
+#endif /* GGGGC_FEATURE_FINALIZERS */
+            break;
+        }
+
         TOSEARCH_POP(void **, ptr);
         obj = (struct GGGGC_Header *) *ptr;
         if (obj == NULL) continue;
@@ -658,31 +687,6 @@ collect:
             abort();
         }
 #endif
-
-#ifdef GGGGC_FEATURE_FINALIZERS
-        /* perhaps check finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
-
-            finalizersChecked = 1;
-
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_UNCOLLECTED);
-                }
-            }
-            for (genCur = 1; genCur <= gen; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_UNCOLLECTED);
-                }
-            }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&readyFinalizers);
-        }
-#endif /* GGGGC_FEATURE_FINALIZERS */
     }
 #endif /* GGGGC_GENERATIONS > 1 */
 
@@ -913,11 +917,40 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
     /* now mark */
-    while (toSearch->used) {
+    while (1) {
         void **ptr;
         struct GGGGC_Header *obj;
         ggc_size_t lastMark;
 
+        if (!toSearch->used) {
+#ifdef GGGGC_FEATURE_FINALIZERS
+            /* possibly start handling finalizers */
+            if (!finalizersChecked) {
+                GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+
+                finalizersChecked = 1;
+
+                /* add all the finalizers themselves */
+                for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+                    for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(IS_MARKED);
+                    }
+                }
+                for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+                    for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                        FINALIZER_POOL(IS_MARKED);
+                    }
+                }
+
+                /* then make sure the finalizer queues get promoted */
+                TOSEARCH_ADD(&survivingFinalizers);
+                TOSEARCH_ADD(&readyFinalizers);
+                continue;
+            }
+#endif /* GGGGC_FEATURE_FINALIZERS */
+            break;
+        }
+
         TOSEARCH_POP(void **, ptr);
         obj = (struct GGGGC_Header *) *ptr;
         if (obj == NULL) continue;
@@ -943,31 +976,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
         }
-
-#ifdef GGGGC_FEATURE_FINALIZERS
-        /* possibly start handling finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
-
-            finalizersChecked = 1;
-
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_MARKED);
-                }
-            }
-            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL(IS_MARKED);
-                }
-            }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&readyFinalizers);
-        }
-#endif /* GGGGC_FEATURE_FINALIZERS */
     }
 
     /* find all our sizes, for later compaction */
-- 
2.43.0


From 99d91e751f505ba81b50d74b3194871dffcd84f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 18/44] fix: finalizer entries live outside of the heap

Surviving finalizers stay registered now, so their entries must neither take
space from the objects nor be lost.
---
 allocator.c            | 82 ++++++++++++++++++++++++------------------
 collector/gembc.c      | 78 ++++++++++++++++++----------------------
 collector/portablems.c | 66 ++++++----------------------------
 ggggc-internals.h      | 21 +++++------
 4 files changed, 102 insertions(+), 145 deletions(-)

diff --git a/allocator.c b/allocator.c
index 7b76c52..eaddfbe 100644
--- a/allocator.c
+++ b/allocator.c
@@ -472,53 +472,65 @@ void *ggggc_mallocSlot(struct GGGGC_DescriptorSlot *slot)
 /* specify a finalizer for an object */
 void ggggc_finalize(void *obj, ggc_finalizer_t finalizer)
 {
-    GGGGC_FinalizerEntry entry = NULL, next = NULL;
-    struct GGGGC_Pool *pool = NULL;
+    struct GGGGC_FinalizerEntry *entry;
 
-    GGC_PUSH_3(obj, entry, next);
+    /* entries are listed in the pools, so this thread must have one */
+    if (!ggggc_gen0) {
+        GGC_PUSH_1(obj);
+        ggggc_mallocDataArray(0, 1);
+        GGC_POP();
+    }
 
     /* allocate the entry */
-    /* NOTE: This is the ONLY GC_NEW in the entire garbage collector, since
-     * finalizer entries are the only high-level data type needed by the
-     * collector itself. But, as a consequence, we can't count on descriptors
-     * being pre-constructed, since the constructors for descriptors may not
-     * have actually run yet. As such, we use GGC_NEW_FROM_DESCRIPTOR_SLOT here,
-     * which will allocate the descriptor if needed, instead of just GGC_NEW. */
-    entry = (GGGGC_FinalizerEntry)
-        GGC_NEW_FROM_DESCRIPTOR_SLOT(&GGGGC_FinalizerEntry__descriptorSlot);
+    entry = (struct GGGGC_FinalizerEntry *) malloc(sizeof(struct GGGGC_FinalizerEntry));
+    if (!entry) {
+        perror("malloc");
+        abort();
+    }
 
     /* set it up */
-    GGC_WP(entry, obj, obj);
-    GGC_WD(entry, finalizer, finalizer);
+    entry->obj = obj;
+    entry->finalizer = finalizer;
 
     /* add it to the list */
-    pool = GGGGC_POOL_OF(entry);
-    next = (GGGGC_FinalizerEntry) pool->finalizers;
-    GGC_WP(entry, next, next);
-    pool->finalizers = entry;
-
-    return;
+    entry->next = (struct GGGGC_FinalizerEntry *) ggggc_gen0->finalizers;
+    ggggc_gen0->finalizers = (void *) entry;
 }
 
-/* and function for running finalizers */
-void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers)
+/* and function for running finalizers (which frees them) */
+void ggggc_runFinalizers(struct GGGGC_FinalizerEntry *finalizers)
 {
-    GGGGC_FinalizerEntry finalizer = NULL;
-    void *obj = NULL;
-    ggc_finalizer_t ffunc;
-
-    GGC_PUSH_3(finalizers, finalizer, obj);
-
-    finalizer = finalizers;
-    while (finalizer) {
-        obj = GGC_RP(finalizer, obj);
-        ffunc = GGC_RD(finalizer, finalizer);
-        ffunc(obj);
-
-        finalizer = GGC_RP(finalizer, next);
+    struct GGGGC_PointerStack *roots;
+    struct GGGGC_FinalizerEntry *finalizer;
+    ggc_size_t i;
+
+    /* all of the objects are roots until they've been finalized */
+    i = 0;
+    for (finalizer = finalizers; finalizer; finalizer = finalizer->next) i++;
+    roots = (struct GGGGC_PointerStack *)
+        malloc(sizeof(struct GGGGC_PointerStack) + i * sizeof(void *));
+    if (!roots) {
+        perror("malloc");
+        abort();
+    }
+    roots->size = i;
+    for (i = 0, finalizer = finalizers; finalizer; i++, finalizer = finalizer->next)
+        roots->pointers[i] = (void *) &finalizer->obj;
+    roots->next = ggggc_pointerStack;
+    ggggc_pointerStack = roots;
+
+    for (finalizer = finalizers; finalizer; finalizer = finalizer->next) {
+        finalizer->finalizer(finalizer->obj);
+        finalizer->obj = NULL;
     }
 
-    return;
+    ggggc_pointerStack = roots->next;
+    free(roots);
+    while (finalizers) {
+        finalizer = finalizers;
+        finalizers = finalizer->next;
+        free(finalizer);
+    }
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
diff --git a/collector/gembc.c b/collector/gembc.c
index 9795463..e920d28 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -182,8 +182,8 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 /* full collection */
 #ifdef GGGGC_FEATURE_FINALIZERS
 #define COLLECT_FULL_ARGS \
-    GGGGC_FinalizerEntry *survivingFinalizersOut, \
-    GGGGC_FinalizerEntry *readyFinalizersOut
+    struct GGGGC_FinalizerEntry **survivingFinalizersOut, \
+    struct GGGGC_FinalizerEntry **readyFinalizersOut
 #else
 #define COLLECT_FULL_ARGS void
 #endif
@@ -264,31 +264,26 @@ static struct ToSearch toSearchList;
 /* macro to handle the finalizers for a given pool. ALIVE tests whether an
  * object (after following forwarding) has survived */
 #define FINALIZER_POOL(ALIVE) do { \
-    finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
+    finalizer = (struct GGGGC_FinalizerEntry *) poolCur->finalizers; \
     poolCur->finalizers = NULL; \
-    while (finalizer) { \
-        obj = (struct GGGGC_Header *) finalizer; \
-        if (IS_FORWARDED_OBJECT(obj)) \
-            FOLLOW_FORWARDED_OBJECT(obj); \
-        finalizer = (GGGGC_FinalizerEntry) obj; \
-        nextFinalizer = finalizer->next__ptr; \
+    for (; finalizer; finalizer = nextFinalizer) { \
+        nextFinalizer = finalizer->next; \
         \
         /* grab the object */ \
-        obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
+        obj = (struct GGGGC_Header *) finalizer->obj; \
         FOLLOW_FORWARDED_OBJECT(obj); \
+        finalizer->obj = (void *) obj; \
         if (ALIVE(obj)) { \
             /* it survived, keep the finalizer */ \
-            finalizer->next__ptr = survivingFinalizers; \
+            finalizer->next = survivingFinalizers; \
             survivingFinalizers = finalizer; \
             \
         } else { \
             /* object died, add this to ready finalizers */ \
-            finalizer->next__ptr = readyFinalizers; \
+            finalizer->next = readyFinalizers; \
             readyFinalizers = finalizer; \
             \
         } \
-        \
-        finalizer = nextFinalizer; \
     } \
 } while(0)
 
@@ -298,22 +293,21 @@ static struct ToSearch toSearchList;
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* put finalizers back on the lists of the pools they're (now) in */
-static void restoreFinalizers(GGGGC_FinalizerEntry finalizer)
+/* put finalizers back on the lists of the pools their objects are (now) in */
+static void restoreFinalizers(struct GGGGC_FinalizerEntry *finalizer)
 {
     struct GGGGC_Pool *pool;
     struct GGGGC_Header *obj;
-    GGGGC_FinalizerEntry nextFinalizer;
+    struct GGGGC_FinalizerEntry *nextFinalizer;
 
-    while (finalizer) {
-        obj = (struct GGGGC_Header *) finalizer;
+    for (; finalizer; finalizer = nextFinalizer) {
+        nextFinalizer = finalizer->next;
+        obj = (struct GGGGC_Header *) finalizer->obj;
         FOLLOW_FORWARDED_OBJECT(obj);
-        finalizer = (GGGGC_FinalizerEntry) obj;
-        nextFinalizer = finalizer->next__ptr;
-        pool = GGGGC_POOL_OF(finalizer);
-        finalizer->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
-        pool->finalizers = finalizer;
-        finalizer = nextFinalizer;
+        finalizer->obj = (void *) obj;
+        pool = GGGGC_POOL_OF(obj);
+        finalizer->next = (struct GGGGC_FinalizerEntry *) pool->finalizers;
+        pool->finalizers = (void *) finalizer;
     }
 }
 #endif
@@ -456,7 +450,7 @@ void ggggc_collect0(unsigned char gen)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked;
-    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    struct GGGGC_FinalizerEntry *survivingFinalizers, *readyFinalizers;
     survivingFinalizers = readyFinalizers = NULL;
 #endif
 
@@ -597,11 +591,11 @@ collect:
 #ifdef GGGGC_FEATURE_FINALIZERS
             /* perhaps check finalizers */
             if (!finalizersChecked) {
-                GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+                struct GGGGC_FinalizerEntry *finalizer = NULL, *nextFinalizer = NULL;
 
                 finalizersChecked = 1;
 
-                /* add all the finalizers themselves */
+                /* find which finalizers are ready */
                 for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                     for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
                         FINALIZER_POOL(IS_UNCOLLECTED);
@@ -613,9 +607,9 @@ collect:
                     }
                 }
 
-                /* then make sure the finalizer queues get promoted */
-                TOSEARCH_ADD(&survivingFinalizers);
-                TOSEARCH_ADD(&readyFinalizers);
+                /* then make sure the objects to finalize are preserved */
+                for (finalizer = readyFinalizers; finalizer; finalizer = finalizer->next)
+                    TOSEARCH_ADD(&finalizer->obj);
                 continue;
             }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -874,7 +868,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked = 0;
-    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    struct GGGGC_FinalizerEntry *survivingFinalizers, *readyFinalizers;
     survivingFinalizers = readyFinalizers = NULL;
 #endif
 
@@ -926,11 +920,11 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #ifdef GGGGC_FEATURE_FINALIZERS
             /* possibly start handling finalizers */
             if (!finalizersChecked) {
-                GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+                struct GGGGC_FinalizerEntry *finalizer = NULL, *nextFinalizer = NULL;
 
                 finalizersChecked = 1;
 
-                /* add all the finalizers themselves */
+                /* find which finalizers are ready */
                 for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
                     for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
                         FINALIZER_POOL(IS_MARKED);
@@ -942,9 +936,9 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
                     }
                 }
 
-                /* then make sure the finalizer queues get promoted */
-                TOSEARCH_ADD(&survivingFinalizers);
-                TOSEARCH_ADD(&readyFinalizers);
+                /* then make sure the objects to finalize are preserved */
+                for (finalizer = readyFinalizers; finalizer; finalizer = finalizer->next)
+                    TOSEARCH_ADD(&finalizer->obj);
                 continue;
             }
 #endif /* GGGGC_FEATURE_FINALIZERS */
@@ -1040,12 +1034,10 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-#define F(finalizer) do { \
-    if (finalizer) { \
-        void *ptr = (void *) (finalizer); \
-        FOLLOW_COMPACTED_OBJECT(ptr); \
-        (finalizer) = (GGGGC_FinalizerEntry) ptr; \
-    } \
+#define F(finalizers) do { \
+    struct GGGGC_FinalizerEntry *finalizer; \
+    for (finalizer = (finalizers); finalizer; finalizer = finalizer->next) \
+        FOLLOW_COMPACTED_OBJECT(finalizer->obj); \
 } while(0)
     F(survivingFinalizers);
     F(readyFinalizers);
diff --git a/collector/portablems.c b/collector/portablems.c
index 3ba4825..f28f2cf 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -195,43 +195,6 @@ static void restartTheWorld()
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
 
-/* getting the pool from an object is only needed by finalizers */
-#ifdef GGGGC_FEATURE_FINALIZERS
-struct GGGGC_Pool *ggggc_poolOf(void *obj)
-{
-    struct GGGGC_PoolList *plCur, pool0Node;
-    struct GGGGC_PointerStackList pointerStackNode;
-
-    /* hopefully it's a local pool, so we can simply find it */
-    struct GGGGC_Pool *pool;
-    for (pool = ggggc_gen0; pool; pool = pool->next) {
-        if (obj >= (void *) pool->start && obj < (void *) pool->end)
-            return pool;
-    }
-
-    /* Not a local pool. We have to stop the world to scan all the other
-     * threads' pools, and in portablems, the only way to do that is a complete
-     * collection. */
-    stopTheWorld(&pool0Node, &pointerStackNode);
-
-    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-        for (pool = plCur->pool; pool; pool = pool->next) {
-            if (obj >= (void *) pool->start && obj < (void *) pool->end)
-                goto done;
-        }
-    }
-
-    /* didn't find it! */
-    abort();
-
-done:
-    /* we have to finish collection */
-    ggggc_collect0(1);
-
-    return pool;
-}
-#endif
-
 /* check if a value is user-tagged as a non-GC pointer. It's done here, while
  * adding to the to-check list, instead of while removing from the to-check
  * list, because the descriptor may be tagged by the GC, and we can only
@@ -552,7 +515,7 @@ void ggggc_collect0(unsigned char gen)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     struct GGGGC_PoolList *plCur;
-    GGGGC_FinalizerEntry readyFinalizers = NULL;
+    struct GGGGC_FinalizerEntry *readyFinalizers = NULL, *finalizerCur;
 #endif
 
     /* gen is used to indicate "we already stopped the world" */
@@ -612,21 +575,21 @@ void ggggc_collect0(unsigned char gen)
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
         struct GGGGC_Pool *pool;
         for (pool = plCur->pool; pool; pool = pool->next) {
-            GGGGC_FinalizerEntry survivingFinalizers = NULL, finalizer,
-                nextFinalizer;
-            finalizer = (GGGGC_FinalizerEntry) pool->finalizers;
+            struct GGGGC_FinalizerEntry *survivingFinalizers = NULL, *finalizer,
+                *nextFinalizer;
+            finalizer = (struct GGGGC_FinalizerEntry *) pool->finalizers;
             for (; finalizer; finalizer = nextFinalizer) {
                 struct GGGGC_Header *obj =
-                    (struct GGGGC_Header *) finalizer->obj__ptr;
-                nextFinalizer = finalizer->next__ptr;
+                    (struct GGGGC_Header *) finalizer->obj;
+                nextFinalizer = finalizer->next;
                 if (((ggc_size_t) (void *) obj->descriptor__ptr) & 1) {
                     /* It's marked. This object survives. */
-                    finalizer->next__ptr = survivingFinalizers;
+                    finalizer->next = survivingFinalizers;
                     survivingFinalizers = finalizer;
 
                 } else {
                     /* Unmarked. Finalize this. */
-                    finalizer->next__ptr = readyFinalizers;
+                    finalizer->next = readyFinalizers;
                     readyFinalizers = finalizer;
 
                 }
@@ -635,16 +598,9 @@ void ggggc_collect0(unsigned char gen)
         }
     }
 
-    /* now mark all finalizers, so they aren't swept before being finalized */
-    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-        struct GGGGC_Pool *pool;
-        for (pool = plCur->pool; pool; pool = pool->next) {
-            if (pool->finalizers)
-                mark(pool->finalizers);
-        }
-    }
-    if (readyFinalizers)
-        mark(&readyFinalizers->header);
+    /* now mark the objects to finalize, so they aren't swept before that */
+    for (finalizerCur = readyFinalizers; finalizerCur; finalizerCur = finalizerCur->next)
+        mark((struct GGGGC_Header *) finalizerCur->obj);
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
     /* indicate that we're now ready to sweep */
diff --git a/ggggc-internals.h b/ggggc-internals.h
index 9c6fee2..e3bf436 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -159,18 +159,15 @@ struct ToSearch {
 } while(0)
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* the shape for finalizer entries */
-GGC_TYPE(GGGGC_FinalizerEntry)
-    GGC_MPTR(GGGGC_FinalizerEntry, next);
-    GGC_MPTR(void *, obj);
-    GGC_MDATA(ggc_finalizer_t, finalizer);
-GGC_END_TYPE(GGGGC_FinalizerEntry,
-    GGC_PTR(GGGGC_FinalizerEntry, next)
-    GGC_PTR(GGGGC_FinalizerEntry, obj)
-    )
-
-/* and function for running finalizers */
-void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers);
+/* the shape for finalizer entries, which are not GC'd themselves */
+struct GGGGC_FinalizerEntry {
+    struct GGGGC_FinalizerEntry *next;
+    void *obj;
+    ggc_finalizer_t finalizer;
+};
+
+/* and function for running finalizers (which frees them) */
+void ggggc_runFinalizers(struct GGGGC_FinalizerEntry *finalizers);
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef __cplusplus
-- 
2.43.0


From c9b5778e57d98b3bb4fae4490d42ddf0c1fd5ab1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 19/44] fix: shared descriptors are process-wide roots,
 allocated without a lock

A descriptor slot was a root of the thread which first used it only, and
stopped being one with that thread. Allocating (and so possibly collecting)
with the slot's lock held deadlocks with threads waiting for the lock and with
finalizers that use the same slot.
---
 allocator.c       | 84 ++++++++++++++++++++++++++++-------------------
 ggggc-internals.h |  3 --
 globals.c         |  1 -
 3 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/allocator.c b/allocator.c
index eaddfbe..7e353f5 100644
--- a/allocator.c
+++ b/allocator.c
@@ -212,6 +212,50 @@ void *ggggc_mallocDataArray(ggc_size_t nmemb, ggc_size_t size)
     return ret;
 }
 
+/* share a descriptor by putting it in a global location, which is a root from
+ * then on, no matter which threads come and go. If another thread was faster,
+ * its descriptor is used instead. */
+static struct GGGGC_Descriptor *shareDescriptor(struct GGGGC_Descriptor **location,
+                                                struct GGGGC_Descriptor *descriptor)
+{
+    struct GGGGC_PointerStackList *node;
+    struct GGGGC_PointerStack *root;
+
+    node = (struct GGGGC_PointerStackList *) malloc(sizeof(struct GGGGC_PointerStackList));
+    root = (struct GGGGC_PointerStack *) malloc(sizeof(struct GGGGC_PointerStack));
+    if (!node || !root) {
+        perror("malloc");
+        abort();
+    }
+    root->next = NULL;
+    root->size = 1;
+    root->pointers[0] = (void *) location;
+    node->pointerStack = root;
+
+    /* this may have to wait for a collection */
+    {
+        GGC_PUSH_1(descriptor);
+        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+            GGC_YIELD();
+        GGC_POP();
+    }
+
+    if (!*location) {
+        *location = descriptor;
+        node->next = ggggc_blockedThreadPointerStacks;
+        ggggc_blockedThreadPointerStacks = node;
+        node = NULL;
+    }
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+
+    if (node) {
+        free(root);
+        free(node);
+    }
+
+    return *location;
+}
+
 /* allocate a descriptor-descriptor for a descriptor of the given size */
 struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
 {
@@ -233,14 +277,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     if (ddSize != size)
         ddd = ggggc_allocateDescriptorDescriptor(ddSize);
 
-    /* otherwise, need to allocate one. First lock the space */
-    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
-    if (ggggc_descriptorDescriptors[size]) {
-        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
-        return ggggc_descriptorDescriptors[size];
-    }
-
-    /* allocate the descriptor descriptor */
+    /* allocate the descriptor descriptor (no locks may be held, as this may
+     * collect) */
     ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&ddd, ddSize);
 
     /* make it correct */
@@ -258,15 +296,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
 #endif
 
     /* put it in the list */
-    ggggc_descriptorDescriptors[size] = ret;
-    ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
-    {
-        GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
-        GGC_GLOBALIZE();
-        GGC_POP();
-    }
-
-    return ret;
+    return shareDescriptor(&ggggc_descriptorDescriptors[size], ret);
 }
 
 /* allocate a descriptor for an object of the given size in words with the
@@ -443,23 +473,11 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
     if (slot->descriptor) return slot->descriptor;
-    ggc_mutex_lock_raw(&slot->lock);
-    if (slot->descriptor) {
-        ggc_mutex_unlock(&slot->lock);
-        return slot->descriptor;
-    }
-
-    slot->descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
-    ggc_mutex_unlock(&slot->lock);
-
-    /* make the slot descriptor a root */
-    {
-        GGC_PUSH_1(slot->descriptor);
-        GGC_GLOBALIZE();
-        GGC_POP();
-    }
 
-    return slot->descriptor;
+    /* allocate it (no locks may be held, as this may collect) and make it a
+     * root */
+    return shareDescriptor(&slot->descriptor,
+        ggggc_allocateDescriptor(slot->size, slot->pointers));
 }
 
 /* and a combined malloc/allocslot */
diff --git a/ggggc-internals.h b/ggggc-internals.h
index e3bf436..beefddd 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -110,9 +110,6 @@ extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 #define GGGGC_DESCRIPTOR_DESCRIPTORS (GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor))
 extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_DESCRIPTORS];
 
-/* and a lock for the descriptor descriptors */
-extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
-
 /* list of pointers to search and associated macros */
 #define TOSEARCH_SZ 1024
 struct ToSearch {
diff --git a/globals.c b/globals.c
index b8ac9b1..b0ad0ef 100644
--- a/globals.c
+++ b/globals.c
@@ -25,4 +25,3 @@ ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_DESCRIPTORS];
-ggc_mutex_t ggggc_descriptorDescriptorsLock;
-- 
2.43.0


From f05034e48f5badaa1291fce9cd74cc8e6e258095 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 20/44] fix: ggc_sem_wait exists with POSIX threads

---
 threads/posix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threads/posix.c b/threads/posix.c
index 34f6449..8c8ff19 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -40,6 +40,11 @@ BLOCKING(
     pthread_mutex_lock(mutex)
 )
 
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    sem_wait(sem) ? errno : 0
+)
+
 int ggc_thread_create(
         ggc_thread_t *thread,
         void (*func)(GGC_ThreadArg),
-- 
2.43.0


From 79d4ef5e76a9d31e3721d900b0b7351bb678e626 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 21/44] fix: failing to create a thread does not leave it in
 the barrier

---
 threads/posix.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index 8c8ff19..49e88f4 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -51,6 +51,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -68,8 +69,17 @@ int ggc_thread_create(
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+    err = pthread_create(thread, NULL, ggggcThreadWrapper, ti);
+    if (err) {
+        /* nobody will ever join the barrier for it */
+        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+            GGC_YIELD();
+        ggc_barrier_destroy(&ggggc_worldBarrier);
+        ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+        ggc_mutex_unlock(&ggggc_worldBarrierLock);
+        errno = err;
         return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From ec2ddc140811548472c98dea09488910d609afbd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 22/44] fix: JIT pointer stacks of blocked threads are roots

---
 threads.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/threads.c b/threads.c
index 4065b26..31bd6d0 100644
--- a/threads.c
+++ b/threads.c
@@ -60,6 +60,9 @@ static void *ggggcThreadWrapper(void *arg)
 
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackListNode;
+#endif
 
 /* call this before blocking */
 void ggc_pre_blocking()
@@ -80,6 +83,12 @@ void ggc_pre_blocking()
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
     blockedPointerStackListNode.next = ggggc_blockedThreadPointerStacks;
     ggggc_blockedThreadPointerStacks = &blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    blockedJITPointerStackListNode.cur = ggc_jitPointerStack;
+    blockedJITPointerStackListNode.top = ggc_jitPointerStackEnd;
+    blockedJITPointerStackListNode.next = ggggc_blockedThreadJITPointerStacks;
+    ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -89,6 +98,9 @@ void ggc_post_blocking()
 {
     struct GGGGC_PoolList *plCur;
     struct GGGGC_PointerStackList *pslCur;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList **jpslCur;
+#endif
 
     /* get a lock on the thread count etc */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
@@ -125,6 +137,14 @@ void ggc_post_blocking()
         }
 
     }
+#ifdef GGGGC_FEATURE_JITPSTACK
+    for (jpslCur = &ggggc_blockedThreadJITPointerStacks; *jpslCur; jpslCur = &(*jpslCur)->next) {
+        if (*jpslCur == &blockedJITPointerStackListNode) {
+            *jpslCur = blockedJITPointerStackListNode.next;
+            break;
+        }
+    }
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
-- 
2.43.0


From 9da05c91b79a82d0179bf8f69d27ab7f948d7f24 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 23/44] fix: malloc allocator unlocks when it fails

---
 allocator/malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allocator/malloc.c b/allocator/malloc.c
index 1aab88b..26936a7 100644
--- a/allocator/malloc.c
+++ b/allocator/malloc.c
@@ -37,6 +37,7 @@ static void *allocPool(int mustSucceed)
                 perror("malloc");
                 abort();
             }
+            ggc_mutex_unlock(&poolLock);
             return NULL;
         }
         spaceEnd = space + GGGGC_POOL_BYTES * i;
-- 
2.43.0


From 98b07ddc50705c28ccf5d8c2f4dd8a7a4426fde5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 24/44] fix: mmap allocator recognizes failure

---
 allocator/mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator/mmap.c b/allocator/mmap.c
index d78474e..7fe376c 100644
--- a/allocator/mmap.c
+++ b/allocator/mmap.c
@@ -23,7 +23,7 @@ static void *allocPool(int mustSucceed)
 
     /* allocate enough space that we can align it later */
     space = (unsigned char *) mmap(NULL, GGGGC_POOL_BYTES*2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
-    if (space == NULL) {
+    if (space == (unsigned char *) MAP_FAILED) {
         if (mustSucceed) {
             perror("mmap");
             abort();
-- 
2.43.0


From a90b8650d04cccd6163fd7a87c375e0f8adc318f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 25/44] fix: GGC_LENGTH gets the length of an array

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index ae37fc4..c9383de 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -353,7 +353,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGC_RAP(object, index)  GGGGC_RP(object, a__ptrs[(index)])
 #define GGC_RAD(object, index)  GGGGC_RD(object, a__data[(index)])
 #define GGC_RUP(object)         ((object)->header.descriptor__ptr->user__ptr)
-#define GGC_LENGTH(object)      ((object)->header.descriptor__ptr->length)
+#define GGC_LENGTH(object)      ((object)->length)
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
-- 
2.43.0


From b389302151c03a3c7d4b126ea9c9825d335272cf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 26/44] fix: running out of memory for the search list is
 recognized

---
 ggggc-internals.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index beefddd..7246d6a 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -133,6 +133,10 @@ struct ToSearch {
 #define TOSEARCH_NEXT() do { \
     if (!toSearch->next) { \
         struct ToSearch *tsn = (struct ToSearch *) malloc(sizeof(struct ToSearch)); \
+        if (tsn == NULL) { \
+            perror("malloc"); \
+            abort(); \
+        } \
         toSearch->next = tsn; \
         tsn->prev = toSearch; \
         tsn->next = NULL; \
-- 
2.43.0


From a17647f79be9a40ccdf851755bb0c40cbebfe1a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 27/44] fix: pools of finished and blocked threads stay part of
 the heap

The pools of a finished thread were handed out again while other threads still
used objects in them. They are now kept until they're empty or taken over by
another thread. In portablems, pools of blocked threads were never swept, so
their objects stayed marked and hid what they refer to from later collections.
---
 allocator.c            |  44 ++++++++++++++++-
 collector/gembc.c      |  34 +++++++++++--
 collector/portablems.c | 107 +++++++++++++++++++++++++++++++++--------
 ggggc-internals.h      |  14 +++++-
 threads.c              |   9 ++--
 5 files changed, 178 insertions(+), 30 deletions(-)

diff --git a/allocator.c b/allocator.c
index 7e353f5..398e2a5 100644
--- a/allocator.c
+++ b/allocator.c
@@ -172,7 +172,49 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
     }
 }
 
-/* free a generation (used when a thread exits) */
+/* Pools left behind by threads which exited. Other threads may still use objects
+ * in these pools, so they're part of the heap until they're empty or some other
+ * thread takes them over. */
+static ggc_mutex_t orphanPoolsLock = GGC_MUTEX_INITIALIZER;
+struct GGGGC_PoolList ggggc_orphanPools;
+
+/* leave behind a generation (used when a thread exits, with
+ * ggggc_worldBarrierLock held) */
+void ggggc_orphanGeneration(struct GGGGC_Pool *pool)
+{
+    static int listed = 0;
+    struct GGGGC_Pool *last;
+
+    if (!listed) {
+        listed = 1;
+        ggggc_orphanPools.next = ggggc_blockedThreadPool0s;
+        ggggc_blockedThreadPool0s = &ggggc_orphanPools;
+    }
+
+    if (!pool) return;
+    for (last = pool; last->next; last = last->next) ;
+    ggc_mutex_lock_raw(&orphanPoolsLock);
+    last->next = ggggc_orphanPools.pool;
+    ggggc_orphanPools.pool = pool;
+    ggc_mutex_unlock(&orphanPoolsLock);
+}
+
+/* take over a pool left behind by a thread that exited, if there is one */
+struct GGGGC_Pool *ggggc_adoptPool()
+{
+    struct GGGGC_Pool *ret;
+    if (!ggggc_orphanPools.pool) return NULL;
+    ggc_mutex_lock_raw(&orphanPoolsLock);
+    ret = ggggc_orphanPools.pool;
+    if (ret) {
+        ggggc_orphanPools.pool = ret->next;
+        ret->next = NULL;
+    }
+    ggc_mutex_unlock(&orphanPoolsLock);
+    return ret;
+}
+
+/* free a list of unused pools */
 void ggggc_freeGeneration(struct GGGGC_Pool *pool)
 {
     if (!pool) return;
diff --git a/collector/gembc.c b/collector/gembc.c
index e920d28..8731fb9 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -34,7 +34,12 @@ extern "C" {
 /* create a GC pool */
 struct GGGGC_Pool *ggggc_newPoolGen(unsigned char gen, int mustSucceed)
 {
-    struct GGGGC_Pool *ret = ggggc_newPool(mustSucceed);
+    struct GGGGC_Pool *ret;
+
+    /* perhaps a thread left one behind */
+    if (gen == 0 && (ret = ggggc_adoptPool())) return ret;
+
+    ret = ggggc_newPool(mustSucceed);
     if (!ret) return ret;
 
 #if GGGGC_GENERATIONS > 1
@@ -52,6 +57,12 @@ struct GGGGC_Pool *ggggc_newPoolGen(unsigned char gen, int mustSucceed)
     return ret;
 }
 
+/* there may have been a collection while this thread was blocked */
+void ggggc_resumePools()
+{
+    ggggc_pool0 = ggggc_gen0;
+}
+
 /* create a GC pool based on a prototype */
 static struct GGGGC_Pool *newPoolGenProto(struct GGGGC_Pool *proto) {
 #if GGGGC_GENERATIONS > 1
@@ -438,7 +449,7 @@ static void report(unsigned char gen, const char *when)
 void ggggc_collect0(unsigned char gen)
 {
     struct GGGGC_PoolList pool0Node, *plCur;
-    struct GGGGC_Pool *poolCur;
+    struct GGGGC_Pool *poolCur, **poolNext;
     struct GGGGC_PointerStackList pointerStackNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
     struct ToSearch *toSearch;
@@ -692,8 +703,10 @@ postCollect:
 #endif
 
     /* heuristically expand too-small generations */
-    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next)
-        ggggc_expandPoolList(plCur->pool, newPoolGenProto, 1);
+    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+        if (plCur != &ggggc_orphanPools)
+            ggggc_expandPoolList(plCur->pool, newPoolGenProto, 1);
+    }
     for (genCur = 1; genCur <= gen; genCur++)
         ggggc_expandPoolList(ggggc_gens[genCur], newPoolGenProto, 1);
 
@@ -739,6 +752,19 @@ postCollect:
     memoryCorruptionCheck("post-collection");
 #endif
 
+    /* free the pools that nobody needs anymore */
+    poolNext = &ggggc_orphanPools.pool;
+    while ((poolCur = *poolNext)) {
+        if (poolCur->free == poolCur->start) {
+            *poolNext = poolCur->next;
+            poolCur->next = NULL;
+            ggggc_freeGeneration(poolCur);
+        } else {
+            poolCur->survivors = 0;
+            poolNext = &poolCur->next;
+        }
+    }
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
diff --git a/collector/portablems.c b/collector/portablems.c
index f28f2cf..df7265a 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -32,12 +32,57 @@ struct FreeListNode {
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
 
+/* number of collections so far (protected by ggggc_worldBarrierLock), and at
+ * the time of this thread's last sweep */
+static ggc_size_t collectionCt = 0;
+static ggc_thread_local ggc_size_t sweptCt = 0;
+
+/* add all the free space in a pool to the free list */
+static void linkFree(struct GGGGC_Pool *pool)
+{
+    union {
+        ggc_size_t *w;
+        struct GGGGC_Header *obj;
+        struct FreeListNode *fl;
+    } cur;
+
+    cur.w = pool->start;
+    while (cur.w < pool->end) {
+        if (cur.fl->zero) {
+            cur.w += cur.obj->descriptor__ptr->size;
+        } else {
+            cur.fl->next = freeList;
+            freeList = cur.fl;
+            cur.w += cur.fl->size;
+        }
+    }
+}
+
+/* if there was a collection while this thread was blocked, its pools were swept
+ * for it */
+void ggggc_resumePools()
+{
+    struct GGGGC_Pool *pool;
+    if (sweptCt == collectionCt) return;
+    sweptCt = collectionCt;
+    freeList = NULL;
+    for (pool = ggggc_gen0; pool; pool = pool->next)
+        linkFree(pool);
+}
+
 /* create a pool and add it to the free list */
 static struct GGGGC_Pool *ggggc_newPoolFree(int mustSucceed)
 {
     struct GGGGC_Pool *pool;
     struct FreeListNode *node;
 
+    /* perhaps a thread left one behind */
+    pool = ggggc_adoptPool();
+    if (pool) {
+        linkFree(pool);
+        return pool;
+    }
+
     /* allocate the pool */
     pool = ggggc_newPool(mustSucceed);
     if (!pool) return NULL;
@@ -104,17 +149,15 @@ retry:
             goto retry;
         }
 
-        /* Not enough space even after collection, so just make more. FIXME:
-         * What if it's too big for a pool? */
-        if (retried < 2) {
-            struct GGGGC_Pool *pool;
-            retried = 2;
-            pool = ggggc_newPoolFree(0);
+        /* Not enough space even after collection, so just make more (unless
+         * it's too big for a pool) */
+        if ((ggc_size_t) (ggggc_gen0->end - ggggc_gen0->start) >= size) {
+            struct GGGGC_Pool *pool = ggggc_newPoolFree(0);
             if (pool) {
                 pool->next = ggggc_gen0;
                 ggggc_gen0 = pool;
+                goto retry;
             }
-            goto retry;
         }
 
         /* Just not enough space! */
@@ -188,10 +231,21 @@ static void stopTheWorld(
 }
 
 /* generalized restart-the-world */
-static void restartTheWorld()
+static void restartTheWorld(struct FreeListNode *fln)
 {
+    struct FreeListNode *next;
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+
+    /* now that all sweeping is done, finish the free space in others' pools */
+    for (; fln; fln = next) {
+        next = fln->next;
+        fln->next = NULL;
+        fln->size = fln->zero;
+        fln->zero = 0;
+    }
+
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
 
@@ -397,13 +451,10 @@ static void mark(struct GGGGC_Header *obj)
 /* used by both sweep and clearFreeList */
 static ggc_thread_local ggc_size_t survivors, total;
 
-/* sweep this heap */
-static void sweep(struct GGGGC_Pool *pool)
+/* sweep a list of pools, producing its free space followed by rest */
+static struct FreeListNode *sweepPools(struct GGGGC_Pool *pool, struct FreeListNode *rest)
 {
-    struct FreeListNode *lastFree = NULL;
-
-    survivors = total = 0;
-    freeList = NULL;
+    struct FreeListNode *firstFree = rest, *lastFree = NULL;
 
     for (; pool; pool = pool->next) {
         union {
@@ -461,7 +512,7 @@ static void sweep(struct GGGGC_Pool *pool)
                     lastFree = cur.fl;
                 }
             } else {
-                freeList = lastFree = cur.fl;
+                firstFree = lastFree = cur.fl;
             }
 
             /* and continue */
@@ -474,7 +525,16 @@ static void sweep(struct GGGGC_Pool *pool)
     }
 
     if (lastFree)
-        lastFree->next = NULL;
+        lastFree->next = rest;
+    return firstFree;
+}
+
+/* sweep this thread's heap */
+static void sweep()
+{
+    survivors = total = 0;
+    sweptCt = collectionCt;
+    freeList = sweepPools(ggggc_gen0, NULL);
 }
 
 /* clear the free list after sweeping */
@@ -505,7 +565,8 @@ void clearFreeList()
 /* run garbage collection */
 void ggggc_collect0(unsigned char gen)
 {
-    struct GGGGC_PoolList pool0Node;
+    struct GGGGC_PoolList pool0Node, *plCur;
+    struct FreeListNode *blockedFree = NULL;
     struct GGGGC_PointerStackList pointerStackNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
     ggc_size_t i;
@@ -514,7 +575,6 @@ void ggggc_collect0(unsigned char gen)
     void **jpsCur;
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
-    struct GGGGC_PoolList *plCur;
     struct GGGGC_FinalizerEntry *readyFinalizers = NULL, *finalizerCur;
 #endif
 
@@ -604,10 +664,15 @@ void ggggc_collect0(unsigned char gen)
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
     /* indicate that we're now ready to sweep */
+    collectionCt++;
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
+    /* sweep for those who can't */
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next)
+        blockedFree = sweepPools(plCur->pool, blockedFree);
+
     /* sweep our own heap */
-    sweep(ggggc_gen0);
+    sweep();
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
     {
@@ -618,7 +683,7 @@ void ggggc_collect0(unsigned char gen)
     memoryCorruptionCheck("post-collection");
 #endif
 
-    restartTheWorld();
+    restartTheWorld(blockedFree);
 
     /* clear our freelist */
     clearFreeList();
@@ -674,7 +739,7 @@ int ggggc_yield()
         ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
         /* local sweep */
-        sweep(ggggc_gen0);
+        sweep();
 
         /* and continue */
         ggc_barrier_wait_raw(&ggggc_worldBarrier);
diff --git a/ggggc-internals.h b/ggggc-internals.h
index 7246d6a..d8c2597 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -43,9 +43,20 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
                           struct GGGGC_Pool *(*newPool)(struct GGGGC_Pool *),
                           int ratio);
 
-/* free a generation (used when a thread exits) */
+/* free a list of unused pools */
 void ggggc_freeGeneration(struct GGGGC_Pool *proto);
 
+/* leave behind a generation (used when a thread exits, with
+ * ggggc_worldBarrierLock held) */
+void ggggc_orphanGeneration(struct GGGGC_Pool *proto);
+
+/* take over a pool left behind by a thread that exited, if there is one */
+struct GGGGC_Pool *ggggc_adoptPool(void);
+
+/* get the pools of this thread ready after blocking (with
+ * ggggc_worldBarrierLock held) */
+void ggggc_resumePools(void);
+
 /* run a collection */
 void ggggc_collect0(unsigned char gen);
 
@@ -73,6 +84,7 @@ struct GGGGC_PoolList {
     struct GGGGC_Pool *pool;
 };
 extern struct GGGGC_PoolList *ggggc_rootPool0List;
+extern struct GGGGC_PoolList ggggc_orphanPools;
 struct GGGGC_PointerStackList {
     struct GGGGC_PointerStackList *next;
     struct GGGGC_PointerStack *pointerStack;
diff --git a/threads.c b/threads.c
index 31bd6d0..606686b 100644
--- a/threads.c
+++ b/threads.c
@@ -50,10 +50,10 @@ static void *ggggcThreadWrapper(void *arg)
         GGC_YIELD();
     ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* and give back its pools */
-    ggggc_freeGeneration(ggggc_gen0);
+    /* and leave its pools to the others */
+    ggggc_orphanGeneration(ggggc_gen0);
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     return 0;
 }
@@ -146,6 +146,9 @@ void ggc_post_blocking()
     }
 #endif
 
+    /* there may have been a collection in the meantime */
+    ggggc_resumePools();
+
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
 
-- 
2.43.0


From a49c36b13fd11093a0336a07e8ca9df9ef83cd85 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 28/44] fix: memory corruption checks work with portablems

Free list nodes overlapped the check value and the size of a freed descriptor,
free space was cleared by the wrong size while other threads were still
sweeping, and tagged values were followed.
---
 collector/portablems.c | 28 ++++++++++++++++++----------
 ggggc/gc-portablems.h  |  9 +++++++--
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index df7265a..33130e0 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -25,9 +25,14 @@
 
 #include "ggggc-internals.h"
 
-/* Free list. Free list elements are stored as [0, size in words, next]. */
+/* Free list. Free list elements are stored as [0, size in words, next], with
+ * the size in the same location as a descriptor's size. */
 struct FreeListNode {
-    ggc_size_t zero, size;
+    ggc_size_t zero;
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    ggc_size_t check;
+#endif
+    ggc_size_t size;
     struct FreeListNode *next;
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
@@ -292,7 +297,8 @@ static void memoryCorruptionCheckObj(const char *when, struct GGGGC_Header *obj)
             {
                 /* it's a pointer */
                 struct GGGGC_Header *nobj = (struct GGGGC_Header *) objVp[curWord];
-                if (nobj && nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
+                if (nobj && !IS_TAGGED(nobj) &&
+                    nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
                     fprintf(stderr, "GGGGC: Memory corruption (%s nested)!\n", when);
                     abort();
                 }
@@ -356,7 +362,7 @@ static void memoryCorruptionCheck(const char *when)
             ggc_size_t i;
             for (i = 0; i < psCur->size; i++) {
                 struct GGGGC_Header *obj = *((struct GGGGC_Header **) psCur->pointers[i]);
-                if (obj)
+                if (obj && !IS_TAGGED(obj))
                     memoryCorruptionCheckObj(when, obj);
             }
         }
@@ -674,20 +680,22 @@ void ggggc_collect0(unsigned char gen)
     /* sweep our own heap */
     sweep();
 
+    restartTheWorld(blockedFree);
+
+    /* clear our freelist */
+    clearFreeList();
+
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
     {
+        struct GGGGC_Pool *pool;
         struct FreeListNode *f;
         for (f = freeList; f; f = f->next)
             memset(f + 1, 0, f->size * sizeof(ggc_size_t) - sizeof(struct FreeListNode));
+        for (pool = ggggc_gen0; pool; pool = pool->next)
+            memoryCorruptionCheckPool("post-collection", pool);
     }
-    memoryCorruptionCheck("post-collection");
 #endif
 
-    restartTheWorld(blockedFree);
-
-    /* clear our freelist */
-    clearFreeList();
-
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* run any finalizers */
     if (readyFinalizers)
diff --git a/ggggc/gc-portablems.h b/ggggc/gc-portablems.h
index d7bf443..85fefe9 100644
--- a/ggggc/gc-portablems.h
+++ b/ggggc/gc-portablems.h
@@ -23,10 +23,15 @@
 
 #define GGGGC_USE_PORTABLE_ALLOCATOR 1
 
-/* our freelist entries are three words, to make them easily distinguishable
- * from objects (the first word is zero) */
+/* our freelist entries are three words (or four with a memory corruption
+ * check), to make them easily distinguishable from objects (the first word is
+ * zero) */
 #undef GGGGC_MINIMUM_OBJECT_SIZE
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+#define GGGGC_MINIMUM_OBJECT_SIZE 4
+#else
 #define GGGGC_MINIMUM_OBJECT_SIZE 3
+#endif
 
 /* portablems does not have generations */
 #undef GGGGC_GENERATIONS
-- 
2.43.0


From e25ad281fc7c923e076947a2f0c59b9a32a70875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 29/44] fix: assigning a member from the same member of another
 object is a write

In C++, a->m = b->m picked the implicit copy assignment of the member's
type, which bypasses the write barrier.
---
 ggggc/gc.h | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index c9383de..416b68b 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -293,25 +293,31 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
             } name; \
         }
 #define GGC_MPTR(type, name) \
+        struct name ## __ggggc_member { \
+            inline operator type () { \
+                ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
+                    (char *) (void *) this - \
+                    (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
+                ); \
+                return GGC_RP(that, name); \
+            } \
+            inline void operator=(type &x) { \
+                ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
+                    (char *) (void *) this - \
+                    (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
+                ); \
+                GGC_WP(that, name, x); \
+            } \
+            /* assigning from the same member of another object is a write too */ \
+            inline void operator=(const struct name ## __ggggc_member &x) { \
+                type y = x.data; \
+                *this = y; \
+            } \
+            type data; \
+        }; \
         union { \
             type name ## __ptr; \
-            struct { \
-                inline operator type () { \
-                    ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
-                        (char *) (void *) this - \
-                        (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
-                    ); \
-                    return GGC_RP(that, name); \
-                } \
-                inline void operator=(type &x) { \
-                    ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
-                        (char *) (void *) this - \
-                        (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
-                    ); \
-                    GGC_WP(that, name, x); \
-                } \
-                type data; \
-            } name; \
+            struct name ## __ggggc_member name; \
         }
 
 #else
-- 
2.43.0


From 08b6069287b16c03b4f03454ae716f56a3d066b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 30/44] fix: the portable collector builds with
 GGGGC_USE_MALLOC and GGGGC_USE_SBRK

Its pools are not aligned and have no GGGGC_POOL_INNER_MASK, so only the
portable allocator fits it.
---
 allocator.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/allocator.c b/allocator.c
index 398e2a5..7f1894c 100644
--- a/allocator.c
+++ b/allocator.c
@@ -53,7 +53,11 @@ extern "C" {
 #endif
 
 /* figure out which allocator to use */
-#if defined(GGGGC_USE_MALLOC)
+#if defined(GGGGC_USE_PORTABLE_ALLOCATOR)
+#define GGGGC_ALLOCATOR_PORTABLE 1
+#include "allocator/portable.c"
+
+#elif defined(GGGGC_USE_MALLOC)
 #define GGGGC_ALLOCATOR_MALLOC 1
 #include "allocator/malloc.c"
 
@@ -61,10 +65,6 @@ extern "C" {
 #define GGGGC_ALLOCATOR_SBRK 1
 #include "allocator/sbrk.c"
 
-#elif defined(GGGGC_USE_PORTABLE_ALLOCATOR)
-#define GGGGC_ALLOCATOR_PORTABLE 1
-#include "allocator/portable.c"
-
 #elif _POSIX_ADVISORY_INFO >= 200112L
 #define GGGGC_ALLOCATOR_POSIX_MEMALIGN 1
 #include "allocator/malign.c"
-- 
2.43.0


From ed7c4c31586db113102262b6ebcda0d59e1817f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 31/44] fix: the portable barrier compiles with POSIX mutexes

---
 gen-barriers.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index c0363a2..985e675 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -23,7 +23,10 @@ int ggc_barrier_destroy(ggc_barrier_t *barrier)
 
 int ggc_barrier_init(ggc_barrier_t *barrier, unsigned long ct)
 {
-    barrier->lock = GGC_MUTEX_INITIALIZER;
+    /* an initializer, so it can't be assigned as such */
+    static const ggc_mutex_t lock = GGC_MUTEX_INITIALIZER;
+
+    barrier->lock = lock;
     barrier->cur = 0;
     barrier->ct = ct;
     ggc_sem_init(&barrier->waiters, 0);
-- 
2.43.0


From 6db9d7ac3afe465de0020445d1556049dc4fc756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 32/44] fix: a thread that cannot be created is never waited
 for

Another thread could start a collection between the barrier being made larger and
being made smaller again, and then waited for ever. The thread is now created with
the barrier locked, and only counted if that worked.
---
 threads/posix.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/threads/posix.c b/threads/posix.c
index 49e88f4..5def973 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -60,23 +60,19 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* spawn the pthread, and update our thread barrier only if there is one, as
+     * nobody else would ever join the barrier for it */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    err = pthread_create(thread, NULL, ggggcThreadWrapper, ti);
+    if (!err) {
+        if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
+        else ggc_barrier_destroy(&ggggc_worldBarrier);
+        ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    }
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* spawn the pthread */
-    err = pthread_create(thread, NULL, ggggcThreadWrapper, ti);
     if (err) {
-        /* nobody will ever join the barrier for it */
-        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-            GGC_YIELD();
-        ggc_barrier_destroy(&ggggc_worldBarrier);
-        ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
-        ggc_mutex_unlock(&ggggc_worldBarrierLock);
         errno = err;
         return -1;
     }
-- 
2.43.0


From bd1d2bee959a70a0b310bff056955dcff0f17279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 33/44] fix: the portable barrier can be destroyed once a wait
 in it has returned

The leader of a round still had to reset and unlock the barrier when another
participant was already back from its wait and replaced the barrier, as the world
barrier is on every thread's start, end and blocking.
---
 gen-barriers.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen-barriers.c b/gen-barriers.c
index 985e675..e451af1 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -18,6 +18,9 @@
 
 int ggc_barrier_destroy(ggc_barrier_t *barrier)
 {
+    /* the leader of the last round may still be on its way out */
+    ggc_mutex_lock_raw(&barrier->lock);
+    ggc_mutex_unlock(&barrier->lock);
     return ggc_sem_destroy(&barrier->waiters);
 }
 
-- 
2.43.0


From c64dfce364dbdb1af83a00b23fc731d50bb77128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 34/44] fix: pools are taken over only once they are completely
 swept

With the portable collector, a thread that was let go could take over a pool left
behind by a thread that exited while the collecting thread still finished that pool's
free space.
---
 allocator.c            | 10 +++++-----
 collector/portablems.c |  5 ++++-
 ggggc-internals.h      |  1 +
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/allocator.c b/allocator.c
index 7f1894c..662dc5a 100644
--- a/allocator.c
+++ b/allocator.c
@@ -175,7 +175,7 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
 /* Pools left behind by threads which exited. Other threads may still use objects
  * in these pools, so they're part of the heap until they're empty or some other
  * thread takes them over. */
-static ggc_mutex_t orphanPoolsLock = GGC_MUTEX_INITIALIZER;
+ggc_mutex_t ggggc_orphanPoolsLock = GGC_MUTEX_INITIALIZER;
 struct GGGGC_PoolList ggggc_orphanPools;
 
 /* leave behind a generation (used when a thread exits, with
@@ -193,10 +193,10 @@ void ggggc_orphanGeneration(struct GGGGC_Pool *pool)
 
     if (!pool) return;
     for (last = pool; last->next; last = last->next) ;
-    ggc_mutex_lock_raw(&orphanPoolsLock);
+    ggc_mutex_lock_raw(&ggggc_orphanPoolsLock);
     last->next = ggggc_orphanPools.pool;
     ggggc_orphanPools.pool = pool;
-    ggc_mutex_unlock(&orphanPoolsLock);
+    ggc_mutex_unlock(&ggggc_orphanPoolsLock);
 }
 
 /* take over a pool left behind by a thread that exited, if there is one */
@@ -204,13 +204,13 @@ struct GGGGC_Pool *ggggc_adoptPool()
 {
     struct GGGGC_Pool *ret;
     if (!ggggc_orphanPools.pool) return NULL;
-    ggc_mutex_lock_raw(&orphanPoolsLock);
+    ggc_mutex_lock_raw(&ggggc_orphanPoolsLock);
     ret = ggggc_orphanPools.pool;
     if (ret) {
         ggggc_orphanPools.pool = ret->next;
         ret->next = NULL;
     }
-    ggc_mutex_unlock(&orphanPoolsLock);
+    ggc_mutex_unlock(&ggggc_orphanPoolsLock);
     return ret;
 }
 
diff --git a/collector/portablems.c b/collector/portablems.c
index 33130e0..7b6a569 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -240,7 +240,9 @@ static void restartTheWorld(struct FreeListNode *fln)
 {
     struct FreeListNode *next;
 
-    /* free the other threads */
+    /* free the other threads, but keep them from taking over pools until those
+     * are finished */
+    ggc_mutex_lock_raw(&ggggc_orphanPoolsLock);
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
     /* now that all sweeping is done, finish the free space in others' pools */
@@ -250,6 +252,7 @@ static void restartTheWorld(struct FreeListNode *fln)
         fln->size = fln->zero;
         fln->zero = 0;
     }
+    ggc_mutex_unlock(&ggggc_orphanPoolsLock);
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
diff --git a/ggggc-internals.h b/ggggc-internals.h
index d8c2597..390d086 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -85,6 +85,7 @@ struct GGGGC_PoolList {
 };
 extern struct GGGGC_PoolList *ggggc_rootPool0List;
 extern struct GGGGC_PoolList ggggc_orphanPools;
+extern ggc_mutex_t ggggc_orphanPoolsLock;
 struct GGGGC_PointerStackList {
     struct GGGGC_PointerStackList *next;
     struct GGGGC_PointerStack *pointerStack;
-- 
2.43.0


From f703bcbfd81b400545a06ec466c0a291be04311e Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 35/44] fix: refuse requests larger than a pool before
 computing with their size

Array lengths whose size overflowed gave a tiny array with a huge length, and
other oversize requests read beyond the table of shared descriptors.
---
 allocator.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/allocator.c b/allocator.c
index 662dc5a..7178779 100644
--- a/allocator.c
+++ b/allocator.c
@@ -229,6 +229,16 @@ void ggggc_freeGeneration(struct GGGGC_Pool *pool)
     ggc_mutex_unlock(&freePoolsLock);
 }
 
+/* check a size, in words, before computing anything else with it: nothing
+ * larger than a pool can be allocated, nor described */
+static void checkSize(ggc_size_t size)
+{
+    if (size > GGGGC_WORDS_PER_POOL) {
+        fprintf(stderr, "GGGGC: object too large for a pool\n");
+        abort();
+    }
+}
+
 struct GGGGC_Array {
     struct GGGGC_Header header;
     ggc_size_t length;
@@ -237,8 +247,11 @@ struct GGGGC_Array {
 /* allocate a pointer array (size is in words) */
 void *ggggc_mallocPointerArray(ggc_size_t sz)
 {
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+    checkSize(sz);
+    descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = sz;
     return ret;
 }
@@ -246,10 +259,14 @@ void *ggggc_mallocPointerArray(ggc_size_t sz)
 /* allocate a data array */
 void *ggggc_mallocDataArray(ggc_size_t nmemb, ggc_size_t size)
 {
-    ggc_size_t sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorDA(
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+    ggc_size_t sz;
+    if (size && nmemb > GGGGC_POOL_BYTES / size) checkSize((ggc_size_t) -1);
+    sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
+    descriptor = ggggc_allocateDescriptorDA(
         sz + 1 + GGGGC_WORD_SIZEOF(struct GGGGC_Header));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = nmemb;
     return ret;
 }
@@ -350,6 +367,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t po
     ggc_size_t *pointersL;
     ggc_size_t i, words;
 
+    checkSize(size);
+
     pointersA[0] = pointers;
     if (size <= GGGGC_BITS_PER_WORD)
         return ggggc_allocateDescriptorL(size, pointersA);
@@ -372,6 +391,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorL(ggc_size_t size, const ggc_si
     struct GGGGC_Descriptor *dd, *ret;
     ggc_size_t dPWords, dSize;
 
+    checkSize(size);
+
     /* check for minimum size */
     /* FIXME: Theoretically if our minimum size straddled a word length, this
      * would cause us to read past the end of pointers */
@@ -435,6 +456,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorT(ggc_size_t size, const unsign
     struct GGGGC_Descriptor *dd, *ret;
     ggc_size_t dPWords, dSize;
 
+    checkSize(size);
+
     /* check for minimum size */
     /* FIXME: Theoretically if our minimum size straddled a word length, this
      * would cause us to read past the end of pointers */
@@ -475,6 +498,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorPA(ggc_size_t size)
     ggc_size_t dPWords, i;
     struct GGGGC_Descriptor *ret;
 
+    checkSize(size);
+
     /* fill our pointer-words with 1s */
     dPWords = GGGGC_DESCRIPTOR_WORDS_REQ(size);
 #ifdef alloca
-- 
2.43.0


From 2c054a49e8661544948078fa45e8a1c42f5052fd Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 36/44] fix: check for failure of malloc in ggggc_globalize

---
 roots.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/roots.c b/roots.c
index 75b7db0..69a18bf 100644
--- a/roots.c
+++ b/roots.c
@@ -35,6 +35,10 @@ void ggggc_globalize()
     /* make a global copy */
     gPointerStack = (struct GGGGC_PointerStack *)
         malloc(sizeof(struct GGGGC_PointerStack) + ggggc_pointerStack->size * sizeof(void *));
+    if (!gPointerStack) {
+        perror("malloc");
+        abort();
+    }
     gPointerStack->next = NULL;
     gPointerStack->size = ggggc_pointerStack->size;
     memcpy(gPointerStack->pointers, ggggc_pointerStack->pointers, ggggc_pointerStack->size * sizeof(void *));
-- 
2.43.0


From 7c922f3d40aa4972128dc845721c48a27486e05f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 37/44] fix: macOS: a thread that can't be started must not be
 counted

Nobody ever joined the world barrier for it, so that the next collection
waited for ever.
---
 threads/macosx.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/threads/macosx.c b/threads/macosx.c
index d672f93..8962074 100644
--- a/threads/macosx.c
+++ b/threads/macosx.c
@@ -67,6 +67,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -75,17 +76,22 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* spawn the pthread, and update our thread barrier only if there is one, as
+     * nobody else would ever join the barrier for it */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    err = pthread_create(thread, NULL, ggggcThreadWrapper, ti);
+    if (!err) {
+        if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
+        else ggc_barrier_destroy(&ggggc_worldBarrier);
+        ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    }
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+    if (err) {
+        errno = err;
         return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 962cf451ebd2a572c68f167bda07c22feacfc707 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 38/44] fix: macOS: create semaphores with an initial value of
 0

libdispatch ends the program when a semaphore is released with less than its
initial value.
---
 threads/macosx.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/threads/macosx.c b/threads/macosx.c
index 8962074..7d031bd 100644
--- a/threads/macosx.c
+++ b/threads/macosx.c
@@ -41,8 +41,11 @@ int ggc_sem_destroy(ggc_sem_t *sem)
 
 int ggc_sem_init(ggc_sem_t *sem, unsigned int value)
 {
-    *sem = dispatch_semaphore_create(value);
-    return (*sem ? 0 : -1);
+    /* a semaphore may not be released with less than its initial value */
+    *sem = dispatch_semaphore_create(0);
+    if (!*sem) return -1;
+    for (; value; value--) dispatch_semaphore_signal(*sem);
+    return 0;
 }
 
 int ggc_sem_post(ggc_sem_t *sem)
-- 
2.43.0


From 950fb661a7ac2a785d4f4b8cc621ee8ba3ba982e Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 39/44] fix: release everything a generic barrier consists of

Its lock and its leader semaphore were leaked, once per blocking operation in
the case of the world barrier.
---
 gen-barriers.c          | 2 ++
 ggggc/threads-macosx.h  | 1 +
 ggggc/threads-posix.h   | 1 +
 ggggc/threads-windows.h | 1 +
 4 files changed, 5 insertions(+)

diff --git a/gen-barriers.c b/gen-barriers.c
index e451af1..08f64c0 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -21,6 +21,8 @@ int ggc_barrier_destroy(ggc_barrier_t *barrier)
     /* the leader of the last round may still be on its way out */
     ggc_mutex_lock_raw(&barrier->lock);
     ggc_mutex_unlock(&barrier->lock);
+    ggc_mutex_destroy(&barrier->lock);
+    ggc_sem_destroy(&barrier->leader);
     return ggc_sem_destroy(&barrier->waiters);
 }
 
diff --git a/ggggc/threads-macosx.h b/ggggc/threads-macosx.h
index 5d18d95..c1e7e51 100644
--- a/ggggc/threads-macosx.h
+++ b/ggggc/threads-macosx.h
@@ -26,6 +26,7 @@
 #define ggc_mutex_lock_raw              pthread_mutex_lock
 #define ggc_mutex_trylock               pthread_mutex_trylock
 #define ggc_mutex_unlock                pthread_mutex_unlock
+#define ggc_mutex_destroy               pthread_mutex_destroy
 
 /* types */
 #define ggc_mutex_t     pthread_mutex_t
diff --git a/ggggc/threads-posix.h b/ggggc/threads-posix.h
index b2c0e7f..afedf1b 100644
--- a/ggggc/threads-posix.h
+++ b/ggggc/threads-posix.h
@@ -31,6 +31,7 @@
 #define ggc_mutex_lock_raw              pthread_mutex_lock
 #define ggc_mutex_trylock               pthread_mutex_trylock
 #define ggc_mutex_unlock                pthread_mutex_unlock
+#define ggc_mutex_destroy               pthread_mutex_destroy
 #define ggc_sem_destroy                 sem_destroy
 #define ggc_sem_init(x,y)               sem_init(x,0,y)
 #define ggc_sem_post                    sem_post
diff --git a/ggggc/threads-windows.h b/ggggc/threads-windows.h
index 677ab5b..ddc35b9 100644
--- a/ggggc/threads-windows.h
+++ b/ggggc/threads-windows.h
@@ -21,6 +21,7 @@
 
 /* functions */
 #define ggc_mutex_unlock(mutex)         (!ReleaseMutex(*(mutex)))
+#define ggc_mutex_destroy(mutex)        (!CloseHandle(*(mutex)))
 #define ggc_sem_destroy(sem)            (!CloseHandle(*(sem)))
 #define ggc_sem_init(sem,ct)            ((*(sem)=CreateSemaphore(NULL,0,(ct),NULL))?0:-1)
 #define ggc_sem_post(sem)               (!ReleaseSemaphore(*(sem),1,NULL))
-- 
2.43.0


From b7db251cae429db9b3b73022644c90c50b9f354d Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 40/44] fix: Windows: create each mutex only once

Of two threads that used a mutex first at the same time, one replaced the
mutex the other already held.
---
 threads/windows.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threads/windows.c b/threads/windows.c
index 15e82f7..87d24dd 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -46,7 +46,7 @@ int func \
 static void initLock(ggc_mutex_t *mutex)
 {
     WaitForSingleObject(lockInitLock, INFINITE);
-    *mutex = CreateMutex(NULL, 0, NULL);
+    if (!*mutex) *mutex = CreateMutex(NULL, 0, NULL);
     ReleaseMutex(lockInitLock);
 }
 
-- 
2.43.0


From be7b7d19a625a0ef7f71ff8e6b82c0482dc74088 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 41/44] fix: Windows: judge the results of waits rightly

ggc_mutex_trylock took a timeout for success, so that locks didn't exclude
anybody, ggc_mutex_lock and ggc_thread_join reported success as failure, and
ggc_mutex_lock didn't create the mutex.
---
 threads/windows.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/threads/windows.c b/threads/windows.c
index 87d24dd..5385c07 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -50,21 +50,23 @@ static void initLock(ggc_mutex_t *mutex)
     ReleaseMutex(lockInitLock);
 }
 
-BLOCKING(
-    ggc_mutex_lock(ggc_mutex_t *mutex),
-    WaitForSingleObject(*(mutex), INFINITE)
-)
-
 int ggc_mutex_lock_raw(ggc_mutex_t *mutex)
 {
     if (!*mutex) initLock(mutex);
     return (WaitForSingleObject(*mutex, INFINITE) == WAIT_FAILED);
 }
 
+BLOCKING(
+    ggc_mutex_lock(ggc_mutex_t *mutex),
+    !ggc_mutex_lock_raw(mutex)
+)
+
 int ggc_mutex_trylock(ggc_mutex_t *mutex)
 {
+    DWORD ret;
     if (!*mutex) initLock(mutex);
-    return (WaitForSingleObject(*mutex, 0) == WAIT_FAILED);
+    ret = WaitForSingleObject(*mutex, 0);
+    return (ret == WAIT_FAILED || ret == WAIT_TIMEOUT);
 }
 
 int ggc_thread_create(
@@ -99,7 +101,7 @@ int ggc_thread_create(
 
 BLOCKING(
     ggc_thread_join(ggc_thread_t thread),
-    WaitForSingleObject(thread, INFINITE)
+    WaitForSingleObject(thread, INFINITE) != WAIT_FAILED
 )
 
 #include "../gen-barriers.c"
-- 
2.43.0


From 1e43dffd1b8906dc8d93fd1ff11e121be7db9bdc Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 42/44] fix: Windows: make semaphores work

The initial count was given as the maximum, so that none could be created with
a count of 0 (as barriers do), and ggc_sem_wait didn't exist.
---
 ggggc/threads-windows.h | 2 +-
 threads/windows.c       | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ggggc/threads-windows.h b/ggggc/threads-windows.h
index ddc35b9..13a536a 100644
--- a/ggggc/threads-windows.h
+++ b/ggggc/threads-windows.h
@@ -23,7 +23,7 @@
 #define ggc_mutex_unlock(mutex)         (!ReleaseMutex(*(mutex)))
 #define ggc_mutex_destroy(mutex)        (!CloseHandle(*(mutex)))
 #define ggc_sem_destroy(sem)            (!CloseHandle(*(sem)))
-#define ggc_sem_init(sem,ct)            ((*(sem)=CreateSemaphore(NULL,0,(ct),NULL))?0:-1)
+#define ggc_sem_init(sem,ct)            ((*(sem)=CreateSemaphore(NULL,(ct),LONG_MAX,NULL))?0:-1)
 #define ggc_sem_post(sem)               (!ReleaseSemaphore(*(sem),1,NULL))
 #define ggc_sem_wait_raw(sem)           (WaitForSingleObject(*(sem),INFINITE)==WAIT_FAILED)
 
diff --git a/threads/windows.c b/threads/windows.c
index 5385c07..d9cb049 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -69,6 +69,11 @@ int ggc_mutex_trylock(ggc_mutex_t *mutex)
     return (ret == WAIT_FAILED || ret == WAIT_TIMEOUT);
 }
 
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    !ggc_sem_wait_raw(sem)
+)
+
 int ggc_thread_create(
         ggc_thread_t *thread,
         void (*func)(GGC_ThreadArg),
-- 
2.43.0


From 62b45f55cec90f041d663454d0f8f559c1a36e90 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 43/44] fix: Windows: a thread that can't be started must not
 be counted

Nobody ever joined the world barrier for it, so that the next collection
waited for ever.
---
 threads/windows.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/threads/windows.c b/threads/windows.c
index d9cb049..5321b03 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -88,20 +88,19 @@ int ggc_thread_create(
     GGC_WD(ti, func, func);
     GGC_WP(ti, arg, arg);
 
-    /* update our thread barrier */
+    /* spawn the thread, and update our thread barrier only if there is one, as
+     * nobody else would ever join the barrier for it */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
-
-    /* spawn the thread */
     *thread = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE) ggggcThreadWrapper, ti, 0, NULL);
-    if (!*thread)
-        return -1;
+    if (*thread) {
+        if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
+        else ggc_barrier_destroy(&ggggc_worldBarrier);
+        ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    }
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    return 0;
+    return *thread ? 0 : -1;
 }
 
 BLOCKING(
-- 
2.43.0


From 589945e7828e787c2e4b120954af577d9e7c314c Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 44/44] fix: Windows: close the handle of a thread that has
 been joined

They were leaked.
---
 threads/windows.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threads/windows.c b/threads/windows.c
index 5321b03..8fd3991 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -105,7 +105,7 @@ int ggc_thread_create(
 
 BLOCKING(
     ggc_thread_join(ggc_thread_t thread),
-    WaitForSingleObject(thread, INFINITE) != WAIT_FAILED
+    WaitForSingleObject(thread, INFINITE) != WAIT_FAILED && CloseHandle(thread)
 )
 
 #include "../gen-barriers.c"
-- 
2.43.0

