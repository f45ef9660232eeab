From 8338ecae2b1d312d9bf611e15e7a80ec1c554af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 01/82] fix: disjoint pool: use the slab's real size as its end

A slab of a bucket larger than slab_min_size is bucket-size long, so an
over-aligned pointer past slab_min_size was not recognized as belonging to
the slab (free failed, usable size was 0); slab_min_size == 0 made every
pooled block unfreeable.
---
 src/pool/pool_disjoint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index ca4d2fa..909a540 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -176,8 +176,7 @@ static void *slab_get_chunk(slab_t *slab) {
 
 static void *slab_get(const slab_t *slab) { return slab->mem_ptr; }
 static void *slab_get_end(const slab_t *slab) {
-    return (void *)((uintptr_t)slab->mem_ptr +
-                    bucket_slab_min_size(slab->bucket));
+    return (void *)((uintptr_t)slab->mem_ptr + slab->slab_size);
 }
 
 static void slab_free_chunk(slab_t *slab, void *ptr) {
-- 
2.43.0


From 3bc07a6c16232145db0eb08ea9a33a51d7964c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 02/82] fix: disjoint pool: reject aligned sizes that overflow

size + alignment - 1 wrapped around for huge sizes and a tiny chunk was
returned (or an assertion failed).
---
 src/pool/pool_disjoint.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 909a540..0177881 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -725,6 +725,12 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
     }
 
     size_t aligned_size;
+    if (size > SIZE_MAX - (alignment - 1)) {
+        // the rounded-up size cannot be represented
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
+
     if (alignment <= disjoint_pool->provider_min_page_size) {
         // This allocation will be served from a Bucket which size is multiple
         // of Alignment and Slab address is aligned to provider_min_page_size
-- 
2.43.0


From c60c3d1e9e74b676f129c9380dc3ef88bb9c6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 03/82] fix: disjoint pool: do not look for buckets above
 CutOff

With max_poolable_size above CutOff a larger request indexed past the
bucket array.
---
 src/pool/pool_disjoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 0177881..7565606 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -597,6 +597,11 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
     disjoint_pool->provider = provider;
     disjoint_pool->params = *dp_params;
 
+    // the largest bucket is CutOff bytes, larger requests cannot be pooled
+    if (disjoint_pool->params.max_poolable_size > CutOff) {
+        disjoint_pool->params.max_poolable_size = CutOff;
+    }
+
     disjoint_pool->known_slabs = critnib_new();
     if (disjoint_pool->known_slabs == NULL) {
         goto err_free_disjoint_pool;
-- 
2.43.0


From a64948ff8f1eab3cb669a684a02312d402341266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 04/82] fix: file provider: keep the file offset in step with
 the aligned mapping

When the beginning of a new mapping is cut off to align it, the file offset
of the mapping's base has to move by the same amount. Otherwise the next
mapping overlaps the file range of live allocations and the IPC handle of
the allocation points at the wrong file offset.
---
 src/provider/provider_file_memory.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5cc377f..1ac5351 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -378,10 +378,6 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         file_provider->size_fd = new_size_fd;
     }
 
-    if (aligned_offset_fd > offset_fd) {
-        file_provider->offset_fd = aligned_offset_fd;
-    }
-
     ASSERT_IS_ALIGNED(extended_size, page_size);
     ASSERT_IS_ALIGNED(aligned_offset_fd, page_size);
 
@@ -412,6 +408,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     file_provider->size_mmap = aligned_size;
     file_provider->offset_mmap = 0;
 
+    // the file offset of base_mmap
+    file_provider->offset_fd = aligned_offset_fd + (aligned_ptr - (uintptr_t)ptr);
+
     return UMF_RESULT_SUCCESS;
 }
 
-- 
2.43.0


From a5e8218799c9fac72f246792f20c232ed5f9f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 05/82] fix: file provider: do not allocate past the end of the
 mapping

Aligning the offset up can move it past the end of the mapping, then the
unsigned subtraction wraps around and memory outside of the mapping was
returned.
---
 src/provider/provider_file_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 1ac5351..cea0bc9 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -453,7 +453,8 @@ static umf_result_t file_alloc_aligned(file_memory_provider_t *file_provider,
     size_t new_offset_fd =
         file_provider->offset_fd + new_offset_mmap - file_provider->offset_mmap;
 
-    if (file_provider->size_mmap - new_offset_mmap < size) {
+    if (new_offset_mmap > file_provider->size_mmap ||
+        file_provider->size_mmap - new_offset_mmap < size) {
         umf_result = file_mmap_aligned(file_provider, size, alignment);
         if (umf_result != UMF_RESULT_SUCCESS) {
             utils_mutex_unlock(&file_provider->lock);
-- 
2.43.0


From 997aa338d9af13e3f938d5f71452c397a093288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 06/82] fix: scalable pool: fail calloc when num * size
 overflows

---
 src/pool/pool_scalable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index f688875..b2a6bc8 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -336,6 +336,12 @@ static void *tbb_malloc(void *pool, size_t size) {
 
 static void *tbb_calloc(void *pool, size_t num, size_t size) {
     assert(pool);
+    if (size != 0 && num > SIZE_MAX / size) {
+        LOG_ERR("num * size overflows");
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
+
     size_t csize = num * size;
     void *ptr = tbb_malloc(pool, csize);
     if (ptr == NULL) {
-- 
2.43.0


From 6b1906904ba868c158cf6eb74950f2e1c61cbb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 07/82] fix: disjoint pool: free the array of buckets in
 finalize

---
 src/pool/pool_disjoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 7565606..a605740 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -930,6 +930,7 @@ void disjoint_pool_finalize(void *pool) {
     for (size_t i = 0; i < hPool->buckets_num; i++) {
         destroy_bucket(hPool->buckets[i]);
     }
+    umf_ba_global_free(hPool->buckets);
 
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
-- 
2.43.0


From c66db9ca4908fc8953d2b7388132782030f44dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 08/82] fix: disjoint pool: release the shared limits in
 finalize

The slabs retained by a pool were never subtracted from the shared limits
when the pool was destroyed, so other pools sharing the limits could not
use that part of the limits any more.
---
 src/pool/pool_disjoint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index a605740..cc48631 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -257,6 +257,13 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
 }
 
 static void destroy_bucket(bucket_t *bucket) {
+    // the slabs kept in the pool no longer count against the (shared) limits
+    if (bucket->chunked_slabs_in_pool > 0) {
+        utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
+                                bucket->chunked_slabs_in_pool *
+                                    bucket_slab_alloc_size(bucket));
+    }
+
     // use an extra tmp to store the next iterator before destroying the slab
     slab_list_item_t *it = NULL, *tmp = NULL;
     LL_FOREACH_SAFE(bucket->available_slabs, it, tmp) {
-- 
2.43.0


From 64e4e53038cced4089a70d9fdb9ca4ab2644687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 09/82] fix: coarse: initialize the used flag of new blocks

The block cut out for alignment kept an uninitialized flag; when the split
that follows failed, the block could not be merged back.
---
 src/coarse/coarse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 1979846..0436bed 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -169,6 +169,7 @@ static block_t *coarse_ravl_add_new(struct ravl *rtree, unsigned char *data,
 
     block->data = data;
     block->size = size;
+    block->used = false;
     block->free_list_ptr = NULL;
 
     ravl_data_t rdata = {(uintptr_t)block->data, block};
-- 
2.43.0


From 74db4770d5f7e6ce3855032e75ea75314abf55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 10/82] fix: coarse: reject allocations of size 0

A free block was split at offset 0, which asserted (or corrupted the list
of free blocks in the release build).
---
 src/coarse/coarse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 0436bed..7df51c4 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -1029,7 +1029,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
                           void **resultPtr) {
     umf_result_t umf_result = UMF_RESULT_ERROR_UNKNOWN;
 
-    if (coarse == NULL || resultPtr == NULL) {
+    if (coarse == NULL || resultPtr == NULL || size == 0) {
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 064601dfd53708e1ef3d2fa3e5d6b5f7f0a007db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 11/82] fix: file provider: do not merge blocks that are not
 adjacent in the file

Two mappings can be adjacent in the address space without being adjacent
in the file. The IPC handle of an allocation spanning both described the
wrong part of the file.
---
 src/provider/provider_file_memory.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index cea0bc9..7e8c576 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -680,7 +680,6 @@ static umf_result_t file_allocation_merge(void *provider, void *lowPtr,
 
 static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
                                              void *highPtr, size_t totalSize) {
-    (void)lowPtr;
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
@@ -688,6 +687,19 @@ static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
+    // blocks of different mappings can be adjacent in the address space,
+    // but not in the file
+    uintptr_t low_value =
+        (uintptr_t)critnib_get(file_provider->fd_offset_map, (uintptr_t)lowPtr);
+    uintptr_t high_value = (uintptr_t)critnib_get(file_provider->fd_offset_map,
+                                                  (uintptr_t)highPtr);
+    if (low_value && high_value &&
+        high_value - low_value != (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        LOG_DEBUG("blocks %p and %p are not adjacent in the file", lowPtr,
+                  highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     void *value =
         critnib_remove(file_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
-- 
2.43.0


From ecb24f361d7466de798449a0db330af8a0589943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 12/82] fix: critnib: do not skip subtrees that reach into the
 iterated range

---
 src/critnib/critnib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 5625781..a769ba9 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -797,7 +797,7 @@ static int iter(struct critnib_node *__restrict n, word min, word max,
     if (n->path > max) {
         return 1;
     }
-    if ((n->path | path_mask(n->shift)) < min) {
+    if ((n->path | ~path_mask(n->shift)) < min) {
         return 0;
     }
 
-- 
2.43.0


From 4c229b26cc5612c3295906bb619478351271ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 13/82] fix: critnib: do not load a child twice when descending

---
 src/critnib/critnib.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index a769ba9..999d605 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -524,8 +524,8 @@ static struct critnib_leaf *
 find_predecessor(struct critnib_node *__restrict n) {
     while (1) {
         int nib;
+        struct critnib_node *m = NULL;
         for (nib = NIB; nib >= 0; nib--) {
-            struct critnib_node *m;
             utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
             if (m) {
                 break;
@@ -536,11 +536,8 @@ find_predecessor(struct critnib_node *__restrict n) {
             return NULL;
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
-        }
+        /* a second load could see that the child has been removed since */
+        n = m;
 
         if (is_leaf(n)) {
             return to_leaf(n);
@@ -644,8 +641,8 @@ void *critnib_find_le(struct critnib *c, word key) {
 static struct critnib_leaf *find_successor(struct critnib_node *__restrict n) {
     while (1) {
         unsigned nib;
+        struct critnib_node *m = NULL;
         for (nib = 0; nib <= NIB; nib++) {
-            struct critnib_node *m;
             utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
             if (m) {
                 break;
@@ -656,11 +653,8 @@ static struct critnib_leaf *find_successor(struct critnib_node *__restrict n) {
             return NULL;
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
-        }
+        /* a second load could see that the child has been removed since */
+        n = m;
 
         if (is_leaf(n)) {
             return to_leaf(n);
-- 
2.43.0


From 531fc949776ebd409ec5e4d7471fb7c935bfb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 14/82] fix: linear base allocator: fail allocations whose pool
 size overflows

---
 src/base_alloc/base_alloc_linear.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index a35a6c2..d00539a 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -137,6 +137,11 @@ void *umf_ba_linear_alloc(umf_ba_linear_pool_t *pool, size_t size) {
         size_t usable_size =
             pool_size - offsetof(umf_ba_next_linear_pool_t, data);
         if (usable_size < aligned_size) {
+            if (aligned_size - usable_size > SIZE_MAX - pool_size) {
+                utils_mutex_unlock(&pool->metadata.lock);
+                LOG_ERR("pool_size overflow");
+                return NULL;
+            }
             pool_size += aligned_size - usable_size;
             pool_size = ALIGN_UP_SAFE(pool_size, ba_os_get_page_size());
             if (pool_size == 0) {
-- 
2.43.0


From e167289848db8c7cc4f1771daf1d9d5b94e97167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 15/82] fix: base allocator: return NULL when the underlying
 allocation fails

---
 src/base_alloc/base_alloc_global.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index ecec336..b3b5173 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -95,9 +95,13 @@ static int size_to_idx(size_t size) {
 // size and 'offset' that specifies how far is the returned ptr from
 // the origin ptr (used for aligned alloc)
 static void *add_metadata_and_align(void *ptr, size_t size, size_t alignment) {
+    if (!ptr) {
+        // the underlying allocation failed
+        return NULL;
+    }
+
     assert(size < (1ULL << 32));
     assert(alignment < (1ULL << 32));
-    assert(ptr);
 
     void *user_ptr;
     if (alignment <= ALLOC_METADATA_SIZE) {
-- 
2.43.0


From 5d228374f2dec3a0138fd4e1831d83286f1c19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 16/82] fix: base allocator: reject sizes that do not fit in
 the metadata

---
 src/base_alloc/base_alloc_global.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index b3b5173..b260f11 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -186,6 +186,12 @@ void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
         size += alignment;
     }
 
+    // the metadata has 32 bits for the size and 32 bits for the offset
+    if (size >= (1ULL << 32)) {
+        LOG_ERR("base_alloc: allocation size (%zu) too large.", size);
+        return NULL;
+    }
+
     int ac_index = size_to_idx(size);
     if (ac_index >= NUM_ALLOCATION_CLASSES) {
         return add_metadata_and_align(ba_os_alloc(size), size, alignment);
-- 
2.43.0


From dd274963d2e8ea2fecf1c5427768afffade70dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:22 +0000
Subject: [PATCH 17/82] fix: tracker: find the segment to merge when other
 segments are nested in it

---
 src/provider/provider_tracking.c | 77 +++++++++++++++-----------------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 1bef858..0595664 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -59,26 +59,25 @@ typedef struct tracker_ipc_info_t {
 } tracker_ipc_info_t;
 
 // Get the most nested (on the highest level) allocation segment in the map with the `ptr` key.
+// If `pool` is not NULL, only the segments of this pool are considered.
 // If `no_children` is set to 1, the function will return the entry
 // only if it has no children on the higher level.
 // The function returns the entry if found, otherwise NULL.
 static tracker_alloc_info_t *get_most_nested_alloc_segment(
-    umf_memory_tracker_handle_t hTracker, const void *ptr, int *_level,
-    uintptr_t *_parent_key, tracker_alloc_info_t **_parent_value,
-    int no_children) {
+    umf_memory_tracker_handle_t hTracker, umf_memory_pool_handle_t pool,
+    const void *ptr, int *_level, uintptr_t *_parent_key,
+    tracker_alloc_info_t **_parent_value, int no_children) {
     assert(ptr);
 
     tracker_alloc_info_t *parent_value = NULL;
-    tracker_alloc_info_t *rvalue = NULL;
+    tracker_alloc_info_t *value = NULL;
     uintptr_t parent_key = 0;
-    uintptr_t rkey = 0;
-    uint64_t rsize = 0;
-    int level = 0;
-    int found = 0;
 
-    do {
-        assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        found =
+    for (int level = 0; level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; level++) {
+        tracker_alloc_info_t *rvalue = NULL;
+        uintptr_t rkey = 0;
+        uint64_t rsize = 0;
+        int found =
             critnib_find(hTracker->alloc_segments_map[level], (uintptr_t)ptr,
                          FIND_LE, (void *)&rkey, (void **)&rvalue);
         if (!found || !rvalue) {
@@ -87,39 +86,36 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
 
         utils_atomic_load_acquire_u64((uint64_t *)&rvalue->size, &rsize);
 
-        if (found && (uintptr_t)ptr < rkey + rsize) {
-            if (rvalue->n_children) {
-                if (level == MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 1) {
-                    break;
-                }
-                level++;
-                parent_key = rkey;
-                parent_value = rvalue;
+        if ((uintptr_t)ptr >= rkey + rsize) {
+            break;
+        }
+
+        if (rkey == (uintptr_t)ptr && (!pool || rvalue->pool == pool)) {
+            value = rvalue;
+            if (_level) {
+                *_level = level;
+            }
+            if (_parent_key) {
+                *_parent_key = parent_key;
+            }
+            if (_parent_value) {
+                *_parent_value = parent_value;
             }
         }
-    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children);
 
-    if (!rvalue || rkey != (uintptr_t)ptr) {
-        return NULL;
-    }
+        if (rvalue->n_children == 0) {
+            break;
+        }
 
-    if (no_children && (rvalue->n_children > 0)) {
-        return NULL;
+        parent_key = rkey;
+        parent_value = rvalue;
     }
 
-    if (_level) {
-        *_level = level;
-    }
-    if (_parent_key) {
-        *_parent_key = parent_key;
-    }
-    if (_parent_value) {
-        *_parent_value = parent_value;
+    if (value && no_children && value->n_children > 0) {
+        return NULL;
     }
 
-    assert(!no_children || rvalue->n_children == 0);
-
-    return rvalue;
+    return value;
 }
 
 static umf_result_t
@@ -248,7 +244,8 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be removed.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
-        hTracker, ptr, &level, &parent_key, &parent_value, 1 /* no_children */);
+        hTracker, NULL, ptr, &level, &parent_key, &parent_value,
+        1 /* no_children */);
     if (!value) {
         LOG_ERR("pointer %p not found in the alloc_segments_map", ptr);
         return UMF_RESULT_ERROR_UNKNOWN;
@@ -526,7 +523,7 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be split.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
-        provider->hTracker, ptr, &level, &parent_key, &parent_value,
+        provider->hTracker, NULL, ptr, &level, &parent_key, &parent_value,
         1 /* no_children */);
     if (!value) {
         LOG_ERR("region for split is not found in the tracker");
@@ -629,7 +626,7 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     }
 
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
-        provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
+        provider->hTracker, provider->pool, lowPtr, &lowLevel, NULL, NULL,
         0 /* no_children */); // can have children
     if (!lowValue) {
         LOG_FATAL("no left value");
@@ -637,7 +634,7 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
     tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
+        provider->hTracker, provider->pool, highPtr, &highLevel, NULL, NULL,
         0 /* no_children */); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
-- 
2.43.0


From 65eb53466af7168383b322479e73576c62a26527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:46 +0000
Subject: [PATCH 18/82] fix: tracker: merging nested segments leaves one child
 fewer in the parent

---
 src/provider/provider_tracking.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 0595664..9a28442 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -605,6 +605,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     umf_tracking_memory_provider_t *provider =
         (umf_tracking_memory_provider_t *)hProvider;
 
+    tracker_alloc_info_t *parent_value = NULL;
+
     tracker_alloc_info_t *mergedValue =
         umf_ba_alloc(provider->hTracker->alloc_info_allocator);
 
@@ -634,8 +636,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
     tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, provider->pool, highPtr, &highLevel, NULL, NULL,
-        0 /* no_children */); // can have children
+        provider->hTracker, provider->pool, highPtr, &highLevel, NULL,
+        &parent_value, 0 /* no_children */); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -685,6 +687,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
     assert(erasedhighValue == highValue);
 
+    if (parent_value) {
+        // two children have become one
+        parent_value->n_children--;
+    }
+
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
-- 
2.43.0


From 645c49124e9f1224494432dae90982f1d4e23f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 19/82] fix: OS provider: page-align the file ranges, check
 overflows and keep the right file offset of aligned allocations

---
 src/provider/provider_os_memory.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1ecb397..83e3119 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -831,13 +831,24 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
                               size_t *fd_offset) {
     assert(out_addr);
 
-    size_t extended_length = length;
+    // only whole pages can be mapped, so the file offsets
+    // of consecutive mappings have to be page-aligned too
+    size_t extended_length = ALIGN_UP_SAFE(length, page_size);
+    if (extended_length == 0) {
+        LOG_ERR("incorrect size of allocation: %zu", length);
+        return -1;
+    }
 
     if (alignment > page_size) {
         // We have to increase length by alignment to be able to "cut out"
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
+        if (extended_length + alignment < extended_length) {
+            LOG_ERR("arithmetic overflow (size %zu + alignment %zu)", length,
+                    alignment);
+            return -1;
+        }
         extended_length += alignment;
     }
 
@@ -849,7 +860,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        if (extended_length > max_fd_size - *fd_size) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
@@ -864,6 +875,13 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         utils_mmap(hint_addr, extended_length, prot, flag, fd, *fd_offset);
     if (ptr == NULL) {
         LOG_PDEBUG("memory mapping failed");
+        if (fd > 0 && utils_mutex_lock(lock_fd) == 0) {
+            // give the unused range of the file back, if it is the last one
+            if (*fd_size == *fd_offset + extended_length) {
+                *fd_size = *fd_offset;
+            }
+            utils_mutex_unlock(lock_fd);
+        }
         return -1;
     }
 
@@ -883,6 +901,10 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             utils_munmap(ptr, head_len);
         }
 
+        // the part of the file that backs the aligned memory
+        // starts behind the unmapped head
+        *fd_offset += head_len;
+
         // tail address has to page-aligned
         uintptr_t tail = aligned_addr + length;
         if (tail & (page_size - 1)) {
-- 
2.43.0


From 7a32b8746e7ab9db43fa46ec45bf811bb64cf55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 20/82] fix: OS provider: close the shared memory file when the
 provider is destroyed

---
 src/provider/provider_os_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 83e3119..0feec3b 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -726,6 +726,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
     if (os_provider->fd > 0) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
+            (void)utils_close_fd(os_provider->fd);
             ret = UMF_RESULT_ERROR_UNKNOWN;
             goto err_destroy_bitmaps;
         }
@@ -764,6 +765,7 @@ static void os_finalize(void *provider) {
     os_memory_provider_t *os_provider = provider;
 
     if (os_provider->fd > 0) {
+        (void)utils_close_fd(os_provider->fd);
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
     }
 
-- 
2.43.0


From 577e64f082b4833442519602bdd1cc25c0b7384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:41 +0000
Subject: [PATCH 21/82] fix: OS provider: report an unusable shared memory name
 with a valid result code

---
 src/provider/provider_os_memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 0feec3b..3364ba0 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -455,7 +455,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                                        provider->shm_name)) {
             LOG_ERR("invalid name of a shared memory file: %s",
                     in_params->shm_name);
-            return -1;
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }
 
         /* create a new shared memory file */
@@ -466,7 +466,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                     "memory mapping failed",
                     in_params->shm_name, provider->max_size_fd);
             provider->shm_name[0] = '\0'; // zero shm_name
-            return -1;
+            return UMF_RESULT_ERROR_UNKNOWN;
         }
 
         LOG_DEBUG("created the shared memory file /dev/shm/%s of size %zu",
-- 
2.43.0


From 60f0125bef3a74ffde3fc15659c15a757da5c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 22/82] fix: OS provider: keep the file offset of a block whose
 deallocation failed

---
 src/provider/provider_os_memory.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 3364ba0..5c5a1de 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1237,8 +1237,11 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
 
+    // the offset has to be removed before the address can be reused
+    void *fd_offset = NULL;
     if (os_provider->fd > 0) {
-        critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
+        fd_offset =
+            critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
     }
 
     errno = 0;
@@ -1247,6 +1250,13 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
         os_store_last_native_error(UMF_OS_RESULT_ERROR_FREE_FAILED, errno);
         LOG_PERR("memory deallocation failed");
 
+        // the memory is still mapped and allocated
+        if (fd_offset &&
+            critnib_insert(os_provider->fd_offset_map, (uintptr_t)ptr,
+                           fd_offset, 0 /* update */)) {
+            LOG_ERR("restoring the file offset failed (addr=%p)", ptr);
+        }
+
         return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
     }
 
-- 
2.43.0


From 6230545bacb0034d2ee4f867878c453be3197f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 23/82] fix: memory providers: initialize the last native error
 with a valid code

---
 src/provider/provider_devdax_memory.c | 3 ++-
 src/provider/provider_file_memory.c   | 3 ++-
 src/provider/provider_fixed_memory.c  | 3 ++-
 src/provider/provider_os_memory.c     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8e81971..2713056 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -98,7 +98,8 @@ typedef struct devdax_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } devdax_last_native_error_t;
 
-static __TLS devdax_last_native_error_t TLS_last_native_error;
+static __TLS devdax_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_DEVDAX_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_DEVDAX_RESULT_SUCCESS                                             \
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 7e8c576..cf5c396 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -127,7 +127,8 @@ typedef struct file_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } file_last_native_error_t;
 
-static __TLS file_last_native_error_t TLS_last_native_error;
+static __TLS file_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FILE_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FILE_RESULT_SUCCESS                                               \
diff --git a/src/provider/provider_fixed_memory.c b/src/provider/provider_fixed_memory.c
index eeeb8b7..a9a693c 100644
--- a/src/provider/provider_fixed_memory.c
+++ b/src/provider/provider_fixed_memory.c
@@ -44,7 +44,8 @@ typedef struct fixed_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } fixed_last_native_error_t;
 
-static __TLS fixed_last_native_error_t TLS_last_native_error;
+static __TLS fixed_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FIXED_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FIXED_RESULT_SUCCESS                                              \
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 5c5a1de..e8668d4 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -138,7 +138,8 @@ typedef struct os_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } os_last_native_error_t;
 
-static __TLS os_last_native_error_t TLS_last_native_error;
+static __TLS os_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_OS_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_OS_RESULT_SUCCESS (UMF_OS_RESULT_SUCCESS - UMF_OS_RESULT_SUCCESS)
-- 
2.43.0


From 410c483edef749615fa6866a114bae050bb67673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 24/82] fix: file provider: refuse a path that is too long

---
 src/provider/provider_file_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index cf5c396..89584df 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -215,6 +215,7 @@ static umf_result_t file_initialize(void *params, void **provider) {
     }
 
     if (utils_copy_path(in_params->path, file_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_free_file_provider;
     }
 
-- 
2.43.0


From d66210192a9a4de7dd376f0e970542e032e8feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 25/82] fix: devdax provider: refuse a path that is too long

---
 src/provider/provider_devdax_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 2713056..8f8bed1 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -205,6 +205,7 @@ static umf_result_t devdax_initialize(void *params, void **provider) {
 
     devdax_provider->size = in_params->size;
     if (utils_copy_path(in_params->path, devdax_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_coarse_delete;
     }
 
-- 
2.43.0


From 7f89d736a86311e2e0888f0dd0bf7a4ada77e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:17 +0000
Subject: [PATCH 26/82] fix: record the provider whose IPC call failed as the
 last failed one

---
 src/memory_provider.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index fdc8725..dd58458 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -358,8 +358,10 @@ umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t hProvider,
                                   size_t *size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((size != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv,
-                                                  size);
+    umf_result_t res =
+        hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -369,8 +371,10 @@ umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle(hProvider->provider_priv, ptr,
-                                             size, providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.get_ipc_handle(
+        hProvider->provider_priv, ptr, size, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -378,8 +382,10 @@ umfMemoryProviderPutIPCHandle(umf_memory_provider_handle_t hProvider,
                               void *providerIpcData) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.put_ipc_handle(hProvider->provider_priv,
-                                             providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.put_ipc_handle(
+        hProvider->provider_priv, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -388,8 +394,10 @@ umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.open_ipc_handle(hProvider->provider_priv,
-                                              providerIpcData, ptr);
+    umf_result_t res = hProvider->ops.ipc.open_ipc_handle(
+        hProvider->provider_priv, providerIpcData, ptr);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -397,6 +405,8 @@ umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t hProvider,
                                 void *ptr, size_t size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.close_ipc_handle(hProvider->provider_priv, ptr,
-                                               size);
+    umf_result_t res = hProvider->ops.ipc.close_ipc_handle(
+        hProvider->provider_priv, ptr, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
-- 
2.43.0


From ae45eec7619ff7304b00dcc426d50729b1436c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:46 +0000
Subject: [PATCH 27/82] fix: IPC cache: evict an entry with its own key

---
 src/ipc_cache.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index bf17a66..9e26855 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -7,8 +7,6 @@
  *
  */
 
-#include <stdbool.h>
-
 #include "base_alloc_global.h"
 #include "ipc_cache.h"
 #include "uthash.h"
@@ -181,8 +179,6 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
                                   ipc_opened_cache_value_t **retEntry) {
     ipc_opened_cache_entry_t *entry = NULL;
     umf_result_t ret = UMF_RESULT_SUCCESS;
-    bool evicted = false;
-    ipc_opened_cache_value_t evicted_value;
 
     if (!cache || !key || !retEntry) {
         LOG_ERR("Some arguments are NULL, cache=%p, key=%p, retEntry=%p",
@@ -227,9 +223,11 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             // remove the entry from the hash table it belongs to
             HASH_DEL(*(entry->hash_table), entry);
             cache->global->cur_size -= 1;
-            evicted_value.mapped_base_ptr = entry->value.mapped_base_ptr;
-            evicted_value.mapped_size = entry->value.mapped_size;
-            evicted = true;
+            // The entry has to be evicted with its own key, because it may
+            // belong to another provider. It is done under the lock (as in
+            // umfIpcOpenedCacheDestroy()) so that this provider cannot be
+            // destroyed in the meantime.
+            cache->eviction_cb(&entry->key, &entry->value);
         } else { // allocate the new entry
             entry = umf_ba_alloc(cache->global->cache_allocator);
             if (!entry) {
@@ -265,10 +263,6 @@ exit:
 
     utils_mutex_unlock(&(cache->global->cache_lock));
 
-    if (evicted) {
-        cache->eviction_cb(key, &evicted_value);
-    }
-
     return ret;
 }
 
-- 
2.43.0


From 7fdbd2804198753230dcbd99e2ca8ccaac1ccc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 28/82] fix: IPC cache: do not close a handle that failed to
 open

---
 src/provider/provider_tracking.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 9a28442..84ec38f 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -992,18 +992,19 @@ ipcOpenedCacheEvictionCallback(const ipc_opened_cache_key_t *key,
     // to avoid a race condition. If the order would be different, other thread
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemoveIpcSegment
     // resulting in inconsistent state.
-    if (value->mapped_base_ptr) {
-        umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(
-            p->hTracker, value->mapped_base_ptr);
-        if (ret != UMF_RESULT_SUCCESS) {
-            // DO NOT return an error here, because the tracking provider
-            // cannot change behaviour of the upstream provider.
-            LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    value->mapped_base_ptr, value->mapped_size, ret);
-        }
+    if (value->mapped_base_ptr == NULL) {
+        return; // opening the handle failed, there is nothing to close
+    }
+    umf_result_t ret =
+        umfMemoryTrackerRemoveIpcSegment(p->hTracker, value->mapped_base_ptr);
+    if (ret != UMF_RESULT_SUCCESS) {
+        // DO NOT return an error here, because the tracking provider
+        // cannot change behaviour of the upstream provider.
+        LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
+                "size=%zu, ret = %d",
+                value->mapped_base_ptr, value->mapped_size, ret);
     }
-    umf_result_t ret = umfMemoryProviderCloseIPCHandle(
+    ret = umfMemoryProviderCloseIPCHandle(
         p->hUpstream, value->mapped_base_ptr, value->mapped_size);
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("provider failed to close IPC handle, ptr=%p, size=%zu",
-- 
2.43.0


From 9dd3f027bd97173549f1fd4a1eb5985fe15bb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 29/82] fix: IPC: release the cache entry when opening the
 handle fails

---
 src/provider/provider_tracking.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 84ec38f..63f0dcc 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1104,11 +1104,15 @@ static umf_result_t trackingOpenIpcHandle(void *provider, void *providerIpcData,
         utils_mutex_unlock(&(cache_entry->mmap_lock));
     }
 
-    if (ret == UMF_RESULT_SUCCESS) {
-        assert(mapped_ptr != NULL);
-        *ptr = mapped_ptr;
+    if (ret != UMF_RESULT_SUCCESS) {
+        // release the reference taken by umfIpcOpenedCacheGet()
+        umfIpcHandleMappedCacheRelease(cache_entry);
+        return ret;
     }
 
+    assert(mapped_ptr != NULL);
+    *ptr = mapped_ptr;
+
     return ret;
 }
 
-- 
2.43.0


From 4136a0191cf38b4ac3e840d61bb1725a1e362cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 30/82] fix: tracker: give back the IPC handles of memory that
 is split or merged

---
 src/provider/provider_tracking.c | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 63f0dcc..41f5483 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -494,6 +494,26 @@ static umf_result_t trackingAlloc(void *hProvider, size_t size,
     return UMF_RESULT_SUCCESS;
 }
 
+// Puts the cached IPC handle of the memory at `ptr` back to the upstream
+// provider. It has to be done when this memory is going to be freed
+// and when it has been split or merged, because the handle describes
+// the memory as it was when the handle was created.
+static void putCachedIpcHandle(umf_tracking_memory_provider_t *p,
+                               const void *ptr) {
+    ipc_cache_value_t *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
+    if (!value) {
+        return;
+    }
+
+    umf_result_t ret =
+        umfMemoryProviderPutIPCHandle(p->hUpstream, value->providerIpcData);
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, ret = %d",
+                ptr, ret);
+    }
+    umf_ba_global_free(value);
+}
+
 static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
                                             size_t totalSize,
                                             size_t firstSize) {
@@ -544,6 +564,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    putCachedIpcHandle(provider, ptr);
+
     assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     int cret =
         critnib_insert(provider->hTracker->alloc_segments_map[level],
@@ -668,6 +690,9 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto not_merged;
     }
 
+    putCachedIpcHandle(provider, lowPtr);
+    putCachedIpcHandle(provider, highPtr);
+
     size_t lno = lowValue->n_children;
     size_t hno = highValue->n_children;
 
@@ -742,18 +767,7 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
         }
     }
 
-    void *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
-    if (value) {
-        ipc_cache_value_t *cache_value = (ipc_cache_value_t *)value;
-        ret = umfMemoryProviderPutIPCHandle(p->hUpstream,
-                                            cache_value->providerIpcData);
-        if (ret != UMF_RESULT_SUCCESS) {
-            LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    ptr, size, ret);
-        }
-        umf_ba_global_free(value);
-    }
+    putCachedIpcHandle(p, ptr);
 
     ret = umfMemoryProviderFree(p->hUpstream, ptr, size);
     if (ret != UMF_RESULT_SUCCESS) {
-- 
2.43.0


From 62a52bd91dc1b0a097bd14cd392b62493aa691cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 31/82] fix: tracker: look for segments and change them under a
 lock

---
 src/provider/provider_tracking.c | 57 ++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 41f5483..b25a3b4 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -38,6 +38,11 @@ struct umf_memory_tracker_t {
     // when one memory pool acts as a memory provider
     // for another memory pool (nested memory pooling).
     critnib *alloc_segments_map[MAX_LEVELS_OF_ALLOC_SEGMENT_MAP];
+    // Protects the values of alloc_segments_map. The values found in the maps
+    // belong to any thread and they are freed when they are removed,
+    // so looking for a segment and changing the maps has to be atomic.
+    // It must not be held when the upstream provider is called.
+    utils_mutex_t segmentsMutex;
     utils_mutex_t splitMergeMutex;
     umf_ba_pool_t *ipc_info_allocator;
     critnib *ipc_segments_map;
@@ -184,6 +189,10 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
     int level = 0;
     int found = 0;
 
+    if (utils_mutex_lock(&hTracker->segmentsMutex)) {
+        return UMF_RESULT_ERROR_UNKNOWN;
+    }
+
     // Find the most nested (in the highest level) entry
     // in the critnib maps that contains the given 'ptr' pointer.
     do {
@@ -202,7 +211,8 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
                 // TODO: we need to support an arbitrary amount of layers in the future
                 LOG_ERR("tracker level is too high, ptr=%p, size=%zu", ptr,
                         size);
-                return UMF_RESULT_ERROR_OUT_OF_RESOURCES;
+                umf_result = UMF_RESULT_ERROR_OUT_OF_RESOURCES;
+                goto unlock;
             }
             if (((uintptr_t)ptr + size) > (rkey + rsize)) {
                 LOG_ERR(
@@ -211,7 +221,8 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
                     "that exceeds the parent value (pool=%p, ptr=%p, size=%zu)",
                     (void *)pool, ptr, size, (void *)rvalue->pool, (void *)rkey,
                     (size_t)rsize);
-                return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+                umf_result = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+                goto unlock;
             }
             parent_key = rkey;
             parent_value = rvalue;
@@ -221,11 +232,11 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
 
     umf_result = umfMemoryTrackerAddAtLevel(hTracker, level, pool, ptr, size,
                                             parent_key, parent_value);
-    if (umf_result != UMF_RESULT_SUCCESS) {
-        return umf_result;
-    }
 
-    return UMF_RESULT_SUCCESS;
+unlock:
+    utils_mutex_unlock(&hTracker->segmentsMutex);
+
+    return umf_result;
 }
 
 static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
@@ -241,12 +252,17 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
     uintptr_t parent_key = 0;
     int level = 0;
 
+    if (utils_mutex_lock(&hTracker->segmentsMutex)) {
+        return UMF_RESULT_ERROR_UNKNOWN;
+    }
+
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be removed.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
         hTracker, NULL, ptr, &level, &parent_key, &parent_value,
         1 /* no_children */);
     if (!value) {
+        utils_mutex_unlock(&hTracker->segmentsMutex);
         LOG_ERR("pointer %p not found in the alloc_segments_map", ptr);
         return UMF_RESULT_ERROR_UNKNOWN;
     }
@@ -269,6 +285,7 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
     }
 
     umf_ba_free(hTracker->alloc_info_allocator, value);
+    utils_mutex_unlock(&hTracker->segmentsMutex);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -542,9 +559,11 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be split.
+    utils_mutex_lock(&provider->hTracker->segmentsMutex);
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
         provider->hTracker, NULL, ptr, &level, &parent_key, &parent_value,
         1 /* no_children */);
+    utils_mutex_unlock(&provider->hTracker->segmentsMutex);
     if (!value) {
         LOG_ERR("region for split is not found in the tracker");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -566,6 +585,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 
     putCachedIpcHandle(provider, ptr);
 
+    utils_mutex_lock(&provider->hTracker->segmentsMutex);
+
     assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     int cret =
         critnib_insert(provider->hTracker->alloc_segments_map[level],
@@ -593,6 +614,7 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         // this cannot fail since we know the element exists (nothing to allocate)
         assert(cret == 0);
         (void)cret;
+        utils_mutex_unlock(&provider->hTracker->segmentsMutex);
         // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
         // so it's unlikely but probably the best solution would be to try to preallocate everything
         // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
@@ -601,6 +623,7 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 
     // free the original value
     umf_ba_free(provider->hTracker->alloc_info_allocator, value);
+    utils_mutex_unlock(&provider->hTracker->segmentsMutex);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
     LOG_DEBUG(
@@ -649,17 +672,19 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_lock;
     }
 
+    utils_mutex_lock(&provider->hTracker->segmentsMutex);
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
         provider->hTracker, provider->pool, lowPtr, &lowLevel, NULL, NULL,
         0 /* no_children */); // can have children
+    tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
+        provider->hTracker, provider->pool, highPtr, &highLevel, NULL,
+        &parent_value, 0 /* no_children */); // can have children
+    utils_mutex_unlock(&provider->hTracker->segmentsMutex);
     if (!lowValue) {
         LOG_FATAL("no left value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
-    tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, provider->pool, highPtr, &highLevel, NULL,
-        &parent_value, 0 /* no_children */); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -681,8 +706,6 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
 
-    mergedValue->n_children = lowValue->n_children + highValue->n_children;
-
     ret = umfMemoryProviderAllocationMerge(provider->hUpstream, lowPtr, highPtr,
                                            totalSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -693,8 +716,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     putCachedIpcHandle(provider, lowPtr);
     putCachedIpcHandle(provider, highPtr);
 
+    utils_mutex_lock(&provider->hTracker->segmentsMutex);
+
     size_t lno = lowValue->n_children;
     size_t hno = highValue->n_children;
+    mergedValue->n_children = lno + hno;
 
     // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
     // the value is the same anyway and we forbid removing that range concurrently
@@ -719,6 +745,7 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
+    utils_mutex_unlock(&provider->hTracker->segmentsMutex);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
     LOG_DEBUG("merged memory regions (level=%i): lowPtr=%p (child=%zu), "
@@ -1234,6 +1261,11 @@ umf_memory_tracker_handle_t umfMemoryTrackerCreate(void) {
         goto err_destroy_alloc_info_allocator;
     }
 
+    mutex_ptr = utils_mutex_init(&handle->segmentsMutex);
+    if (!mutex_ptr) {
+        goto err_destroy_split_merge_mutex;
+    }
+
     int i;
     for (i = 0; i < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; i++) {
         handle->alloc_segments_map[i] = critnib_new();
@@ -1266,6 +1298,8 @@ err_destroy_alloc_segments_map:
             critnib_delete(handle->alloc_segments_map[i]);
         }
     }
+    utils_mutex_destroy_not_free(&handle->segmentsMutex);
+err_destroy_split_merge_mutex:
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
 err_destroy_alloc_info_allocator:
     umf_ba_destroy(alloc_info_allocator);
@@ -1299,6 +1333,7 @@ void umfMemoryTrackerDestroy(umf_memory_tracker_handle_t handle) {
             handle->alloc_segments_map[i] = NULL;
         }
     }
+    utils_mutex_destroy_not_free(&handle->segmentsMutex);
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
     umf_ba_destroy(handle->alloc_info_allocator);
     handle->alloc_info_allocator = NULL;
-- 
2.43.0


From 6672ac9169018f5c0fcee331da6a050035019333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 32/82] fix: IPC cache: free the entry with the allocator it
 comes from

---
 src/ipc_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index 9e26855..c372ed6 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -237,7 +237,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
-- 
2.43.0


From 41ab94eb636056871e2faa08314da7f4a51e1879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 33/82] fix: IPC cache: do not exit the process when memory
 runs out

---
 src/ipc_cache.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index c372ed6..293e8c5 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -9,6 +9,8 @@
 
 #include "base_alloc_global.h"
 #include "ipc_cache.h"
+// do not exit when a hash table runs out of memory
+#define HASH_NONFATAL_OOM 1
 #include "uthash.h"
 #include "utils_common.h"
 #include "utils_concurrency.h"
@@ -251,6 +253,13 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
         entry->value.mapped_base_ptr = NULL;
 
         HASH_ADD(hh, cache->hash_table, key, sizeof(entry->key), entry);
+        if (entry->hh.tbl == NULL) { // out of memory
+            LOG_ERR("Failed to add an entry to the IPC cache");
+            utils_mutex_destroy_not_free(&(entry->value.mmap_lock));
+            umf_ba_free(cache->global->cache_allocator, entry);
+            ret = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+            goto exit;
+        }
         DL_PREPEND(cache->global->lru_list, entry);
         cache->global->cur_size += 1;
     }
-- 
2.43.0


From cb978eef83057411e322282d26a3d06bc38e6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:58 +0000
Subject: [PATCH 34/82] fix: OS provider: do not merge blocks that are not
 adjacent in the file

---
 src/provider/provider_os_memory.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index e8668d4..25d340c 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1392,7 +1392,6 @@ static umf_result_t os_allocation_split(void *provider, void *ptr,
 // It should NOT be called concurrently with os_allocation_split() with the same pointer.
 static umf_result_t os_allocation_merge(void *provider, void *lowPtr,
                                         void *highPtr, size_t totalSize) {
-    (void)lowPtr;
     (void)totalSize;
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
@@ -1400,6 +1399,20 @@ static umf_result_t os_allocation_merge(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
+    void *lowValue =
+        critnib_get(os_provider->fd_offset_map, (uintptr_t)lowPtr);
+    void *highValue =
+        critnib_get(os_provider->fd_offset_map, (uintptr_t)highPtr);
+    // allocations adjacent in memory do not have to be adjacent in the file
+    if (lowValue && highValue &&
+        (uintptr_t)highValue - (uintptr_t)lowValue !=
+            (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        LOG_ERR("os_allocation_merge(): cannot merge allocations that are not "
+                "adjacent in the file (lowPtr=%p, highPtr=%p)",
+                lowPtr, highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     void *value =
         critnib_remove(os_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
-- 
2.43.0


From 73d07fd9acb1ccf64cab1456fa5f613e1eaa7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 35/82] fix: CTL: do not look for children of a leaf

---
 src/ctl/ctl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 99ab2d9..fafe329 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -145,6 +145,10 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             // if a subtree occurs, the subtree handler should be called
             break;
         }
+        if (nodes == NULL) {
+            // the previous node is a leaf, so there is nothing to look for
+            goto error;
+        }
         char *endptr;
         /*
          * Ignore errno from strtol: FreeBSD returns EINVAL if no
-- 
2.43.0


From a3717d94f3fd18e1122f376f76c5b038ce0eee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 36/82] fix: CTL: pass the indexes of the query to the handlers
 and free them

---
 src/ctl/ctl.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index fafe329..927e728 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -121,7 +121,7 @@ umf_result_t umfCtlExec(const char *name, void *ctx, void *arg) {
  */
 static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                                            const char *name,
-                                           umf_ctl_index_utlist_t *indexes,
+                                           umf_ctl_index_utlist_t **indexes,
                                            size_t *name_offset) {
     assert(nodes != NULL);
     assert(name != NULL);
@@ -164,8 +164,9 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             if (index_entry == NULL) {
                 goto error;
             }
+            index_entry->name = NULL;
             index_entry->value = index_value;
-            LL_PREPEND(indexes, index_entry);
+            LL_PREPEND(*indexes, index_entry);
         }
 
         for (n = &nodes[0]; n->name != NULL; ++n) {
@@ -396,21 +397,17 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
      * query has been handled.
      */
     umf_ctl_index_utlist_t *indexes = NULL;
-    indexes = Zalloc(sizeof(*indexes));
-    if (!indexes) {
-        return -1;
-    }
 
     int ret = -1;
     size_t name_offset = 0;
 
     const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
+        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
 
     if (n == NULL && ctl) {
         ctl_delete_indexes(indexes);
         indexes = NULL;
-        n = ctl_find_node(ctl->root, name, indexes, &name_offset);
+        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
     }
 
     // if the appropriate node (leaf or subtree) is not found, then return error
-- 
2.43.0


From 11b7ca6303a416508592c532875dc4da2ab42d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 37/82] fix: CTL: report the result of the queried pool or
 provider

---
 src/memory_pool.c     | 5 +++--
 src/memory_provider.c | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index c948823..654b379 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -30,8 +30,9 @@ static int CTL_SUBTREE_HANDLER(by_handle_pool)(void *ctx,
                                                umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_pool_handle_t hPool = (umf_memory_pool_handle_t)ctx;
-    hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
-    return 0;
+    umf_result_t ret =
+        hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
+    return ret == UMF_RESULT_SUCCESS ? 0 : -1;
 }
 
 umf_ctl_node_t CTL_NODE(pool)[] = {CTL_LEAF_SUBTREE2(by_handle, by_handle_pool),
diff --git a/src/memory_provider.c b/src/memory_provider.c
index dd58458..9297ca0 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -27,9 +27,9 @@ static int CTL_SUBTREE_HANDLER(by_handle_provider)(
     umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_provider_handle_t hProvider = (umf_memory_provider_handle_t)ctx;
-    hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name, arg,
-                       queryType);
-    return 0;
+    umf_result_t ret = hProvider->ops.ctl(
+        hProvider->provider_priv, /*unused*/ 0, extra_name, arg, queryType);
+    return ret == UMF_RESULT_SUCCESS ? 0 : -1;
 }
 
 umf_ctl_node_t CTL_NODE(provider)[] = {
-- 
2.43.0


From 65868d98818d7b2a274d9b29ce5c223d206fbdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 38/82] fix: CTL: do not read more of a configuration file than
 fits in the buffer

---
 src/ctl/ctl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 927e728..3d28f0f 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -561,7 +561,8 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
         size_t bufpos = 0;
         int c;
         int is_comment_section = 0;
-        while ((c = fgetc(fp)) != EOF) {
+        // the file may turn out to be longer than it was
+        while (bufpos < (size_t)fsize && (c = fgetc(fp)) != EOF) {
             if (c == '#') {
                 is_comment_section = 1;
             } else if (c == '\n') {
-- 
2.43.0


From d0ac6fe867e0dd191f7df3081844211522c22cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 39/82] fix: disjoint pool: update the pool's size statistic
 atomically

---
 src/pool/pool_disjoint.c          | 12 +++++++++---
 src/pool/pool_disjoint_internal.h |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index cc48631..89547e7 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -419,8 +419,14 @@ static void bucket_update_stats(bucket_t *bucket, int in_use, int in_pool) {
 
     // Increment or decrement current pool sizes based on whether
     // slab was added to or removed from pool.
-    bucket->pool->params.cur_pool_size +=
-        in_pool * bucket_slab_alloc_size(bucket);
+    // The size is shared by all buckets of the pool and this function is
+    // called with the lock of just one of them.
+    uint64_t *cur_pool_size = &bucket->pool->params.cur_pool_size;
+    if (in_pool > 0) {
+        utils_fetch_and_add_u64(cur_pool_size, bucket_slab_alloc_size(bucket));
+    } else if (in_pool < 0) {
+        utils_fetch_and_sub_u64(cur_pool_size, bucket_slab_alloc_size(bucket));
+    }
 }
 
 static bool bucket_can_pool(bucket_t *bucket) {
@@ -915,7 +921,7 @@ umf_result_t disjoint_pool_free(void *pool, void *ptr) {
                   "pool size for %s: %zu",
                   name, ptr, (to_pool ? "pool" : "provider"),
                   disjoint_pool_get_limits(disjoint_pool)->total_size, name,
-                  disjoint_pool->params.cur_pool_size);
+                  (size_t)disjoint_pool->params.cur_pool_size);
     }
 
     return UMF_RESULT_SUCCESS;
diff --git a/src/pool/pool_disjoint_internal.h b/src/pool/pool_disjoint_internal.h
index 7a63dd7..efe1c08 100644
--- a/src/pool/pool_disjoint_internal.h
+++ b/src/pool/pool_disjoint_internal.h
@@ -123,7 +123,7 @@ typedef struct umf_disjoint_pool_params_t {
     size_t min_bucket_size;
 
     // Holds size of the pool managed by the allocator.
-    size_t cur_pool_size;
+    uint64_t cur_pool_size;
 
     // Whether to print pool usage statistics
     int pool_trace;
-- 
2.43.0


From 888cd4237a3dbf736ebe4747a5c76be6d0b60d99 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 40/82] fix: disjoint pool: do not read a slab that another
 thread destroys

---
 src/pool/pool_disjoint.c          | 39 ++++++++++++++++++++++++-------
 src/pool/pool_disjoint_internal.h |  3 +++
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 89547e7..06bfb88 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -210,9 +210,9 @@ static umf_result_t pool_register_slab(disjoint_pool_t *pool, slab_t *slab) {
     // TODO ASSERT_IS_ALIGNED((uintptr_t)slab_addr, bucket->size);
     LOG_DEBUG("slab: %p, start: %p", (void *)slab, slab_addr);
 
-    // NOTE: we don't need to lock the slabs map as the critnib already has a
-    // lock inside it
+    utils_write_lock(&pool->known_slabs_lock);
     int ret = critnib_insert(slabs, (uintptr_t)slab_addr, slab, 0);
+    utils_write_unlock(&pool->known_slabs_lock);
     umf_result_t res = UMF_RESULT_SUCCESS;
     if (ret == ENOMEM) {
         LOG_ERR("register failed because of out of memory!");
@@ -232,11 +232,29 @@ static umf_result_t pool_unregister_slab(disjoint_pool_t *pool, slab_t *slab) {
     // TODO ASSERT_IS_ALIGNED((uintptr_t)slab_addr, bucket->size);
     LOG_DEBUG("slab: %p, start: %p", (void *)slab, slab_addr);
 
+    utils_write_lock(&pool->known_slabs_lock);
     critnib_remove(slabs, (uintptr_t)slab_addr);
+    utils_write_unlock(&pool->known_slabs_lock);
 
     return UMF_RESULT_SUCCESS;
 }
 
+// Find the slab that 'ptr' belongs to or return NULL if there is no such slab.
+// NOTE: the closest slab on the left may belong to another thread and it can be
+// destroyed at any time, so it must not be accessed without the lock until it
+// is known that 'ptr' (which is in use) belongs to it.
+static slab_t *pool_find_slab(disjoint_pool_t *pool, const void *ptr) {
+    utils_read_lock(&pool->known_slabs_lock);
+    slab_t *slab =
+        (slab_t *)critnib_find_le(pool->known_slabs, (uintptr_t)ptr);
+    if (slab != NULL && ptr >= slab_get_end(slab)) {
+        slab = NULL;
+    }
+    utils_read_unlock(&pool->known_slabs_lock);
+
+    return slab;
+}
+
 static bucket_t *
 create_bucket(size_t sz, disjoint_pool_t *pool,
               umf_disjoint_pool_shared_limits_handle_t shared_limits) {
@@ -620,6 +638,11 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
         goto err_free_disjoint_pool;
     }
 
+    if (utils_rwlock_init(&disjoint_pool->known_slabs_lock) == NULL) {
+        critnib_delete(disjoint_pool->known_slabs);
+        goto err_free_disjoint_pool;
+    }
+
     // Generate buckets sized such as: 64, 96, 128, 192, ..., CutOff.
     // Powers of 2 and the value halfway between the powers of 2.
     size_t Size1 = disjoint_pool->params.min_bucket_size;
@@ -694,6 +717,7 @@ err_free_shared_limits:
     umfDisjointPoolSharedLimitsDestroy(disjoint_pool->default_shared_limits);
 
 err_free_known_slabs:
+    utils_rwlock_destroy_not_free(&disjoint_pool->known_slabs_lock);
     critnib_delete(disjoint_pool->known_slabs);
 
 err_free_disjoint_pool:
@@ -831,9 +855,8 @@ size_t disjoint_pool_malloc_usable_size(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    slab_t *slab = pool_find_slab(disjoint_pool, ptr);
+    if (slab == NULL) {
         // memory comes directly from the provider
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
         umf_result_t ret = umfMemoryTrackerGetAllocInfo(ptr, &allocInfo);
@@ -860,10 +883,9 @@ umf_result_t disjoint_pool_free(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
+    slab_t *slab = pool_find_slab(disjoint_pool, ptr);
 
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    if (slab == NULL) {
 
         // regular free
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
@@ -948,6 +970,7 @@ void disjoint_pool_finalize(void *pool) {
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
     umfDisjointPoolSharedLimitsDestroy(hPool->default_shared_limits);
+    utils_rwlock_destroy_not_free(&hPool->known_slabs_lock);
     critnib_delete(hPool->known_slabs);
 
     umf_ba_global_free(hPool);
diff --git a/src/pool/pool_disjoint_internal.h b/src/pool/pool_disjoint_internal.h
index efe1c08..9dfeab2 100644
--- a/src/pool/pool_disjoint_internal.h
+++ b/src/pool/pool_disjoint_internal.h
@@ -142,6 +142,9 @@ typedef struct disjoint_pool_t {
     // free()
     critnib *known_slabs; // (void *, slab_t *)
 
+    // Taken for writing to change the list and for reading to look for a slab
+    utils_rwlock_t known_slabs_lock;
+
     // Handle to the memory provider
     umf_memory_provider_handle_t provider;
 
-- 
2.43.0


From 1634993fc506eb3a3133ec2675ee7321ca68e552 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:38:04 +0000
Subject: [PATCH 41/82] fix: OS provider: free the node set of a split
 allocation whose binding failed

---
 src/provider/provider_os_memory.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 25d340c..61e9bf6 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1076,16 +1076,21 @@ static membind_t membindFirst(os_memory_provider_t *provider, void *addr,
     return membind;
 }
 
+// Release the resources of the membind iterator
+static void membindFinish(os_memory_provider_t *provider, membind_t *membind) {
+    if (provider->mode == UMF_NUMA_MODE_SPLIT && provider->nodeset_len != 1) {
+        hwloc_bitmap_free(membind->bitmap);
+        membind->bitmap = NULL;
+    }
+}
+
 static membind_t membindNext(os_memory_provider_t *provider,
                              membind_t membind) {
     membind.alloc_size -= membind.bind_size;
     membind.addr += membind.bind_size;
     if (membind.alloc_size == 0) {
         membind.bind_size = 0;
-        if (provider->mode == UMF_NUMA_MODE_SPLIT &&
-            provider->nodeset_len != 1) {
-            hwloc_bitmap_free(membind.bitmap);
-        }
+        membindFinish(provider, &membind);
         return membind;
     }
     assert(provider->nodeset_len != 1);
@@ -1180,6 +1185,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    membindFinish(os_provider, &membind);
                     goto err_unmap;
                 }
             }
-- 
2.43.0


From d92e97fdbb8b3838b934f0b7d792edf0aa92b66e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:38:32 +0000
Subject: [PATCH 42/82] fix: OS provider: free the list of node sets with its
 own allocator

---
 src/provider/provider_os_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 61e9bf6..29844b2 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -326,7 +326,8 @@ err_free_bitmaps:
         hwloc_bitmap_free(out_nodeset[i]);
     }
 err_free_list:
-    umf_ba_global_free(*out_nodeset);
+    umf_ba_global_free(out_nodeset);
+    os_provider->nodeset = NULL;
     os_provider->nodeset_len = 0;
     return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 }
-- 
2.43.0


From 402d2fadca6b28f03af55ad87c27303b550b88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 43/82] fix: OS provider: refuse to be created without memory
 for the partitions

---
 src/provider/provider_os_memory.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 29844b2..c0d111d 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -661,7 +661,12 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("error while initializing partitions");
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From f92013e2ad5e68e96f12d328c045c74b0e904052 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 44/82] fix: memspace: filter without using removed targets

---
 src/memspace.c | 56 +++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 1cd80e1..e578c7b 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -437,48 +437,44 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    size_t idx = 0;
-    int ret;
-    umf_memtarget_handle_t *nodesToRemove =
-        umf_ba_global_alloc(sizeof(*nodesToRemove) * memspace->size);
-    if (!nodesToRemove) {
+    if (memspace->size == 0) {
+        return UMF_RESULT_SUCCESS; // there is nothing to filter out
+    }
+
+    // Targets that stay are collected at the beginning of the array, targets
+    // to be removed at its end. The memspace is modified only when the filter
+    // accepted or rejected all of the targets.
+    umf_memtarget_handle_t *newNodes =
+        umf_ba_global_alloc(sizeof(*newNodes) * memspace->size);
+    if (!newNodes) {
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
-    for (size_t i = 0; i < memspace->size; i++) {
-        ret = filter(memspace, memspace->nodes[i], args);
+    const size_t oldSize = memspace->size;
+    size_t kept = 0;
+    size_t removed = 0;
+    for (size_t i = 0; i < oldSize; i++) {
+        int ret = filter(memspace, memspace->nodes[i], args);
         if (ret < 0) {
             LOG_ERR("filter function failed");
-            goto free_mem;
+            umf_ba_global_free(newNodes);
+            return ret;
         } else if (ret == 0) {
-            nodesToRemove[idx++] = memspace->nodes[i];
+            newNodes[oldSize - ++removed] = memspace->nodes[i];
+        } else {
+            newNodes[kept++] = memspace->nodes[i];
         }
     }
 
-    size_t i = 0;
-    for (; i < idx; i++) {
-        ret = umfMemspaceMemtargetRemove(memspace, nodesToRemove[i]);
-        if (ret != UMF_RESULT_SUCCESS) {
-            goto re_add;
-        }
+    umf_ba_global_free(memspace->nodes);
+    memspace->nodes = newNodes;
+    memspace->size = kept;
+
+    for (size_t i = kept; i < oldSize; i++) {
+        umfMemtargetDestroy(newNodes[i]);
     }
 
-    umf_ba_global_free(nodesToRemove);
     return UMF_RESULT_SUCCESS;
-
-re_add:
-    // If target removal failed, add back previously removed targets.
-    for (size_t j = 0; j < i; j++) {
-        umf_result_t ret2 = umfMemspaceMemtargetAdd(memspace, nodesToRemove[j]);
-        if (ret2 != UMF_RESULT_SUCCESS) {
-            ret =
-                UMF_RESULT_ERROR_UNKNOWN; // indicate that memspace is corrupted
-            break;
-        }
-    }
-free_mem:
-    umf_ba_global_free(nodesToRemove);
-    return ret;
 }
 
 umf_result_t umfMemspaceUserFilter(umf_memspace_handle_t memspace,
-- 
2.43.0


From e86547766f3480c5af16092092cf9c2e8389aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 45/82] fix: memspace: let the last target be removed

---
 src/memspace.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index e578c7b..7761b4a 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -408,10 +408,14 @@ umfMemspaceMemtargetRemove(umf_memspace_handle_t hMemspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    umf_memtarget_handle_t *newNodes =
-        umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
-    if (!newNodes) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    // the last target leaves an empty memspace, without the array of targets
+    umf_memtarget_handle_t *newNodes = NULL;
+    if (hMemspace->size > 1) {
+        newNodes =
+            umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
+        if (!newNodes) {
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
     }
 
     for (unsigned j = 0, z = 0; j < hMemspace->size; j++) {
-- 
2.43.0


From 50e951ab3a82b3ca2df7b890fcdcbd55fd429eff Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 46/82] fix: memspace: let an empty memspace be cloned

---
 src/memspace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/memspace.c b/src/memspace.c
index 7761b4a..e8e8063 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -153,6 +153,12 @@ umf_result_t umfMemspaceClone(umf_const_memspace_handle_t hMemspace,
     }
 
     clone->size = hMemspace->size;
+    clone->nodes = NULL;
+    if (clone->size == 0) {
+        *outHandle = clone;
+        return UMF_RESULT_SUCCESS;
+    }
+
     clone->nodes =
         umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
     if (!clone->nodes) {
-- 
2.43.0


From 945fddcf099bf810fc20c4c5e206102afdb75225 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 47/82] fix: memspace: destroy the targets before freeing their
 array

---
 src/memspaces/memspace_numa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index 83e65fc..b9a9765 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -67,10 +67,10 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
     return UMF_RESULT_SUCCESS;
 
 err_target_create:
-    umf_ba_global_free(memspace->nodes);
     for (size_t i = 0; i < nodeIdx; i++) {
         umfMemtargetDestroy(memspace->nodes[i]);
     }
+    umf_ba_global_free(memspace->nodes);
 err_nodes_alloc:
     umf_ba_global_free(memspace);
     return ret;
-- 
2.43.0


From 48beb9e8d1ecbf767e45d54ca863fff2cbf5cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 48/82] fix: memtarget: look NUMA nodes up by their physical id

---
 src/memtargets/memtarget_numa.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memtargets/memtarget_numa.c b/src/memtargets/memtarget_numa.c
index 88d8ac2..1ae6e9a 100644
--- a/src/memtargets/memtarget_numa.c
+++ b/src/memtargets/memtarget_numa.c
@@ -263,16 +263,16 @@ static umf_result_t query_attribute_value(void *srcMemoryTarget,
         return UMF_RESULT_ERROR_NOT_SUPPORTED;
     }
 
-    hwloc_obj_t srcNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
+    hwloc_obj_t srcNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology,
         ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
     if (!srcNumaNode) {
         LOG_PERR("Getting HWLOC object by type failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hwloc_obj_t dstNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
+    hwloc_obj_t dstNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology,
         ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
     if (!dstNumaNode) {
         LOG_PERR("Getting HWLOC object by type failed");
-- 
2.43.0


From 4d46bb7bddac01252f7b91de83ad6f56e2b6a347 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 49/82] fix: mempolicy: keep a copy of the partitions

---
 src/mempolicy.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/mempolicy.c b/src/mempolicy.c
index 1b78053..f97519d 100644
--- a/src/mempolicy.c
+++ b/src/mempolicy.c
@@ -6,6 +6,9 @@
  * SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
  *
  */
+#include <stdint.h>
+#include <string.h>
+
 #include <umf/mempolicy.h>
 
 #include "base_alloc_global.h"
@@ -27,6 +30,7 @@ umf_result_t umfMempolicyCreate(umf_mempolicy_membind_t bind,
     if (bind == UMF_MEMPOLICY_INTERLEAVE) {
         (*policy)->ops.interleave.part_size = 0;
     } else if (bind == UMF_MEMPOLICY_SPLIT) {
+        (*policy)->ops.split.part = NULL;
         (*policy)->ops.split.part_len = 0;
     }
 
@@ -34,6 +38,9 @@ umf_result_t umfMempolicyCreate(umf_mempolicy_membind_t bind,
 }
 
 umf_result_t umfMempolicyDestroy(umf_mempolicy_handle_t policy) {
+    if (policy && policy->type == UMF_MEMPOLICY_SPLIT) {
+        umf_ba_global_free(policy->ops.split.part);
+    }
     umf_ba_global_free(policy);
     return UMF_RESULT_SUCCESS;
 }
@@ -63,7 +70,21 @@ umfMempolicySetCustomSplitPartitions(umf_mempolicy_handle_t policy,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    policy->ops.split.part = partList;
+    umf_mempolicy_split_partition_t *part = NULL;
+    if (partList && partListLen > 0) {
+        if (partListLen > SIZE_MAX / sizeof(*part)) {
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        }
+
+        part = umf_ba_global_alloc(partListLen * sizeof(*part));
+        if (part == NULL) {
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
+        memcpy(part, partList, partListLen * sizeof(*part));
+    }
+
+    umf_ba_global_free(policy->ops.split.part);
+    policy->ops.split.part = part;
     policy->ops.split.part_len = partListLen;
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 06ced3f93d18852b7fac14f464eb09f264578687 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 50/82] fix: linear base allocator: align memory as malloc()
 has to

---
 src/base_alloc/base_alloc_linear.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index d00539a..9193cc2 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -23,8 +23,9 @@
 // minimum size of a single pool of the linear base allocator
 #define MINIMUM_LINEAR_POOL_SIZE (ba_os_get_page_size())
 
-// alignment of the linear base allocator
-#define MEMORY_ALIGNMENT (sizeof(uintptr_t))
+// alignment of the linear base allocator - the proxy library uses it
+// as malloc(), so the memory has to be aligned for any type
+#define MEMORY_ALIGNMENT (2 * sizeof(uintptr_t))
 
 typedef struct umf_ba_next_linear_pool_t umf_ba_next_linear_pool_t;
 
-- 
2.43.0


From 0f50d4b4ac4e01135a6f87f02c58175fc8b9c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 51/82] fix: proxy library: refuse sizes that overflow before
 the pool is created

---
 src/proxy_lib/proxy_lib.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index ccb60f8..89a7b9e 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -45,6 +45,7 @@
 
 #include <assert.h>
 #include <limits.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #include <umf/memory_pool.h>
@@ -315,6 +316,9 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
+    if (size > SIZE_MAX - alignment) {
+        return NULL; // the size with the alignment does not fit in size_t
+    }
     void *ptr = umf_ba_linear_alloc(Base_alloc_leak, size + alignment);
     return (void *)ALIGN_UP_SAFE((uintptr_t)ptr, alignment);
 }
@@ -327,6 +331,9 @@ static inline void *ba_leak_calloc(size_t nmemb, size_t size) {
     ba_leak_init_once();
     // umf_ba_linear_alloc() returns zeroed memory
     // so ba_leak_aligned_alloc() does too
+    if (size != 0 && nmemb > SIZE_MAX / size) {
+        return NULL; // the total size does not fit in size_t
+    }
     return ba_leak_aligned_alloc(0, nmemb * size);
 }
 
-- 
2.43.0


From 53265536184d37d384ec7fe21e986d603035c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 52/82] fix: coarse: do not leave an empty list of free blocks

---
 src/coarse/coarse.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 7df51c4..e5c8978 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -347,7 +347,15 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
 
     block->free_list_ptr = node_list_add(head_node, block);
     if (!block->free_list_ptr) {
-        return -1; // out of memory
+        // out of memory - do not leave an empty list in the tree
+        if (head_node->head == NULL) {
+            node = ravl_find(free_blocks, &head_node_data, RAVL_PREDICATE_EQUAL);
+            assert(node);
+            ravl_remove(free_blocks, node);
+            umf_ba_global_free(head_node);
+        }
+
+        return -1;
     }
 
     assert(block->free_list_ptr->block->size == block->size);
-- 
2.43.0


From fd2710f80f916d2026b8abba1fd25c2aab0eb303 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 53/82] fix: coarse: do not lose blocks when there is no memory
 to describe them

---
 src/coarse/coarse.c | 113 ++++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 41 deletions(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index e5c8978..42c6d85 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -50,6 +50,10 @@ typedef struct coarse_t {
     // to the head of the list of free blocks of the same size
     struct ravl *free_blocks;
 
+    // set if there can be free blocks in the all_blocks tree, which could not
+    // be added to the free_blocks tree, because there was no memory for it
+    bool unlisted_blocks;
+
     struct utils_mutex_t lock;
 
     // statistics
@@ -492,6 +496,31 @@ static umf_result_t user_block_merge(coarse_t *coarse, ravl_node_t *node1,
     return UMF_RESULT_SUCCESS;
 }
 
+// coarse_list_free_block - add the free block to the tree of free blocks.
+// If there is no memory for it, the block is added later
+// (see coarse_list_unlisted_blocks()).
+static void coarse_list_free_block(coarse_t *coarse, block_t *block) {
+    if (free_blocks_add(coarse->free_blocks, block)) {
+        coarse->unlisted_blocks = true;
+    }
+}
+
+static void ravl_cb_list_free_block(void *data, void *arg) {
+    ravl_data_t *node_data = data;
+    block_t *block = node_data->value;
+
+    if (!block->used && !block->free_list_ptr) {
+        coarse_list_free_block((coarse_t *)arg, block);
+    }
+}
+
+// coarse_list_unlisted_blocks - add free blocks, that could not be added
+// to the tree of free blocks before
+static void coarse_list_unlisted_blocks(coarse_t *coarse) {
+    coarse->unlisted_blocks = false;
+    ravl_foreach(coarse->all_blocks, ravl_cb_list_free_block, coarse);
+}
+
 // free_block_merge_with_prev - merge the given free block
 // with the previous one if both are unused and have continuous data.
 // Remove the merged block from the tree of free blocks.
@@ -566,7 +595,10 @@ static void debug_verify_all_blocks_cb(void *data, void *arg) {
 
     cb_args->num_all_blocks++;
     if (!block->used) {
-        cb_args->num_free_blocks++;
+        assert(block->free_list_ptr || provider->unlisted_blocks);
+        if (block->free_list_ptr) {
+            cb_args->num_free_blocks++;
+        }
     }
 
     assert(block->data);
@@ -681,7 +713,6 @@ static umf_result_t can_provider_split(coarse_t *coarse, void *ptr,
 static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
                                          size_t alignment, block_t **current) {
     (void)orig_size; // unused in the Release version
-    int rv;
 
     block_t *curr = *current;
 
@@ -690,13 +721,6 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
     uintptr_t aligned_data = ALIGN_UP(orig_data, alignment);
     size_t padding = aligned_data - orig_data;
     if (alignment > 0 && padding > 0) {
-        // check if block can be split by the upstream provider
-        umf_result_t umf_result =
-            can_provider_split(coarse, curr->data, curr->size, padding);
-        if (umf_result != UMF_RESULT_SUCCESS) {
-            return umf_result;
-        }
-
         block_t *aligned_block =
             coarse_ravl_add_new(coarse->all_blocks, curr->data + padding,
                                 curr->size - padding, NULL);
@@ -704,13 +728,19 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
             return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
+        // check if block can be split by the upstream provider
+        umf_result_t umf_result =
+            can_provider_split(coarse, curr->data, curr->size, padding);
+        if (umf_result != UMF_RESULT_SUCCESS) {
+            coarse_ravl_rm(coarse->all_blocks, aligned_block->data);
+            umf_ba_global_free(aligned_block);
+            return umf_result;
+        }
+
         curr->used = false;
         curr->size = padding;
 
-        rv = free_blocks_add(coarse->free_blocks, curr);
-        if (rv) {
-            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-        }
+        coarse_list_free_block(coarse, curr);
 
         // use aligned block
         *current = aligned_block;
@@ -723,14 +753,6 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
 // Split the current block and put the new block after the one that we use.
 static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
                                         size_t size) {
-
-    // check if block can be split by the upstream provider
-    umf_result_t umf_result =
-        can_provider_split(coarse, curr->data, curr->size, size);
-    if (umf_result != UMF_RESULT_SUCCESS) {
-        return umf_result;
-    }
-
     ravl_node_t *new_node = NULL;
 
     block_t *new_block = coarse_ravl_add_new(
@@ -739,12 +761,18 @@ static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
+    // check if block can be split by the upstream provider
+    umf_result_t umf_result =
+        can_provider_split(coarse, curr->data, curr->size, size);
+    if (umf_result != UMF_RESULT_SUCCESS) {
+        coarse_ravl_rm(coarse->all_blocks, new_block->data);
+        umf_ba_global_free(new_block);
+        return umf_result;
+    }
+
     new_block->used = false;
 
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(new_node));
-    if (rv) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    coarse_list_free_block(coarse, get_node_block(new_node));
 
     return UMF_RESULT_SUCCESS;
 }
@@ -807,7 +835,7 @@ static block_t *find_free_block(struct ravl *free_blocks, size_t size,
     return NULL;
 }
 
-static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
+static void free_blocks_re_add(coarse_t *coarse, block_t *block) {
     assert(coarse);
 
     ravl_node_t *node = coarse_ravl_find_node(coarse->all_blocks, block->data);
@@ -817,7 +845,7 @@ static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    return free_blocks_add(coarse->free_blocks, get_node_block(node));
+    coarse_list_free_block(coarse, get_node_block(node));
 }
 
 static void ravl_cb_count(void *data, void *arg) {
@@ -1062,6 +1090,10 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
 
     assert(debug_check(coarse));
 
+    if (coarse->unlisted_blocks) {
+        coarse_list_unlisted_blocks(coarse);
+    }
+
     // Find a block with greater or equal size using the given memory allocation strategy
     block_t *curr = find_free_block(coarse->free_blocks, size, alignment,
                                     coarse->allocation_strategy);
@@ -1083,7 +1115,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
         if (alignment > 0) {
             umf_result = create_aligned_block(coarse, size, alignment, &curr);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
         }
@@ -1092,7 +1124,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
             // Split the current block and put the new block after the one that we use.
             umf_result = split_current_block(coarse, curr, size);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
 
@@ -1139,6 +1171,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
         if (coarse->cb.free) {
             coarse->cb.free(coarse->provider, *resultPtr, size);
         }
+        *resultPtr = NULL;
         goto err_unlock;
     }
 
@@ -1203,11 +1236,7 @@ umf_result_t coarse_free(coarse_t *coarse, void *ptr, size_t bytes) {
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(node));
-    if (rv) {
-        utils_mutex_unlock(&coarse->lock);
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    coarse_list_free_block(coarse, get_node_block(node));
 
     assert(debug_check(coarse));
     utils_mutex_unlock(&coarse->lock);
@@ -1329,13 +1358,6 @@ umf_result_t coarse_split(coarse_t *coarse, void *ptr, size_t totalSize,
         goto err_mutex_unlock;
     }
 
-    // check if block can be split by the memory provider
-    umf_result = can_provider_split(coarse, ptr, totalSize, firstSize);
-    if (umf_result != UMF_RESULT_SUCCESS) {
-        LOG_ERR("memory provider cannot split a memory block");
-        goto err_mutex_unlock;
-    }
-
     umf_result = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 
     block_t *new_block =
@@ -1345,6 +1367,15 @@ umf_result_t coarse_split(coarse_t *coarse, void *ptr, size_t totalSize,
         goto err_mutex_unlock;
     }
 
+    // check if block can be split by the memory provider
+    umf_result = can_provider_split(coarse, ptr, totalSize, firstSize);
+    if (umf_result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("memory provider cannot split a memory block");
+        coarse_ravl_rm(coarse->all_blocks, new_block->data);
+        umf_ba_global_free(new_block);
+        goto err_mutex_unlock;
+    }
+
     block->size = firstSize;
     new_block->used = true;
 
-- 
2.43.0


From ba4cb28ad6622202bad1a21b652b5074e9935244 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:58 +0000
Subject: [PATCH 54/82] fix: tracking provider: release the caches when its
 creation fails

---
 src/provider/provider_tracking.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index b25a3b4..654c244 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1219,6 +1219,11 @@ umf_result_t umfTrackingMemoryProviderCreate(
 
     params.hIpcMappedCache =
         umfIpcOpenedCacheCreate(ipcOpenedCacheEvictionCallback);
+    if (!params.hIpcMappedCache) {
+        LOG_ERR("failed to create the cache of opened IPC handles");
+        critnib_delete(params.ipcCache);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
 
     LOG_DEBUG("upstream=%p, tracker=%p, "
               "pool=%p, ipcCache=%p, hIpcMappedCache=%p",
@@ -1226,8 +1231,14 @@ umf_result_t umfTrackingMemoryProviderCreate(
               (void *)params.pool, (void *)params.ipcCache,
               (void *)params.hIpcMappedCache);
 
-    return umfMemoryProviderCreate(&UMF_TRACKING_MEMORY_PROVIDER_OPS, &params,
-                                   hTrackingProvider);
+    umf_result_t ret = umfMemoryProviderCreate(
+        &UMF_TRACKING_MEMORY_PROVIDER_OPS, &params, hTrackingProvider);
+    if (ret != UMF_RESULT_SUCCESS) {
+        umfIpcOpenedCacheDestroy(params.hIpcMappedCache);
+        critnib_delete(params.ipcCache);
+    }
+
+    return ret;
 }
 
 void umfTrackingMemoryProviderGetUpstreamProvider(
-- 
2.43.0


From 61851fe4bdb9c1c61615a85640408aad244b112c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:58 +0000
Subject: [PATCH 55/82] fix: tracking provider: undo the split when it cannot
 be tracked

---
 src/provider/provider_tracking.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 654c244..dbd77c5 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -615,9 +615,13 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         assert(cret == 0);
         (void)cret;
         utils_mutex_unlock(&provider->hTracker->segmentsMutex);
-        // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
-        // so it's unlikely but probably the best solution would be to try to preallocate everything
-        // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
+        // This can only happen due to ENOMEM. The region is not split
+        // in the tracker, so it cannot be split in the upstream provider.
+        if (umfMemoryProviderAllocationMerge(provider->hUpstream, ptr, highPtr,
+                                             totalSize) !=
+            UMF_RESULT_SUCCESS) {
+            LOG_ERR("upstream provider failed to merge the split region back");
+        }
         goto err;
     }
 
-- 
2.43.0


From 192fee15c9a1c617ebab40260ad4deb17cce081c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 56/82] fix: OS provider: fail the allocation whose file offset
 cannot be stored

---
 src/provider/provider_os_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index c0d111d..0f89dc4 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1208,6 +1208,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
             LOG_ERR("os_alloc(): inserting a value to the file descriptor "
                     "offset map failed (addr=%p, offset=%zu)",
                     addr, fd_offset);
+            (void)utils_munmap(addr, size);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
     }
 
-- 
2.43.0


From 838542bfd962619864a19807103a318dfa3355e1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 57/82] fix: file provider: fail the allocation whose mapping
 cannot be stored

---
 src/provider/provider_file_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 89584df..a39a5b2 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -396,6 +396,8 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         LOG_ERR("inserting a value to the map of memory mapping failed "
                 "(addr=%p, size=%zu)",
                 ptr, extended_size);
+        (void)utils_munmap(ptr, extended_size);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     LOG_DEBUG(
-- 
2.43.0


From 9264bb280016d9933823c5cfe31dced0503e8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 58/82] fix: critnib: do not allocate memory to update a value

---
 src/critnib/critnib.c | 47 +++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 999d605..99a5621 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -310,6 +310,27 @@ static struct critnib_leaf *alloc_leaf(struct critnib *__restrict c) {
 int critnib_insert(struct critnib *c, word key, void *value, int update) {
     utils_mutex_lock(&c->mutex);
 
+    struct critnib_node *n = c->root;
+    struct critnib_node **parent = &c->root;
+    struct critnib_node *prev = c->root;
+
+    while (n && !is_leaf(n) && (key & path_mask(n->shift)) == n->path) {
+        prev = n;
+        parent = &n->child[slice_index(key, n->shift)];
+        n = *parent;
+    }
+
+    if (n && is_leaf(n) && to_leaf(n)->key == key) {
+        /* nothing to allocate, so updating of a value cannot fail */
+        if (update) {
+            to_leaf(n)->value = value;
+        }
+
+        utils_mutex_unlock(&c->mutex);
+
+        return update ? 0 : EEXIST;
+    }
+
     struct critnib_leaf *k = alloc_leaf(c);
     if (!k) {
         utils_mutex_unlock(&c->mutex);
@@ -324,22 +345,12 @@ int critnib_insert(struct critnib *c, word key, void *value, int update) {
 
     struct critnib_node *kn = (void *)((word)k | 1);
 
-    struct critnib_node *n = c->root;
-    if (!n) {
+    if (!c->root) {
         utils_atomic_store_release_ptr((void **)&c->root, kn);
         utils_mutex_unlock(&c->mutex);
         return 0;
     }
 
-    struct critnib_node **parent = &c->root;
-    struct critnib_node *prev = c->root;
-
-    while (n && !is_leaf(n) && (key & path_mask(n->shift)) == n->path) {
-        prev = n;
-        parent = &n->child[slice_index(key, n->shift)];
-        n = *parent;
-    }
-
     if (!n) {
         n = prev;
         utils_atomic_store_release_ptr(
@@ -353,19 +364,7 @@ int critnib_insert(struct critnib *c, word key, void *value, int update) {
     word path = is_leaf(n) ? to_leaf(n)->key : n->path;
     /* Find where the path differs from our key. */
     word at = path ^ key;
-    if (!at) {
-        ASSERT(is_leaf(n));
-        free_leaf(c, to_leaf(kn));
-
-        if (update) {
-            to_leaf(n)->value = value;
-            utils_mutex_unlock(&c->mutex);
-            return 0;
-        } else {
-            utils_mutex_unlock(&c->mutex);
-            return EEXIST;
-        }
-    }
+    ASSERT(at);
 
     /* and convert that to an index. */
     sh_t sh = utils_msb64(at) & (sh_t) ~(SLICE - 1);
-- 
2.43.0


From ba06a874b2e1e35367f71dcc8cedfbd824bdb769 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:29:18 +0000
Subject: [PATCH 59/82] fix: level zero: free memory that cannot be made
 resident

---
 src/provider/provider_level_zero.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a4c68b3..9046ca0 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -419,6 +419,9 @@ static ze_relaxed_allocation_limits_exp_desc_t relaxed_device_allocation_desc =
      .pNext = NULL,
      .flags = ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE};
 
+static umf_result_t ze_memory_provider_free(void *provider, void *ptr,
+                                            size_t bytes);
+
 static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
                                              size_t alignment,
                                              void **resultPtr) {
@@ -481,6 +484,9 @@ static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
             ze_provider->context, ze_provider->resident_device_handles[i],
             *resultPtr, size);
         if (ze_result != ZE_RESULT_SUCCESS) {
+            LOG_ERR("making the memory resident failed");
+            ze_memory_provider_free(ze_provider, *resultPtr, size);
+            *resultPtr = NULL;
             return ze2umf_result(ze_result);
         }
     }
-- 
2.43.0


From a8dec1395d780e4ebc737b2df5e1c71790716340 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:29:18 +0000
Subject: [PATCH 60/82] fix: level zero: release the provider when creation
 fails at the end

---
 src/provider/provider_level_zero.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 9046ca0..789b79c 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -635,7 +635,7 @@ static umf_result_t ze_memory_provider_initialize(void *params,
     umf_result_t result =
         query_min_page_size(ze_provider, &ze_provider->min_page_size);
     if (result != UMF_RESULT_SUCCESS) {
-        ze_memory_provider_finalize(provider);
+        ze_memory_provider_finalize(ze_provider);
         return result;
     }
 
-- 
2.43.0


From f488d3366601360e8d10d43c3ea167548619c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:29:18 +0000
Subject: [PATCH 61/82] fix: level zero: set the message of the last native
 error

---
 src/provider/provider_level_zero.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 789b79c..d561d2d 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -654,6 +654,8 @@ static void ze_memory_provider_get_last_native_error(void *provider,
         return;
     }
 
+    // there is no text for Level Zero errors
+    *ppMessage = "";
     *pError = TLS_last_native_error;
 }
 
-- 
2.43.0


From 9a1cc3d0013395970dfa6b2c83860c1fdcbe62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:29:18 +0000
Subject: [PATCH 62/82] fix: level zero: refuse a free policy the loader has no
 call for

---
 src/provider/provider_level_zero.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index d561d2d..34d8602 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -582,6 +582,13 @@ static umf_result_t ze_memory_provider_initialize(void *params,
         return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
     }
 
+    if (g_ze_ops.zeMemFreeExt == NULL &&
+        umfFreePolicyToZePolicy(ze_params->freePolicy) != 0) {
+        // zeMemFreeExt was introduced later than the other functions
+        LOG_ERR("The free policy is not supported by the Level Zero library");
+        return UMF_RESULT_ERROR_NOT_SUPPORTED;
+    }
+
     ze_memory_provider_t *ze_provider =
         umf_ba_global_alloc(sizeof(ze_memory_provider_t));
     if (!ze_provider) {
-- 
2.43.0


From 325181f66d7f2d0f20b413d1c8be54daa60195da Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 63/82] fix: keep the CTL trees of built-in providers and pools
 in static memory

---
 src/ctl/ctl.c                     | 17 -----------------
 src/ctl/ctl.h                     | 17 +++++++++++++++++
 src/pool/pool_scalable.c          |  7 +++----
 src/provider/provider_os_memory.c |  9 ++++-----
 4 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 3d28f0f..bbd6574 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -36,8 +36,6 @@
 #include <stdio.h>
 #endif
 
-#define CTL_MAX_ENTRIES 100
-
 #define MAX_CONFIG_FILE_LEN (1 << 20) /* 1 megabyte */
 
 #define CTL_STRING_QUERY_SEPARATOR ";"
@@ -49,21 +47,6 @@
 static int ctl_global_first_free = 0;
 static umf_ctl_node_t CTL_NODE(global)[CTL_MAX_ENTRIES];
 
-/*
- * This is the top level node of the ctl tree structure. Each node can contain
- * children and leaf nodes.
- *
- * Internal nodes simply create a new path in the tree whereas child nodes are
- * the ones providing the read/write functionality by the means of callbacks.
- *
- * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
- * convenience.
- */
-struct ctl {
-    umf_ctl_node_t root[CTL_MAX_ENTRIES];
-    int first_free;
-};
-
 void *Zalloc(size_t sz) {
     void *ptr = umf_ba_global_alloc(sz);
     if (ptr) {
diff --git a/src/ctl/ctl.h b/src/ctl/ctl.h
index 968998f..6df0e87 100644
--- a/src/ctl/ctl.h
+++ b/src/ctl/ctl.h
@@ -98,6 +98,23 @@ typedef struct ctl_node {
     const struct ctl_node *children;
 } umf_ctl_node_t;
 
+#define CTL_MAX_ENTRIES 100
+
+/*
+ * This is the top level node of the ctl tree structure. Each node can contain
+ * children and leaf nodes.
+ *
+ * Internal nodes simply create a new path in the tree whereas child nodes are
+ * the ones providing the read/write functionality by the means of callbacks.
+ *
+ * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
+ * convenience.
+ */
+struct ctl {
+    umf_ctl_node_t root[CTL_MAX_ENTRIES];
+    int first_free;
+};
+
 struct ctl *ctl_new(void);
 void ctl_delete(struct ctl *stats);
 
diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index b2a6bc8..bc101a7 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -116,7 +116,7 @@ static const char *tbb_symbol[TBB_POOL_SYMBOLS_MAX] = {
 #endif
 };
 
-struct ctl *pool_scallable_ctl_root;
+static struct ctl pool_scallable_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -436,8 +436,7 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(tracking_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_pool_ctl(void) {
-    pool_scallable_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(pool_scallable_ctl_root, params);
+    CTL_REGISTER_MODULE(&pool_scallable_ctl_root, params);
 }
 
 static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
@@ -445,7 +444,7 @@ static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
     (void)operationType; // unused
     umf_memory_pool_handle_t pool_provider = (umf_memory_pool_handle_t)hPool;
     utils_init_once(&ctl_initialized, initialize_pool_ctl);
-    return ctl_query(pool_scallable_ctl_root, pool_provider,
+    return ctl_query(&pool_scallable_ctl_root, pool_provider,
                      CTL_QUERY_PROGRAMMATIC, name, query_type, arg);
 }
 
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 0f89dc4..88c69c8 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -171,7 +171,7 @@ static const char *Native_error_str[] = {
         "HWLOC topology discovery failed",
 };
 
-struct ctl *os_memory_ctl_root;
+static struct ctl os_memory_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -258,9 +258,8 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(ipc_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_os_ctl(void) {
-    os_memory_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(os_memory_ctl_root, params);
-    CTL_REGISTER_MODULE(os_memory_ctl_root, stats);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, params);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, stats);
 }
 
 static void os_store_last_native_error(int32_t native_error, int errno_value) {
@@ -1595,7 +1594,7 @@ static umf_result_t os_ctl(void *hProvider, int operationType, const char *name,
     (void)operationType; // unused
     os_memory_provider_t *os_provider = (os_memory_provider_t *)hProvider;
     utils_init_once(&ctl_initialized, initialize_os_ctl);
-    return ctl_query(os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
+    return ctl_query(&os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
                      name, query_type, arg);
 }
 
-- 
2.43.0


From 7f5ce7d0fc5466adc05a0269a8ad245763e1d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:07:30 +0000
Subject: [PATCH 64/82] fix: UMF_LOG: find an option that also occurs inside
 another one

---
 src/utils/utils_common.c | 45 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/utils/utils_common.c b/src/utils/utils_common.c
index 225c02d..2069252 100644
--- a/src/utils/utils_common.c
+++ b/src/utils/utils_common.c
@@ -60,32 +60,35 @@ char *utils_env_var_get_str(const char *envvar, const char *str) {
 const char *utils_parse_var(const char *var, const char *option,
                             const char **extraArg) {
     const char *found = strstr(var, option);
-    // ensure that found string is first on list or it's a separating semicolon
-    if (!found) {
-        return NULL;
-    }
-    // if found string is not at the beginning of var ensure it's preceded by ';'
-    if (found != var && *(found - 1) != ';') {
-        return NULL;
-    }
 
-    const char *endFound = found + strlen(option);
-    if (!extraArg) {
-        // if there is no argument, matched string should end with ';' or '\0'
-        if (*endFound != '\0' && *endFound != ';') {
-            return NULL;
+    // the string can also be a part of another option (e.g. of a path),
+    // so check all of its occurrences
+    for (; found; found = strstr(found + 1, option)) {
+        // if found string is not at the beginning of var ensure it's preceded by ';'
+        if (found != var && *(found - 1) != ';') {
+            continue;
         }
-        return found;
-    }
 
-    // check if matched string ends with ','
-    if (*endFound != ',') {
-        return NULL;
-    }
+        const char *endFound = found + strlen(option);
+        if (!extraArg) {
+            // if there is no argument, matched string should end with ';' or '\0'
+            if (*endFound != '\0' && *endFound != ';') {
+                continue;
+            }
+            return found;
+        }
+
+        // check if matched string ends with ','
+        if (*endFound != ',') {
+            continue;
+        }
 
-    *extraArg = endFound + 1;
+        *extraArg = endFound + 1;
+
+        return found;
+    }
 
-    return found;
+    return NULL;
 }
 
 int utils_copy_path(const char *in_path, char out_path[], size_t path_max) {
-- 
2.43.0


From 413b253620749d1f4bd0b6c99b81dac7b85406cb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:00:21 +0000
Subject: [PATCH 65/82] fix: file provider: do not shrink a file that is in use

---
 src/provider/provider_file_memory.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index a39a5b2..d1753ea 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -226,7 +226,17 @@ static umf_result_t file_initialize(void *params, void **provider) {
         goto err_free_file_provider;
     }
 
-    if (utils_set_file_size(file_provider->fd, FSDAX_PAGE_SIZE_2MB)) {
+    size_t file_size = 0;
+    if (utils_get_file_size(file_provider->fd, &file_size)) {
+        LOG_ERR("cannot get size of the file: %s", in_params->path);
+        ret = UMF_RESULT_ERROR_UNKNOWN;
+        goto err_close_fd;
+    }
+
+    // do not shrink the file, memory of other providers (e.g. of a producer
+    // of IPC handles) can be mapped to it
+    if (file_size < FSDAX_PAGE_SIZE_2MB &&
+        utils_set_file_size(file_provider->fd, FSDAX_PAGE_SIZE_2MB)) {
         LOG_ERR("cannot set size of the file: %s", in_params->path);
         ret = UMF_RESULT_ERROR_UNKNOWN;
         goto err_close_fd;
-- 
2.43.0


From d949f73eaf566c200da2521b54628ffcfd7f7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 66/82] fix: umfInit: build the global CTL tree only once

---
 src/libumf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libumf.c b/src/libumf.c
index 7c10402..4d025fa 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -30,7 +30,14 @@ static uint64_t umfRefCount = 0;
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
-void initialize_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
+static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
+
+static void register_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
+
+// The global CTL tree outlives umfTearDown(), so it is built only once.
+void initialize_global_ctl(void) {
+    utils_init_once(&ctl_initialized, register_global_ctl);
+}
 
 int umfInit(void) {
     if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
-- 
2.43.0


From 28e51f7510c2e9db1bcfbe1ef1b85df0bc128f35 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 67/82] fix: umfInit: undo a failed initialization

---
 src/libumf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libumf.c b/src/libumf.c
index 4d025fa..96e23b8 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -45,7 +45,7 @@ int umfInit(void) {
         TRACKER = umfMemoryTrackerCreate();
         if (!TRACKER) {
             LOG_ERR("Failed to create memory tracker");
-            return -1;
+            goto err_decrement_refcount;
         }
 
         LOG_DEBUG("UMF tracker created");
@@ -53,7 +53,7 @@ int umfInit(void) {
         umf_result_t umf_result = umfIpcCacheGlobalInit();
         if (umf_result != UMF_RESULT_SUCCESS) {
             LOG_ERR("Failed to initialize IPC cache");
-            return -1;
+            goto err_destroy_tracker;
         }
 
         LOG_DEBUG("UMF IPC cache initialized");
@@ -65,6 +65,14 @@ int umfInit(void) {
     }
 
     return 0;
+
+err_destroy_tracker:
+    umfMemoryTrackerDestroy(TRACKER);
+    TRACKER = NULL;
+err_decrement_refcount:
+    // the library is not initialized, the next call has to try it again
+    utils_fetch_and_sub_u64(&umfRefCount, 1);
+    return -1;
 }
 
 void umfTearDown(void) {
-- 
2.43.0


From 4c0635e30499984d5a4280edeac05e682a0785ba Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:26:47 +0000
Subject: [PATCH 68/82] fix: base allocator: free memory again after the
 library was restarted

---
 src/base_alloc/base_alloc_global.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index b260f11..85be758 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -58,6 +58,8 @@ void umf_ba_destroy_global(void) {
 bool umf_ba_global_is_destroyed(void) { return ba_is_destroyed; }
 
 static void umf_ba_create_global(void) {
+    ba_is_destroyed = false;
+
     for (int i = 0; i < NUM_ALLOCATION_CLASSES; i++) {
         // allocation classes need to be powers of 2
         assert(0 == (BASE_ALLOC.ac_sizes[i] & (BASE_ALLOC.ac_sizes[i] - 1)));
-- 
2.43.0


From 84aca65cf6c53028e013581828ffad26317abdea Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:29:40 +0000
Subject: [PATCH 69/82] fix: umfDestroyTopology: do not destroy the topology
 twice

---
 src/topology.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topology.c b/src/topology.c
index eab7992..4930b11 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -18,6 +18,7 @@ static UTIL_ONCE_FLAG topology_initialized = UTIL_ONCE_FLAG_INIT;
 void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
+        topology = NULL;
 
         // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
         static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-- 
2.43.0


From 92ce724d9af9cf7b55ee0d77540dff0147fb9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:30:00 +0000
Subject: [PATCH 70/82] fix: predefined memspaces: look for them again after
 the library was restarted

---
 src/memspaces/memspace_highest_bandwidth.c | 10 +++++-----
 src/memspaces/memspace_highest_capacity.c  | 10 +++++-----
 src/memspaces/memspace_host_all.c          | 10 +++++-----
 src/memspaces/memspace_lowest_latency.c    |  6 ++++++
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 93fede2..162109e 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -90,12 +90,12 @@ void umfMemspaceHighestBandwidthDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_BANDWIDTH) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_BANDWIDTH);
         UMF_MEMSPACE_HIGHEST_BANDWIDTH = NULL;
-
-        // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
 }
 
 static void umfMemspaceHighestBandwidthInit(void) {
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index 4a19531..b6b2dcf 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -66,12 +66,12 @@ void umfMemspaceHighestCapacityDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_CAPACITY) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_CAPACITY);
         UMF_MEMSPACE_HIGHEST_CAPACITY = NULL;
-
-        // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
 }
 
 static void umfMemspaceHighestCapacityInit(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index 4b7db69..e22105d 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -85,12 +85,12 @@ void umfMemspaceHostAllDestroy(void) {
     if (UMF_MEMSPACE_HOST_ALL) {
         umfMemspaceDestroy(UMF_MEMSPACE_HOST_ALL);
         UMF_MEMSPACE_HOST_ALL = NULL;
-
-        // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
 }
 
 static void umfMemspaceHostAllInit(void) {
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 5ca369f..129c736 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -10,6 +10,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <umf.h>
 #include <umf/memspace.h>
@@ -92,6 +93,11 @@ void umfMemspaceLowestLatencyDestroy(void) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
     }
+
+    // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
 }
 
 static void umfMemspaceLowestLatencyInit(void) {
-- 
2.43.0


From bbfabe091595db9aa5805a682718d65ba7f5cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:16:05 +0000
Subject: [PATCH 71/82] fix: name disjoint pools "disjoint_pool" by default,
 not "d"

---
 src/pool/pool_disjoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 06bfb88..8e7aaaa 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -1012,7 +1012,7 @@ void umfDisjointPoolSharedLimitsDestroy(
 
 umf_result_t
 umfDisjointPoolParamsCreate(umf_disjoint_pool_params_handle_t *hParams) {
-    static char *DEFAULT_NAME = "disjoint_pool";
+    static const char DEFAULT_NAME[] = "disjoint_pool";
 
     if (!hParams) {
         LOG_ERR("disjoint pool params handle is NULL");
@@ -1034,8 +1034,8 @@ umfDisjointPoolParamsCreate(umf_disjoint_pool_params_handle_t *hParams) {
         .cur_pool_size = 0,
         .pool_trace = 0,
         .shared_limits = NULL,
-        .name = {*DEFAULT_NAME},
     };
+    memcpy(params->name, DEFAULT_NAME, sizeof(DEFAULT_NAME));
 
     *hParams = params;
 
-- 
2.43.0


From c1cc5c9b2cf3977e117078e1abbc7700e4bd484e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:16:05 +0000
Subject: [PATCH 72/82] fix: refuse a NULL name of a disjoint pool instead of
 crashing

---
 src/pool/pool_disjoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 8e7aaaa..83f77e3 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -1137,6 +1137,11 @@ umfDisjointPoolParamsSetName(umf_disjoint_pool_params_handle_t hParams,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (!name) {
+        LOG_ERR("disjoint pool name is NULL");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     strncpy(hParams->name, name, sizeof(hParams->name) - 1);
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From d7064ebc56485f3153073a859afcb5d3133ff0bc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:20:48 +0000
Subject: [PATCH 73/82] fix: refuse missing partitions of a split policy when
 they are given

---
 src/mempolicy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mempolicy.c b/src/mempolicy.c
index f97519d..ee0e738 100644
--- a/src/mempolicy.c
+++ b/src/mempolicy.c
@@ -70,8 +70,12 @@ umfMempolicySetCustomSplitPartitions(umf_mempolicy_handle_t policy,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (partList == NULL && partListLen > 0) {
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     umf_mempolicy_split_partition_t *part = NULL;
-    if (partList && partListLen > 0) {
+    if (partListLen > 0) {
         if (partListLen > SIZE_MAX / sizeof(*part)) {
             return UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }
-- 
2.43.0


From 1e2b2f4c7a67750d2f63554a3acb5a4ace0cceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:20:48 +0000
Subject: [PATCH 74/82] fix: refuse NULL arguments of umfOpenIPCHandle instead
 of crashing

---
 src/ipc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ipc.c b/src/ipc.c
index d4e5cc8..d513524 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -123,6 +123,11 @@ umf_result_t umfPutIPCHandle(umf_ipc_handle_t umfIPCHandle) {
 umf_result_t umfOpenIPCHandle(umf_ipc_handler_handle_t hIPCHandler,
                               umf_ipc_handle_t umfIPCHandle, void **ptr) {
 
+    if (hIPCHandler == NULL || umfIPCHandle == NULL || ptr == NULL) {
+        LOG_ERR("invalid argument.");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     // IPC handler is an instance of tracking memory provider
     umf_memory_provider_handle_t hProvider = hIPCHandler;
     if (hProvider->ops.version != UMF_PROVIDER_OPS_VERSION_CURRENT) {
-- 
2.43.0


From 73c7025adf1625a4ed9b4f10dd9f68f9b250980a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:20:48 +0000
Subject: [PATCH 75/82] fix: refuse a NULL pool in umfPoolGetMemoryProvider
 instead of crashing

---
 src/memory_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index 654b379..8b55062 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -155,7 +155,7 @@ umf_memory_pool_handle_t umfPoolByPtr(const void *ptr) {
 
 umf_result_t umfPoolGetMemoryProvider(umf_memory_pool_handle_t hPool,
                                       umf_memory_provider_handle_t *hProvider) {
-    if (!hProvider) {
+    if (!hPool || !hProvider) {
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 82c813646e095960b7c210972c6fd257a5f0ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:19:55 +0000
Subject: [PATCH 76/82] fix: destroy the highest capacity memspace when it
 cannot be sorted

---
 src/memspaces/memspace_highest_capacity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index b6b2dcf..c981f3a 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -50,6 +50,7 @@ umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
     ret = umfMemspaceSortDesc(highCapacityMemspace,
                               (umfGetPropertyFn)&umfMemtargetGetCapacity);
     if (ret != UMF_RESULT_SUCCESS) {
+        umfMemspaceDestroy(highCapacityMemspace);
         return ret;
     }
 
-- 
2.43.0


From 6293b375a4a272a086b0ea30cddf7982291a9c60 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:19:55 +0000
Subject: [PATCH 77/82] fix: do not abort when a predefined memspace cannot be
 created

---
 src/memspaces/memspace_highest_bandwidth.c | 2 --
 src/memspaces/memspace_highest_capacity.c  | 8 +++++---
 src/memspaces/memspace_host_all.c          | 7 +++++--
 src/memspaces/memspace_lowest_latency.c    | 2 --
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 162109e..1097f81 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -7,7 +7,6 @@
  *
  */
 
-#include <assert.h>
 #include <ctype.h>
 #include <stdlib.h>
 
@@ -105,7 +104,6 @@ static void umfMemspaceHighestBandwidthInit(void) {
         LOG_ERR(
             "Creating the highest bandwidth memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 }
 
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index c981f3a..4150405 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -7,7 +7,6 @@
  *
  */
 
-#include <assert.h>
 #include <stdlib.h>
 
 #include <umf.h>
@@ -29,6 +28,7 @@ umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t
 umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
@@ -78,8 +78,10 @@ void umfMemspaceHighestCapacityDestroy(void) {
 static void umfMemspaceHighestCapacityInit(void) {
     umf_result_t ret =
         umfMemspaceHighestCapacityCreate(&UMF_MEMSPACE_HIGHEST_CAPACITY);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("Creating the highest capacity memspace failed with the error: %u",
+                ret);
+    }
 }
 
 umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index e22105d..c219d07 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -29,6 +29,7 @@ umf_const_memspace_handle_t umfMemspaceHostAllGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t umfMemspaceHostAllCreate(umf_memspace_handle_t *hMemspace) {
     if (!hMemspace) {
@@ -95,8 +96,10 @@ void umfMemspaceHostAllDestroy(void) {
 
 static void umfMemspaceHostAllInit(void) {
     umf_result_t ret = umfMemspaceHostAllCreate(&UMF_MEMSPACE_HOST_ALL);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("Creating the host all memspace failed with the error: %u",
+                ret);
+    }
 
     // TODO: Setup appropriate cleanup when 'HOST ALL' memspace becomes available
     // on Windows. 'HOST ALL' memspace depends on OS provider, which currently
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 129c736..40c94c4 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -7,7 +7,6 @@
  *
  */
 
-#include <assert.h>
 #include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
@@ -107,7 +106,6 @@ static void umfMemspaceLowestLatencyInit(void) {
         LOG_ERR(
             "Creating the lowest latency memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 
 #if defined(_WIN32) && !defined(UMF_SHARED_LIBRARY)
-- 
2.43.0


From ba0b228e19d40dc029133d72f4229427b69c7206 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:32:30 +0000
Subject: [PATCH 78/82] fix: look up the Level Zero symbols again after the
 library is restarted

---
 src/provider/provider_level_zero.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 34d8602..bf25f85 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -15,16 +15,25 @@
 #include <umf/providers/provider_level_zero.h>
 
 #include "provider_level_zero_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *ze_lib_handle = NULL;
+static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
+static bool Init_ze_global_state_failed;
 
 void fini_ze_global_state(void) {
     if (ze_lib_handle) {
         utils_close_library(ze_lib_handle);
         ze_lib_handle = NULL;
     }
+
+    // the Level Zero symbols have to be looked up again after a restart
+    // portable version of "ze_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&ze_is_initialized, &is_initialized, sizeof(ze_is_initialized));
+    Init_ze_global_state_failed = false;
 }
 
 #if defined(UMF_NO_LEVEL_ZERO_PROVIDER)
@@ -189,8 +198,6 @@ typedef struct ze_ops_t {
 } ze_ops_t;
 
 static ze_ops_t g_ze_ops;
-static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
-static bool Init_ze_global_state_failed;
 static __TLS ze_result_t TLS_last_native_error;
 
 static void store_last_native_error(int32_t native_error) {
-- 
2.43.0


From 597dc019b485fd04e278b003cdbe40d2bfc0f614 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:46:01 +0000
Subject: [PATCH 79/82] fix: the file descriptor 0 was taken for no descriptor:
 in a program without standard input memory of a file, a device or a shared
 memory object was mapped anonymously, an assertion failed, or the provider
 could not be created

---
 src/provider/provider_file_memory.c |  6 +++---
 src/provider/provider_os_memory.c   | 20 ++++++++++----------
 src/utils/utils_linux_common.c      |  6 +++---
 src/utils/utils_macosx_common.c     |  6 +++---
 src/utils/utils_posix_common.c      |  1 -
 src/utils/utils_windows_common.c    |  6 +++---
 6 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index d1753ea..b84ed32 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -348,7 +348,7 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     size_t offset_fd = file_provider->offset_fd;
     size_t page_size = file_provider->page_size;
 
-    assert(fd > 0);
+    assert(fd >= 0);
 
     // We have to increase size by alignment to be able to "cut out"
     // the correctly aligned part of the memory
@@ -652,7 +652,7 @@ static umf_result_t file_allocation_split_cb(void *provider, void *ptr,
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
-    if (file_provider->fd <= 0) {
+    if (file_provider->fd < 0) {
         return UMF_RESULT_SUCCESS;
     }
 
@@ -697,7 +697,7 @@ static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
-    if (file_provider->fd <= 0) {
+    if (file_provider->fd < 0) {
         return UMF_RESULT_SUCCESS;
     }
 
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 88c69c8..79a465e 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -437,7 +437,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                    os_memory_provider_t *provider) {
     umf_result_t result;
 
-    // size_fd will be increased during each allocation if (provider->fd > 0)
+    // size_fd will be increased during each allocation if (provider->fd >= 0)
     provider->size_fd = 0;
     provider->shm_name[0] = '\0'; // zero shm_name
 
@@ -477,7 +477,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
     }
 
     provider->fd = utils_create_anonymous_fd();
-    if (provider->fd <= 0) {
+    if (provider->fd < 0) {
         LOG_ERR(
             "creating an anonymous file descriptor for memory mapping failed");
         return UMF_RESULT_ERROR_UNKNOWN;
@@ -496,7 +496,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
     return UMF_RESULT_SUCCESS;
 
 err_close_file:
-    if (provider->fd > 0) {
+    if (provider->fd >= 0) {
         (void)utils_close_fd(provider->fd);
     }
 
@@ -729,7 +729,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         goto err_destroy_bitmaps;
     }
 
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             (void)utils_close_fd(os_provider->fd);
@@ -770,7 +770,7 @@ err_free_os_provider:
 static void os_finalize(void *provider) {
     os_memory_provider_t *os_provider = provider;
 
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         (void)utils_close_fd(os_provider->fd);
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
     }
@@ -862,7 +862,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
 
     *fd_offset = 0;
 
-    if (fd > 0) {
+    if (fd >= 0) {
         if (utils_mutex_lock(lock_fd)) {
             LOG_ERR("locking file size failed");
             return -1;
@@ -883,7 +883,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         utils_mmap(hint_addr, extended_length, prot, flag, fd, *fd_offset);
     if (ptr == NULL) {
         LOG_PDEBUG("memory mapping failed");
-        if (fd > 0 && utils_mutex_lock(lock_fd) == 0) {
+        if (fd >= 0 && utils_mutex_lock(lock_fd) == 0) {
             // give the unused range of the file back, if it is the last one
             if (*fd_size == *fd_offset + extended_length) {
                 *fd_size = *fd_offset;
@@ -1198,7 +1198,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         } while (membind.alloc_size > 0);
     }
 
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         // store (fd_offset + 1) to be able to store fd_offset == 0
         ret =
             critnib_insert(os_provider->fd_offset_map, (uintptr_t)addr,
@@ -1253,7 +1253,7 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
 
     // the offset has to be removed before the address can be reused
     void *fd_offset = NULL;
-    if (os_provider->fd > 0) {
+    if (os_provider->fd >= 0) {
         fd_offset =
             critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
     }
@@ -1540,7 +1540,7 @@ static umf_result_t os_open_ipc_handle(void *provider, void *providerIpcData,
 
     if (os_ipc_data->shm_name_len) {
         fd = utils_shm_open(os_ipc_data->shm_name);
-        if (fd <= 0) {
+        if (fd < 0) {
             LOG_PERR("opening a shared memory file (%s) failed",
                      os_ipc_data->shm_name);
             return UMF_RESULT_ERROR_UNKNOWN;
diff --git a/src/utils/utils_linux_common.c b/src/utils/utils_linux_common.c
index cd0fefd..5f9b3bb 100644
--- a/src/utils/utils_linux_common.c
+++ b/src/utils/utils_linux_common.c
@@ -192,7 +192,7 @@ static int syscall_memfd_secret(void) {
     if (fd == -1) {
         LOG_PERR("memfd_secret() failed");
     }
-    if (fd > 0) {
+    if (fd >= 0) {
         LOG_DEBUG("anonymous file descriptor created using memfd_secret()");
     }
 #endif /* __NR_memfd_secret */
@@ -208,7 +208,7 @@ static int syscall_memfd_create(void) {
     if (fd == -1) {
         LOG_PERR("memfd_create() failed");
     }
-    if (fd > 0) {
+    if (fd >= 0) {
         LOG_DEBUG("anonymous file descriptor created using memfd_create()");
     }
 #endif /* __NR_memfd_create */
@@ -221,7 +221,7 @@ int utils_create_anonymous_fd(void) {
 
     if (!utils_env_var_has_str("UMF_MEM_FD_FUNC", "memfd_create")) {
         fd = syscall_memfd_secret();
-        if (fd > 0) {
+        if (fd >= 0) {
             return fd;
         }
     }
diff --git a/src/utils/utils_macosx_common.c b/src/utils/utils_macosx_common.c
index ad1de12..62c7a7f 100644
--- a/src/utils/utils_macosx_common.c
+++ b/src/utils/utils_macosx_common.c
@@ -64,13 +64,13 @@ int utils_fallocate(int fd, long offset, long len) {
 int utils_shm_create(const char *shm_name, size_t size) {
     (void)shm_name; // unused
     (void)size;     // unused
-    return 0;       // ignored on MacOSX
+    return -1; // not supported on MacOSX
 }
 
 // open a shared memory file
 int utils_shm_open(const char *shm_name) {
     (void)shm_name; // unused
-    return 0;       // ignored on MacOSX
+    return -1; // not supported on MacOSX
 }
 
 // unlink a shared memory file
@@ -81,5 +81,5 @@ int utils_shm_unlink(const char *shm_name) {
 
 // create an anonymous file descriptor
 int utils_create_anonymous_fd(void) {
-    return 0; // ignored on MacOSX
+    return -1; // not supported on MacOSX
 }
diff --git a/src/utils/utils_posix_common.c b/src/utils/utils_posix_common.c
index 613b8ea..857f36b 100644
--- a/src/utils/utils_posix_common.c
+++ b/src/utils/utils_posix_common.c
@@ -157,7 +157,6 @@ int utils_translate_purge_advise(umf_purge_advise_t advise) {
 
 void *utils_mmap(void *hint_addr, size_t length, int prot, int flag, int fd,
                  size_t fd_offset) {
-    fd = (fd == 0) ? -1 : fd;
     if (fd == -1) {
         // MAP_ANONYMOUS - the mapping is not backed by any file
         flag |= MAP_ANONYMOUS;
diff --git a/src/utils/utils_windows_common.c b/src/utils/utils_windows_common.c
index b6c5b0b..cc7b55a 100644
--- a/src/utils/utils_windows_common.c
+++ b/src/utils/utils_windows_common.c
@@ -114,13 +114,13 @@ utils_translate_mem_visibility_flag(umf_memory_visibility_t in_flag,
 int utils_shm_create(const char *shm_name, size_t size) {
     (void)shm_name; // unused
     (void)size;     // unused
-    return 0;       // ignored on Windows
+    return -1; // not supported on Windows
 }
 
 // open a shared memory file
 int utils_shm_open(const char *shm_name) {
     (void)shm_name; // unused
-    return 0;       // ignored on Windows
+    return -1; // not supported on Windows
 }
 
 // unlink a shared memory file
@@ -130,7 +130,7 @@ int utils_shm_unlink(const char *shm_name) {
 }
 
 int utils_create_anonymous_fd(void) {
-    return 0; // ignored on Windows
+    return -1; // not supported on Windows
 }
 
 size_t get_max_file_size(void) { return SIZE_MAX; }
-- 
2.43.0


From aeb4491cbb486f5c4c3acfb9a97342e29865e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:05:50 +0000
Subject: [PATCH 80/82] fix: scalable pool: a TBB library without pool_msize()
 was accepted, and asking for the usable size of a block called a NULL pointer

---
 src/pool/pool_scalable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index bc101a7..5b931db 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -151,7 +151,7 @@ static void init_tbb_callbacks_once(void) {
     if (!tbb_callbacks.pool_malloc || !tbb_callbacks.pool_realloc ||
         !tbb_callbacks.pool_aligned_malloc || !tbb_callbacks.pool_free ||
         !tbb_callbacks.pool_create_v1 || !tbb_callbacks.pool_destroy ||
-        !tbb_callbacks.pool_identify) {
+        !tbb_callbacks.pool_identify || !tbb_callbacks.pool_msize) {
         LOG_FATAL("Could not find all TBB symbols in %s", lib_name);
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
-- 
2.43.0


From 7913da420d149a8e9a5033088d4fb40f3c449f73 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:22:28 +0000
Subject: [PATCH 81/82] fix: umfInit() and umfTearDown() called by several
 threads at once: a thread could use the library before another one had
 initialized it, or while it was being torn down

---
 src/libumf.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/libumf.c b/src/libumf.c
index 96e23b8..9f064f1 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -18,6 +18,7 @@
 #include "provider_level_zero_internal.h"
 #include "provider_tracking.h"
 #include "utils_common.h"
+#include "utils_concurrency.h"
 #include "utils_log.h"
 #if !defined(UMF_NO_HWLOC)
 #include "topology.h"
@@ -27,6 +28,13 @@ umf_memory_tracker_handle_t TRACKER = NULL;
 
 static uint64_t umfRefCount = 0;
 
+// protects umfRefCount and everything that is done when the first user comes
+// and when the last user goes
+static utils_mutex_t init_mutex;
+static UTIL_ONCE_FLAG init_mutex_initialized = UTIL_ONCE_FLAG_INIT;
+
+static void initialize_init_mutex(void) { utils_mutex_init(&init_mutex); }
+
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
@@ -40,12 +48,15 @@ void initialize_global_ctl(void) {
 }
 
 int umfInit(void) {
-    if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
+    utils_init_once(&init_mutex_initialized, initialize_init_mutex);
+    utils_mutex_lock(&init_mutex);
+
+    if (umfRefCount == 0) {
         utils_log_init();
         TRACKER = umfMemoryTrackerCreate();
         if (!TRACKER) {
             LOG_ERR("Failed to create memory tracker");
-            goto err_decrement_refcount;
+            goto err_unlock;
         }
 
         LOG_DEBUG("UMF tracker created");
@@ -60,23 +71,30 @@ int umfInit(void) {
         initialize_global_ctl();
     }
 
+    umfRefCount++;
+
     if (TRACKER) {
         LOG_DEBUG("UMF library initialized");
     }
 
+    utils_mutex_unlock(&init_mutex);
+
     return 0;
 
 err_destroy_tracker:
     umfMemoryTrackerDestroy(TRACKER);
     TRACKER = NULL;
-err_decrement_refcount:
+err_unlock:
     // the library is not initialized, the next call has to try it again
-    utils_fetch_and_sub_u64(&umfRefCount, 1);
+    utils_mutex_unlock(&init_mutex);
     return -1;
 }
 
 void umfTearDown(void) {
-    if (utils_fetch_and_sub_u64(&umfRefCount, 1) == 1) {
+    utils_init_once(&init_mutex_initialized, initialize_init_mutex);
+    utils_mutex_lock(&init_mutex);
+
+    if (umfRefCount-- == 1) {
 #if !defined(_WIN32) && !defined(UMF_NO_HWLOC)
         umfMemspaceHostAllDestroy();
         umfMemspaceHighestCapacityDestroy();
@@ -109,6 +127,8 @@ void umfTearDown(void) {
         fini_tbb_global_state();
         LOG_DEBUG("UMF library finalized");
     }
+
+    utils_mutex_unlock(&init_mutex);
 }
 
 int umfGetCurrentVersion(void) { return UMF_VERSION_CURRENT; }
-- 
2.43.0


From e13f8de9e340815d037e68f5d4d5b543106cfbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:30:38 +0000
Subject: [PATCH 82/82] fix: file provider: an IPC handle of a file named by a
 relative path opened another file, or none, after the working directory had
 changed

---
 src/provider/provider_file_memory.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index b84ed32..98ea67f 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -226,6 +226,16 @@ static umf_result_t file_initialize(void *params, void **provider) {
         goto err_free_file_provider;
     }
 
+    // The path is used again when an IPC handle is opened, in a process
+    // or at a time when the current working directory may be another one.
+    if (in_params->path[0] != '/' &&
+        realpath(in_params->path, file_provider->path) == NULL) {
+        LOG_PERR("cannot get the absolute path of the file: %s",
+                 in_params->path);
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        goto err_close_fd;
+    }
+
     size_t file_size = 0;
     if (utils_get_file_size(file_provider->fd, &file_size)) {
         LOG_ERR("cannot get size of the file: %s", in_params->path);
-- 
2.43.0

