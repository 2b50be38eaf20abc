From f698ee4a1ed01d90d5432b7b60e930ff5254f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:20 +0000
Subject: [PATCH 01/20] fix: mark log pages dirty when appending to an already
 written page

shard_log_write() re-locks the thread's current log page but never marks it
dirty. If the page was written back (and is clean) in between, the entries
appended afterwards are never written to disk.
---
 src/shard_log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index 7249bb6..07abd9a 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -251,6 +251,7 @@ shard_log_write(log_handle *logh, key tuple_key, message msg, uint64 generation)
       }
       hdr->checksum = shard_log_checksum(log->cfg, page);
 
+      cache_mark_dirty(cc, page);
       cache_unlock(cc, page);
       cache_unclaim(cc, page);
       cache_page_sync(cc, page, FALSE, PAGE_TYPE_LOG);
@@ -271,6 +272,7 @@ shard_log_write(log_handle *logh, key tuple_key, message msg, uint64 generation)
    thread_data->offset += new_entry_size;
    debug_assert(thread_data->offset <= shard_log_page_size(log->cfg));
 
+   cache_mark_dirty(cc, page);
    cache_unlock(cc, page);
    cache_unclaim(cc, page);
    cache_unget(cc, page);
-- 
2.43.0


From a13e3c34faedab21eb938b3f541d27a40113b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:20 +0000
Subject: [PATCH 02/20] fix: release the parent's claim when rebuilding the
 leaf spec fails

btree_insert() dropped its reference to the claimed parent without releasing
the claim, so every later writer of that node would spin forever.
---
 src/btree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btree.c b/src/btree.c
index 55752cf..a8a1d58 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2029,6 +2029,7 @@ start_over:
       rc = btree_create_leaf_incorporate_spec(
          cfg, heap_id, child_node.hdr, tuple_key, msg, &spec);
       if (!SUCCESS(rc)) {
+         btree_node_unclaim(cc, cfg, &parent_node);
          btree_node_unget(cc, cfg, &parent_node);
          btree_node_unclaim(cc, cfg, &child_node);
          btree_node_unget(cc, cfg, &child_node);
-- 
2.43.0


From 02a2ff3a43e53d7f62d79a9cd18bcc7c047cb5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:20 +0000
Subject: [PATCH 03/20] fix: range iterator must not use pivot keys of a
 released trunk leaf

trunk_range_iterator_init() compared and restarted from keys that point into
the trunk leaf after dropping its reference to that page.
---
 src/trunk.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 8104068..1f2ecbb 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6346,13 +6346,21 @@ trunk_range_iterator_init(trunk_handle         *spl,
     * db/range, move to prev/next leaf
     */
    if (!in_range && start_type >= greater_than) {
-      if (trunk_key_compare(spl, local_max, max_key) < 0) {
+      // the leaf has been released, and deinit frees the buffered bound
+      KEY_CREATE_LOCAL_COPY(rc,
+                            next_start_key,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_max_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      if (trunk_key_compare(spl, next_start_key, max_key) < 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_max,
+                                        next_start_key,
                                         start_type,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
@@ -6365,13 +6373,20 @@ trunk_range_iterator_init(trunk_handle         *spl,
       }
    }
    if (!in_range && start_type <= less_than_or_equal) {
-      if (trunk_key_compare(spl, local_min, min_key) > 0) {
+      KEY_CREATE_LOCAL_COPY(rc,
+                            prev_start_key,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_min_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      if (trunk_key_compare(spl, prev_start_key, min_key) > 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_min,
+                                        prev_start_key,
                                         start_type,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
-- 
2.43.0


From 47b055b3c5a326154c73d055f51a53f6a12fff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:21 +0000
Subject: [PATCH 04/20] fix: do not release the root claim twice when a filter
 build aborts

trunk_copy_path_by_key_and_height() already releases the root claim, so
the abort path of trunk_bundle_build_filters() released a claim that
another thread may hold.
---
 src/trunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 1f2ecbb..9acbea2 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4310,7 +4310,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
          if (trunk_build_filter_should_abort(compact_req, &node)) {
             trunk_log_stream_if_enabled(
                spl, &stream, "replace_filter abort leaf split\n");
-            trunk_root_full_unclaim(spl);
             trunk_node_unlock(spl->cc, &node);
             trunk_node_unclaim(spl->cc, &node);
             trunk_node_unget(spl->cc, &node);
-- 
2.43.0


From b959e6d6e10e601c9d41072d25c3e57429ee7b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:21 +0000
Subject: [PATCH 05/20] fix: range iterators must get the root under the root
 lock

spl->root_addr was read and followed without trunk_root_lock, so a
concurrent flush or compaction could replace and recycle the root in
between.
---
 src/trunk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 9acbea2..87c943e 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6217,7 +6217,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
    }
 
    trunk_node node;
-   trunk_node_get(spl->cc, spl->root_addr, &node);
+   trunk_root_get(spl, &node);
    memtable_end_lookup(spl->mt_ctxt);
 
    // index btrees
-- 
2.43.0


From ca01b7d1d5b45dba9124e2f4873789d4c77a3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 06/20] fix: do not ignore failures of key copies, task
 enqueues and extent allocation

Statuses of key_buffer copies, task_enqueue, btree_pack_req_init and of the
first extent allocations were dropped, and a merge iterator that changes
direction dropped the failures of its input iterators.
---
 src/merge.c        |  10 +++-
 src/rc_allocator.c |   6 ++-
 src/task.c         |  11 +++-
 src/trunk.c        | 128 +++++++++++++++++++++++++++------------------
 4 files changed, 97 insertions(+), 58 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index c764477..cf43efc 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -627,12 +627,18 @@ merge_iterator_set_direction(merge_iterator *merge_itor, bool32 forwards)
    for (int i = 0; i < merge_itor->num_trees; i++) {
       if (forwards && iterator_can_next(merge_itor->ordered_iterators[i]->itor))
       {
-         iterator_next(merge_itor->ordered_iterators[i]->itor);
+         rc = iterator_next(merge_itor->ordered_iterators[i]->itor);
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
       }
       if (!forwards
           && iterator_can_prev(merge_itor->ordered_iterators[i]->itor))
       {
-         iterator_prev(merge_itor->ordered_iterators[i]->itor);
+         rc = iterator_prev(merge_itor->ordered_iterators[i]->itor);
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
       }
    }
 
diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index 1fdc33e..eca7be4 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -364,7 +364,8 @@ rc_allocator_init(rc_allocator      *al,
    memset(al->ref_count, 0, buffer_size);
 
    // allocate the super block
-   allocator_alloc(&al->super, &addr, PAGE_TYPE_SUPERBLOCK);
+   rc = allocator_alloc(&al->super, &addr, PAGE_TYPE_SUPERBLOCK);
+   platform_assert_status_ok(rc);
    // super block extent should always start from address 0.
    platform_assert(addr == RC_ALLOCATOR_BASE_OFFSET);
 
@@ -375,7 +376,8 @@ rc_allocator_init(rc_allocator      *al,
    rc_extent_count = (buffer_size + al->cfg->io_cfg->extent_size - 1)
                      / al->cfg->io_cfg->extent_size;
    for (uint64 i = 0; i < rc_extent_count; i++) {
-      allocator_alloc(&al->super, &addr, PAGE_TYPE_SUPERBLOCK);
+      rc = allocator_alloc(&al->super, &addr, PAGE_TYPE_SUPERBLOCK);
+      platform_assert_status_ok(rc);
       platform_assert(addr == cfg->io_cfg->extent_size * (i + 1));
    }
 
diff --git a/src/task.c b/src/task.c
index b74adcc..039d4f1 100644
--- a/src/task.c
+++ b/src/task.c
@@ -191,7 +191,9 @@ register_standard_hooks(task_system *ts)
 {
    // hooks need to be initialized only once.
    if (__sync_fetch_and_add(&ts->hook_init_done, 1) == 0) {
-      task_register_hook(ts, task_system_io_register_thread);
+      platform_status rc =
+         task_register_hook(ts, task_system_io_register_thread);
+      platform_assert_status_ok(rc);
    }
 }
 
@@ -912,7 +914,12 @@ task_system_create(platform_heap_id          hid,
 
    // Ensure that the main thread gets registered and init'ed first before
    // any background threads are created. (Those may grab their own tids.).
-   task_register_this_thread(ts, cfg->scratch_size);
+   rc = task_register_this_thread(ts, cfg->scratch_size);
+   if (!SUCCESS(rc)) {
+      platform_free(hid, ts);
+      *system = NULL;
+      return rc;
+   }
 
    for (task_type type = TASK_TYPE_FIRST; type != NUM_TASK_TYPES; type++) {
       platform_status rc = task_group_init(&ts->group[type],
diff --git a/src/trunk.c b/src/trunk.c
index 87c943e..9f92afe 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -870,6 +870,24 @@ trunk_data_config(trunk_handle *spl)
    return spl->cfg.data_cfg;
 }
 
+/*
+ * Copies of keys that must not fail: a request or iterator with a wrong bound
+ * would silently work on a wrong range.
+ */
+static inline void
+trunk_key_buffer_init(key_buffer *kb, platform_heap_id hid, key src)
+{
+   platform_status rc = key_buffer_init_from_key(kb, hid, src);
+   platform_assert_status_ok(rc);
+}
+
+static inline void
+trunk_key_buffer_copy(key_buffer *kb, key src)
+{
+   platform_status rc = key_buffer_copy_key(kb, src);
+   platform_assert_status_ok(rc);
+}
+
 static inline uint64
 trunk_page_size(const trunk_config *cfg)
 {
@@ -3457,15 +3475,17 @@ trunk_memtable_compact_and_build_filter(trunk_handle  *spl,
                                 greater_than_or_equal,
                                 FALSE,
                                 FALSE);
-   btree_pack_req req;
-   btree_pack_req_init(&req,
-                       spl->cc,
-                       &spl->cfg.btree_cfg,
-                       itor,
-                       spl->cfg.max_tuples_per_node,
-                       spl->cfg.filter_cfg.hash,
-                       spl->cfg.filter_cfg.seed,
-                       spl->heap_id);
+   btree_pack_req  req;
+   platform_status req_status =
+      btree_pack_req_init(&req,
+                          spl->cc,
+                          &spl->cfg.btree_cfg,
+                          itor,
+                          spl->cfg.max_tuples_per_node,
+                          spl->cfg.filter_cfg.hash,
+                          spl->cfg.filter_cfg.seed,
+                          spl->heap_id);
+   platform_assert_status_ok(req_status);
    uint64 pack_start;
    if (spl->cfg.use_stats) {
       spl->stats[tid].root_compactions++;
@@ -3595,9 +3615,9 @@ trunk_install_new_compacted_subbundle(trunk_handle             *spl,
    req->spl                  = spl;
    req->height               = trunk_node_height(node);
    req->max_pivot_generation = trunk_pivot_generation(spl, node);
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->start_key, spl->heap_id, trunk_min_key(spl, node));
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->end_key, spl->heap_id, trunk_max_key(spl, node));
    req->bundle_no = trunk_get_new_bundle(spl, node);
 
@@ -3751,8 +3771,9 @@ trunk_memtable_incorporate_and_flush(trunk_handle  *spl,
       req->height,
       req->bundle_no);
    trunk_close_log_stream_if_enabled(spl, &stream);
-   task_enqueue(
+   rc = task_enqueue(
       spl->ts, TASK_TYPE_NORMAL, trunk_bundle_build_filters, req, TRUE);
+   platform_assert_status_ok(rc);
 
    /*
     * Decrement the now-incorporated memtable ref count and recycle if no
@@ -3820,11 +3841,12 @@ trunk_memtable_flush(trunk_handle *spl, uint64 generation)
       trunk_get_compacted_memtable(spl, generation);
    cmt->mt_args.spl        = spl;
    cmt->mt_args.generation = generation;
-   task_enqueue(spl->ts,
-                TASK_TYPE_MEMTABLE,
-                trunk_memtable_flush_internal_virtual,
-                &cmt->mt_args,
-                FALSE);
+   platform_status rc      = task_enqueue(spl->ts,
+                                     TASK_TYPE_MEMTABLE,
+                                     trunk_memtable_flush_internal_virtual,
+                                     &cmt->mt_args,
+                                     FALSE);
+   platform_assert_status_ok(rc);
 }
 
 void
@@ -4073,9 +4095,9 @@ trunk_prepare_build_filter(trunk_handle             *spl,
 
    // copy the node's start and end key so that replacement can determine when
    // to stop
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &filter_scratch->start_key, spl->heap_id, trunk_min_key(spl, node));
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &filter_scratch->end_key, spl->heap_id, trunk_max_key(spl, node));
    filter_scratch->height = height;
 }
@@ -4277,11 +4299,12 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       }
 
       if (trunk_build_filter_should_reenqueue(compact_req, &node)) {
-         task_enqueue(spl->ts,
-                      TASK_TYPE_NORMAL,
-                      trunk_bundle_build_filters,
-                      compact_req,
-                      FALSE);
+         rc = task_enqueue(spl->ts,
+                           TASK_TYPE_NORMAL,
+                           trunk_bundle_build_filters,
+                           compact_req,
+                           FALSE);
+         platform_assert_status_ok(rc);
          trunk_log_stream_if_enabled(
             spl, &stream, "out of order, reequeuing\n");
          trunk_close_log_stream_if_enabled(spl, &stream);
@@ -4349,8 +4372,8 @@ trunk_bundle_build_filters(void *arg, void *scratch)
             key_string(trunk_data_config(spl),
                        key_buffer_key(&compact_req->end_key)));
 
-         key_buffer_copy_key(&filter_scratch.start_key,
-                             trunk_max_key(spl, &node));
+         trunk_key_buffer_copy(&filter_scratch.start_key,
+                               trunk_max_key(spl, &node));
          should_continue_replacing_filters =
             trunk_key_compare(spl,
                               key_buffer_key(&filter_scratch.start_key),
@@ -4384,7 +4407,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
 
    next_node:
       debug_assert(trunk_verify_node(spl, &node));
-      key_buffer_copy_key(&compact_req->start_key, trunk_max_key(spl, &node));
+      trunk_key_buffer_copy(&compact_req->start_key, trunk_max_key(spl, &node));
       trunk_node_unget(spl->cc, &node);
       should_continue_build_filters =
          trunk_key_compare(spl,
@@ -4467,9 +4490,9 @@ trunk_flush_into_bundle(trunk_handle             *spl,    // IN
    req->bundle_no            = trunk_get_new_bundle(spl, child);
    req->max_pivot_generation = trunk_pivot_generation(spl, child);
 
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->start_key, spl->heap_id, trunk_min_key(spl, child));
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->end_key, spl->heap_id, trunk_max_key(spl, child));
 
    req->node_id = child->hdr->node_id;
@@ -5424,7 +5447,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
 
       if (should_continue) {
          debug_assert(height != 0);
-         key_buffer_copy_key(&req->start_key, max_key);
+         trunk_key_buffer_copy(&req->start_key, max_key);
       }
 
       // only release locks on node after the garbage collection is complete
@@ -5473,10 +5496,11 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
          key_string(trunk_data_config(spl), end_key),
          req->height,
          req->bundle_no);
-      key_buffer_copy_key(&req->start_key,
-                          key_buffer_key(&scratch->req_original_start_key));
-      task_enqueue(
+      trunk_key_buffer_copy(&req->start_key,
+                            key_buffer_key(&scratch->req_original_start_key));
+      rc = task_enqueue(
          spl->ts, TASK_TYPE_NORMAL, trunk_bundle_build_filters, req, TRUE);
+      platform_assert_status_ok(rc);
       key_buffer_deinit(&scratch->req_original_start_key);
    }
 out:
@@ -5605,16 +5629,16 @@ trunk_split_index(trunk_handle             *spl,
       trunk_compact_bundle_req *next_req = TYPED_MALLOC(spl->heap_id, next_req);
       memmove(next_req, req, sizeof(trunk_compact_bundle_req));
       next_req->addr = right_node.addr;
-      key_buffer_init_from_key(
+      trunk_key_buffer_init(
          &next_req->start_key, spl->heap_id, trunk_min_key(spl, &right_node));
-      key_buffer_init_from_key(
+      trunk_key_buffer_init(
          &next_req->end_key, spl->heap_id, trunk_max_key(spl, &right_node));
 
       next_req->node_id = right_node.hdr->node_id;
 
       platform_assert(!trunk_key_compare(
          spl, key_buffer_key(&req->start_key), trunk_min_key(spl, left_node)));
-      key_buffer_copy_key(&req->end_key, trunk_max_key(spl, left_node));
+      trunk_key_buffer_copy(&req->end_key, trunk_max_key(spl, left_node));
 
       rc = trunk_compact_bundle_enqueue(spl, "split to", next_req);
       platform_assert_status_ok(rc);
@@ -5773,7 +5797,7 @@ trunk_split_leaf(trunk_handle *spl,
    uint16 num_leaves;
 
    // copy pivot (in parent) of leaf
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &scratch->pivot[0], spl->heap_id, trunk_min_key(spl, leaf));
 
    uint64 leaf0_num_tuples = estimated_unique_keys;
@@ -5879,7 +5903,7 @@ trunk_split_leaf(trunk_handle *spl,
             iterator_curr(&rough_merge_itor->super, &curr_key, &dummy_data);
             debug_assert(key_length(curr_key) <= trunk_max_key_size(spl));
             // copy new pivot (in parent) of new leaf
-            key_buffer_init_from_key(
+            trunk_key_buffer_init(
                &scratch->pivot[num_leaves + 1], spl->heap_id, curr_key);
          }
       }
@@ -5895,7 +5919,7 @@ trunk_split_leaf(trunk_handle *spl,
    }
 
    // copy max key of last new leaf (max key of leaf)
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &scratch->pivot[num_leaves], spl->heap_id, trunk_max_key(spl, leaf));
 
    platform_assert((num_leaves + trunk_num_pivot_keys(spl, parent)
@@ -6009,9 +6033,9 @@ trunk_split_leaf(trunk_handle *spl,
          req->pivot_generation[0]      = trunk_pivot_generation(spl, leaf) - 1;
          req->input_pivot_tuple_count[0] = trunk_pivot_num_tuples(spl, leaf, 0);
          req->input_pivot_kv_byte_count[0] = trunk_pivot_kv_bytes(spl, leaf, 0);
-         key_buffer_init_from_key(
+         trunk_key_buffer_init(
             &req->start_key, spl->heap_id, trunk_min_key(spl, leaf));
-         key_buffer_init_from_key(
+         trunk_key_buffer_init(
             &req->end_key, spl->heap_id, trunk_max_key(spl, leaf));
          req->node_id = leaf->hdr->node_id;
 
@@ -6044,9 +6068,9 @@ trunk_split_leaf(trunk_handle *spl,
    req->input_pivot_tuple_count[0]   = trunk_pivot_num_tuples(spl, leaf, 0);
    req->input_pivot_kv_byte_count[0] = trunk_pivot_kv_bytes(spl, leaf, 0);
    req->type                         = comp_type;
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->start_key, spl->heap_id, trunk_min_key(spl, leaf));
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->end_key, spl->heap_id, trunk_max_key(spl, leaf));
    req->node_id = leaf->hdr->node_id;
 
@@ -6174,8 +6198,8 @@ trunk_range_iterator_init(trunk_handle         *spl,
    }
 
    // copy over global min and max
-   key_buffer_init_from_key(&range_itor->min_key, spl->heap_id, min_key);
-   key_buffer_init_from_key(&range_itor->max_key, spl->heap_id, max_key);
+   trunk_key_buffer_init(&range_itor->min_key, spl->heap_id, min_key);
+   trunk_key_buffer_init(&range_itor->max_key, spl->heap_id, max_key);
 
    ZERO_ARRAY(range_itor->compacted);
 
@@ -6286,9 +6310,9 @@ trunk_range_iterator_init(trunk_handle         *spl,
       trunk_key_compare(spl, trunk_max_key(spl, &node), max_key) < 0
          ? trunk_max_key(spl, &node)
          : max_key;
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &range_itor->local_min_key, spl->heap_id, local_min);
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &range_itor->local_max_key, spl->heap_id, local_max);
 
    trunk_node_unget(spl->cc, &node);
@@ -6624,9 +6648,9 @@ trunk_compact_leaf(trunk_handle *spl, trunk_node *leaf)
    req->input_pivot_tuple_count[0]   = trunk_pivot_num_tuples(spl, leaf, 0);
    req->input_pivot_kv_byte_count[0] = trunk_pivot_kv_bytes(spl, leaf, 0);
    req->type                         = TRUNK_COMPACTION_TYPE_SPACE_REC;
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->start_key, spl->heap_id, trunk_min_key(spl, leaf));
-   key_buffer_init_from_key(
+   trunk_key_buffer_init(
       &req->end_key, spl->heap_id, trunk_max_key(spl, leaf));
    req->node_id = leaf->hdr->node_id;
 
@@ -8385,8 +8409,8 @@ trunk_verify_node_with_neighbors(trunk_handle         *spl,
       goto out;
    }
    // set last key seen in scratch
-   key_buffer_copy_key(&scratch->last_key_seen[height],
-                       trunk_max_key(spl, node));
+   trunk_key_buffer_copy(&scratch->last_key_seen[height],
+                         trunk_max_key(spl, node));
 
    // don't need to verify coherence with children if node is a leaf
    if (trunk_node_is_leaf(node)) {
@@ -8466,7 +8490,7 @@ trunk_verify_tree(trunk_handle *spl)
 {
    trunk_verify_scratch scratch = {0};
    for (uint64 h = 0; h < TRUNK_MAX_HEIGHT; h++) {
-      key_buffer_init_from_key(
+      trunk_key_buffer_init(
          &scratch.last_key_seen[h], spl->heap_id, NEGATIVE_INFINITY_KEY);
    }
    bool32 success =
-- 
2.43.0


From 15bd390a15a86d90167f744e6e4289a299c8c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 07/20] fix: report failed asynchronous I/O instead of treating
 it as completed

laio_callback() dropped the result of the request, so a page that was never
written was marked clean and a page that was never read was handed out.
---
 src/platform_linux/laio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index 21072ff..377610d 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -399,6 +399,10 @@ laio_callback(io_context_t ctx, struct iocb *iocb, long res, long res2)
    platform_status status = STATUS_OK;
 
    platform_assert(res2 == 0);
+   if (res < 0) {
+      platform_error_log("async IO failed: %s\n", strerror(-res));
+      status = STATUS_IO_ERROR;
+   }
    req = (io_async_req *)((char *)iocb - offsetof(io_async_req, iocb));
    req->callback(req->metadata, req->iovec, req->count, status);
    req->ctx_idx = INVALID_TID;
-- 
2.43.0


From 321943ca0b173ebad31bac181b5389d2e4de3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 08/20] fix: free the iterator that failed to initialise, not
 the caller's variable

---
 src/splinterdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/splinterdb.c b/src/splinterdb.c
index 2386b33..a0aaf56 100644
--- a/src/splinterdb.c
+++ b/src/splinterdb.c
@@ -689,7 +689,7 @@ splinterdb_iterator_init(const splinterdb     *kvs,           // IN
                                                   greater_than_or_equal,
                                                   UINT64_MAX);
    if (!SUCCESS(rc)) {
-      platform_free(kvs->spl->heap_id, *iter);
+      platform_free(kvs->spl->heap_id, it);
       return platform_status_to_int(rc);
    }
    it->parent = kvs;
-- 
2.43.0


From 2f14d65febf10c1931b28024afab0eceeb1b5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:31 +0000
Subject: [PATCH 09/20] fix: close the device and keep errno when opening the
 I/O handle fails

---
 src/platform_linux/laio.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index 377610d..5fa30b0 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -181,15 +181,17 @@ io_handle_init(laio_handle *io, io_config *cfg, platform_heap_id hid)
       io->fd = open(cfg->filename, cfg->flags);
    }
    if (io->fd == -1) {
+      int open_errno = errno;
       platform_error_log(
-         "open() '%s' failed: %s\n", cfg->filename, strerror(errno));
-      return CONST_STATUS(errno);
+         "open() '%s' failed: %s\n", cfg->filename, strerror(open_errno));
+      return CONST_STATUS(open_errno);
    }
 
    struct stat statbuf;
    int         r = fstat(io->fd, &statbuf);
    if (r) {
       platform_error_log("fstat failed: %s\n", strerror(errno));
+      close(io->fd);
       return STATUS_IO_ERROR;
    }
 
@@ -197,6 +199,7 @@ io_handle_init(laio_handle *io, io_config *cfg, platform_heap_id hid)
       r = fallocate(io->fd, 0, 0, 128 * 1024);
       if (r) {
          platform_error_log("fallocate failed: %s\n", strerror(errno));
+         close(io->fd);
          return STATUS_IO_ERROR;
       }
    }
-- 
2.43.0


From 71d35a37c48c1c1649fece9e38349e52cedb9aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:41 +0000
Subject: [PATCH 10/20] fix: free the key copies of compaction requests that
 are dropped

---
 src/trunk.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index 9f92afe..3098c93 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4741,6 +4741,8 @@ trunk_flush(trunk_handle     *spl,
    // split child if necessary
    if (trunk_needs_split(spl, &new_child)) {
       if (trunk_node_is_leaf(&new_child)) {
+         key_buffer_deinit(&req->start_key);
+         key_buffer_deinit(&req->end_key);
          platform_free(spl->heap_id, req);
          uint16 child_idx = trunk_pdata_to_pivot_index(spl, parent, pdata);
          trunk_split_leaf(spl, parent, &new_child, child_idx);
@@ -5205,6 +5207,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
          key_string(trunk_data_config(spl), end_key),
          req->height,
          req->bundle_no);
+      key_buffer_deinit(&req->start_key);
+      key_buffer_deinit(&req->end_key);
       platform_free(spl->heap_id, req);
       if (spl->cfg.use_stats) {
          spl->stats[tid].compactions_aborted_flushed[height]++;
@@ -5296,6 +5300,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
 
       trunk_compact_bundle_cleanup_iterators(
          spl, &merge_itor, num_branches, skip_itor_arr);
+      key_buffer_deinit(&req->start_key);
+      key_buffer_deinit(&req->end_key);
       platform_free(spl->heap_id, req);
       goto out;
    }
@@ -5311,6 +5317,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
       trunk_compact_bundle_cleanup_iterators(
          spl, &merge_itor, num_branches, skip_itor_arr);
       btree_pack_req_deinit(&pack_req, spl->heap_id);
+      key_buffer_deinit(&req->start_key);
+      key_buffer_deinit(&req->end_key);
       platform_free(spl->heap_id, req);
       goto out;
    }
@@ -5397,6 +5405,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
          if (num_tuples != 0) {
             trunk_dec_ref(spl, &new_branch, FALSE);
          }
+         key_buffer_deinit(&req->start_key);
+         key_buffer_deinit(&req->end_key);
          platform_free(spl->heap_id, req->fp_arr);
          platform_free(spl->heap_id, req);
          key_buffer_deinit(&scratch->req_original_start_key);
@@ -5477,6 +5487,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
          spl->stats[tid].compaction_time_wasted_ns[height] +=
             platform_timestamp_elapsed(compaction_start);
       }
+      key_buffer_deinit(&req->start_key);
+      key_buffer_deinit(&req->end_key);
       platform_free(spl->heap_id, req->fp_arr);
       platform_free(spl->heap_id, req);
    } else {
-- 
2.43.0


From 8e4b259e143addc9eccc4db22d997303db44ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:07 +0000
Subject: [PATCH 11/20] fix: release what a range iterator holds when its
 initialisation fails

---
 src/trunk.c | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 3098c93..6110ddb 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6170,6 +6170,8 @@ platform_status
 trunk_range_iterator_prev(iterator *itor);
 void
 trunk_range_iterator_deinit(trunk_range_iterator *range_itor);
+static void
+trunk_range_iterator_release_branches(trunk_range_iterator *range_itor);
 
 const static iterator_ops trunk_range_iterator_ops = {
    .curr     = trunk_range_iterator_curr,
@@ -6371,6 +6373,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
                                               MERGE_FULL,
                                               &range_itor->merge_itor);
    if (!SUCCESS(rc)) {
+      trunk_range_iterator_release_branches(range_itor);
       return rc;
    }
 
@@ -6387,6 +6390,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
                             spl->heap_id,
                             key_buffer_key(&range_itor->local_max_key));
       if (!SUCCESS(rc)) {
+         trunk_range_iterator_deinit(range_itor);
          return rc;
       }
       if (trunk_key_compare(spl, next_start_key, max_key) < 0) {
@@ -6413,6 +6417,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
                             spl->heap_id,
                             key_buffer_key(&range_itor->local_min_key));
       if (!SUCCESS(rc)) {
+         trunk_range_iterator_deinit(range_itor);
          return rc;
       }
       if (trunk_key_compare(spl, prev_start_key, min_key) > 0) {
@@ -6582,26 +6587,36 @@ trunk_range_iterator_can_next(iterator *itor)
 void
 trunk_range_iterator_deinit(trunk_range_iterator *range_itor)
 {
-   trunk_handle *spl = range_itor->spl;
    if (range_itor->merge_itor != NULL) {
       merge_iterator_destroy(range_itor->spl->heap_id, &range_itor->merge_itor);
-      for (uint64 i = 0; i < range_itor->num_branches; i++) {
-         btree_iterator *btree_itor = &range_itor->btree_itor[i];
-         if (range_itor->compacted[i]) {
-            uint64 root_addr = btree_itor->root_addr;
-            trunk_branch_iterator_deinit(spl, btree_itor, FALSE);
-            btree_unblock_dec_ref(spl->cc, &spl->cfg.btree_cfg, root_addr);
-         } else {
-            uint64 mt_gen = range_itor->memtable_start_gen - i;
-            trunk_memtable_iterator_deinit(spl, btree_itor, mt_gen, FALSE);
-            trunk_memtable_dec_ref(spl, mt_gen);
-         }
+      trunk_range_iterator_release_branches(range_itor);
+   }
+}
+
+/*
+ * Releases everything trunk_range_iterator_init acquires before it creates the
+ * merge iterator.
+ */
+static void
+trunk_range_iterator_release_branches(trunk_range_iterator *range_itor)
+{
+   trunk_handle *spl = range_itor->spl;
+   for (uint64 i = 0; i < range_itor->num_branches; i++) {
+      btree_iterator *btree_itor = &range_itor->btree_itor[i];
+      if (range_itor->compacted[i]) {
+         uint64 root_addr = btree_itor->root_addr;
+         trunk_branch_iterator_deinit(spl, btree_itor, FALSE);
+         btree_unblock_dec_ref(spl->cc, &spl->cfg.btree_cfg, root_addr);
+      } else {
+         uint64 mt_gen = range_itor->memtable_start_gen - i;
+         trunk_memtable_iterator_deinit(spl, btree_itor, mt_gen, FALSE);
+         trunk_memtable_dec_ref(spl, mt_gen);
       }
-      key_buffer_deinit(&range_itor->min_key);
-      key_buffer_deinit(&range_itor->max_key);
-      key_buffer_deinit(&range_itor->local_min_key);
-      key_buffer_deinit(&range_itor->local_max_key);
    }
+   key_buffer_deinit(&range_itor->min_key);
+   key_buffer_deinit(&range_itor->max_key);
+   key_buffer_deinit(&range_itor->local_min_key);
+   key_buffer_deinit(&range_itor->local_max_key);
 }
 
 /*
-- 
2.43.0


From a913e8edea69aa12d061869d4322408d731e9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:24 +0000
Subject: [PATCH 12/20] fix: report failed allocations when opening a trunk, a
 range query or a log iterator

---
 src/shard_log.c | 7 +++++++
 src/trunk.c     | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index 07abd9a..2821727 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -380,7 +380,14 @@ finished_first_pass:
 
    itor->contents = TYPED_ARRAY_MALLOC(
       hid, itor->contents, num_valid_pages * shard_log_page_size(cfg));
+   if (itor->contents == NULL) {
+      return STATUS_NO_MEMORY;
+   }
    itor->entries = TYPED_ARRAY_MALLOC(hid, itor->entries, itor->num_entries);
+   if (itor->entries == NULL) {
+      platform_free(hid, itor->contents);
+      return STATUS_NO_MEMORY;
+   }
 
    // traverse the log extents again and copy the kv pairs
    log_entry *cursor    = (log_entry *)itor->contents;
diff --git a/src/trunk.c b/src/trunk.c
index 6110ddb..71b193e 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7671,6 +7671,9 @@ trunk_range(trunk_handle  *spl,
 {
    trunk_range_iterator *range_itor =
       TYPED_MALLOC(PROCESS_PRIVATE_HEAP_ID, range_itor);
+   if (range_itor == NULL) {
+      return STATUS_NO_MEMORY;
+   }
    platform_status rc = trunk_range_iterator_init(spl,
                                                   range_itor,
                                                   start_key,
@@ -7717,6 +7720,9 @@ trunk_create(trunk_config     *cfg,
 {
    trunk_handle *spl = TYPED_FLEXIBLE_STRUCT_ZALLOC(
       hid, spl, compacted_memtable, TRUNK_NUM_MEMTABLES);
+   if (spl == NULL) {
+      return NULL;
+   }
    memmove(&spl->cfg, cfg, sizeof(*cfg));
 
    // Validate configured key-size is within limits.
@@ -7834,6 +7840,9 @@ trunk_mount(trunk_config     *cfg,
 {
    trunk_handle *spl = TYPED_FLEXIBLE_STRUCT_ZALLOC(
       hid, spl, compacted_memtable, TRUNK_NUM_MEMTABLES);
+   if (spl == NULL) {
+      return NULL;
+   }
    memmove(&spl->cfg, cfg, sizeof(*cfg));
 
    spl->al = al;
-- 
2.43.0


From 5fa68f95ce7831ffd5fd6a594a16330bf80a1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 13/20] fix: stop on a failed allocation instead of using the
 null pointer

---
 src/memtable.c       |  2 ++
 src/routing_filter.c |  1 +
 src/shard_log.c      |  3 ++-
 src/trunk.c          | 22 ++++++++++++++--------
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/memtable.c b/src/memtable.c
index 92a66b9..5ad0502 100644
--- a/src/memtable.c
+++ b/src/memtable.c
@@ -309,12 +309,14 @@ memtable_context_create(platform_heap_id hid,
 {
    memtable_context *ctxt =
       TYPED_FLEXIBLE_STRUCT_ZALLOC(hid, ctxt, mt, cfg->max_memtables);
+   platform_assert(ctxt);
    ctxt->cc = cc;
    memmove(&ctxt->cfg, cfg, sizeof(ctxt->cfg));
 
    platform_mutex_init(
       &ctxt->incorporation_mutex, platform_get_module_id(), hid);
    ctxt->rwlock = TYPED_MALLOC(hid, ctxt->rwlock);
+   platform_assert(ctxt->rwlock);
    platform_batch_rwlock_init(ctxt->rwlock);
 
    for (uint64 mt_no = 0; mt_no < cfg->max_memtables; mt_no++) {
diff --git a/src/routing_filter.c b/src/routing_filter.c
index b520ce5..2681c0b 100644
--- a/src/routing_filter.c
+++ b/src/routing_filter.c
@@ -697,6 +697,7 @@ routing_filter_estimate_unique_fp(cache           *cc,
    uint32  buffer_size = total_num_fp / 12;
    uint32  alloc_size  = buffer_size + cfg->index_size;
    uint32 *local  = TYPED_ARRAY_ZALLOC(hid, local, alloc_size * sizeof(uint32));
+   platform_assert(local);
    uint32 *fp_arr = local;
    uint32 *count  = local + buffer_size;
 
diff --git a/src/shard_log.c b/src/shard_log.c
index 2821727..25a0576 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -330,7 +330,8 @@ log_create(cache *cc, log_config *lcfg, platform_heap_id hid)
 {
    shard_log_config *cfg  = (shard_log_config *)lcfg;
    shard_log        *slog = TYPED_MALLOC(hid, slog);
-   platform_status   rc   = shard_log_init(slog, cc, cfg);
+   platform_assert(slog);
+   platform_status rc = shard_log_init(slog, cc, cfg);
    platform_assert(SUCCESS(rc));
    return (log_handle *)slog;
 }
diff --git a/src/trunk.c b/src/trunk.c
index 71b193e..d506ee9 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -3522,6 +3522,7 @@ trunk_memtable_compact_and_build_filter(trunk_handle  *spl,
    cmt->req->type   = TRUNK_COMPACTION_TYPE_MEMTABLE;
    uint32 *dup_fp_arr =
       TYPED_ARRAY_MALLOC(spl->heap_id, dup_fp_arr, req.num_tuples);
+   platform_assert(dup_fp_arr);
    memmove(dup_fp_arr, cmt->req->fp_arr, req.num_tuples * sizeof(uint32));
    routing_filter empty_filter = {0};
 
@@ -4721,7 +4722,8 @@ trunk_flush(trunk_handle     *spl,
 
    // flush the branch references into a new bundle in the child
    trunk_compact_bundle_req *req = TYPED_ZALLOC(spl->heap_id, req);
-   trunk_bundle             *bundle =
+   platform_assert(req);
+   trunk_bundle *bundle =
       trunk_flush_into_bundle(spl, parent, &new_child, pdata, req);
    trunk_tuples_in_bundle(spl,
                           &new_child,
@@ -5639,6 +5641,7 @@ trunk_split_index(trunk_handle             *spl,
       req->node_id = left_node->hdr->node_id;
 
       trunk_compact_bundle_req *next_req = TYPED_MALLOC(spl->heap_id, next_req);
+      platform_assert(next_req);
       memmove(next_req, req, sizeof(trunk_compact_bundle_req));
       next_req->addr = right_node.addr;
       trunk_key_buffer_init(
@@ -6037,9 +6040,10 @@ trunk_split_leaf(trunk_handle *spl,
           * 6. Issue compact_bundle for leaf and release
           */
          trunk_compact_bundle_req *req = TYPED_ZALLOC(spl->heap_id, req);
-         req->spl                      = spl;
-         req->addr                     = leaf->addr;
-         req->type                     = comp_type;
+         platform_assert(req);
+         req->spl  = spl;
+         req->addr = leaf->addr;
+         req->type = comp_type;
          req->bundle_no                = bundle_no;
          req->max_pivot_generation     = trunk_pivot_generation(spl, leaf);
          req->pivot_generation[0]      = trunk_pivot_generation(spl, leaf) - 1;
@@ -6071,8 +6075,9 @@ trunk_split_leaf(trunk_handle *spl,
 
    // set next_addr of leaf (from last iteration)
    trunk_compact_bundle_req *req = TYPED_ZALLOC(spl->heap_id, req);
-   req->spl                      = spl;
-   req->addr                     = leaf->addr;
+   platform_assert(req);
+   req->spl  = spl;
+   req->addr = leaf->addr;
    // req->height already 0
    req->bundle_no                    = bundle_no;
    req->max_pivot_generation         = trunk_pivot_generation(spl, leaf);
@@ -6666,8 +6671,9 @@ trunk_compact_leaf(trunk_handle *spl, trunk_node *leaf)
 
    // Issue compact_bundle for leaf and release
    trunk_compact_bundle_req *req = TYPED_ZALLOC(spl->heap_id, req);
-   req->spl                      = spl;
-   req->addr                     = leaf->addr;
+   platform_assert(req);
+   req->spl  = spl;
+   req->addr = leaf->addr;
    // req->height already 0
    req->bundle_no                    = bundle_no;
    req->max_pivot_generation         = trunk_pivot_generation(spl, leaf);
-- 
2.43.0


From 1470fc2d6e74e6c37f715b75e78c5f143299b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 14/20] fix: report a failed final merge of a lookup

---
 src/trunk.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index d506ee9..c9d5f95 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7018,6 +7018,8 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    // 2. for gen = mt->generation; mt[gen % ...].gen == gen; gen --;
    //                also handles switch to READY ^^^^^
 
+   platform_status final_rc = STATUS_OK;
+
    merge_accumulator_set_to_null(result);
 
    memtable_begin_lookup(spl->mt_ctxt);
@@ -7071,8 +7073,10 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    debug_assert(merge_accumulator_is_null(result)
                 || merge_accumulator_message_class(result)
                       == MESSAGE_TYPE_UPDATE);
-   if (!merge_accumulator_is_null(result)) {
-      data_merge_tuples_final(spl->cfg.data_cfg, target, result);
+   if (!merge_accumulator_is_null(result)
+       && data_merge_tuples_final(spl->cfg.data_cfg, target, result))
+   {
+      final_rc = STATUS_NO_MEMORY;
    }
 found_final_answer_early:
 
@@ -7098,7 +7102,7 @@ found_final_answer_early:
       merge_accumulator_set_to_null(result);
    }
 
-   return STATUS_OK;
+   return final_rc;
 }
 
 /*
@@ -7566,7 +7570,9 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                    && merge_accumulator_message_class(result)
                          != MESSAGE_TYPE_INSERT)
                {
-                  data_merge_tuples_final(spl->cfg.data_cfg, target, result);
+                  int rc =
+                     data_merge_tuples_final(spl->cfg.data_cfg, target, result);
+                  platform_assert(rc == 0);
                }
                trunk_async_set_state(ctxt, async_state_end);
                trunk_node_unget(spl->cc, &ctxt->trunk_node);
-- 
2.43.0


From 3b59fb583243d83952c6b5d2a8be9f53a8d1411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 15/20] fix: log the original start key of a compaction, not a
 stale pointer to it

The request's start key is overwritten for each new sibling, so the key
taken from it at the start may point into freed memory.
---
 src/trunk.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index c9d5f95..1d28237 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -5389,7 +5389,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
             spl,
             &stream,
             "compact_bundle discard split: range %s-%s, height %u, bundle %u\n",
-            key_string(trunk_data_config(spl), start_key),
+            key_string(trunk_data_config(spl),
+                       key_buffer_key(&scratch->req_original_start_key)),
             key_string(trunk_data_config(spl), end_key),
             req->height,
             req->bundle_no);
@@ -5506,7 +5507,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
          spl,
          &stream,
          "build_filter enqueue: range %s-%s, height %u, bundle %u\n",
-         key_string(trunk_data_config(spl), start_key),
+         key_string(trunk_data_config(spl),
+                    key_buffer_key(&scratch->req_original_start_key)),
          key_string(trunk_data_config(spl), end_key),
          req->height,
          req->bundle_no);
-- 
2.43.0


From 2615c011f38c85542da8b996a608b951bb5daa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 16/20] fix: write the reference counts before marking the
 store cleanly closed

---
 src/allocator.h    | 10 ++++++++++
 src/rc_allocator.c | 28 ++++++++++++++++++++++------
 src/trunk.c        |  4 ++++
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/allocator.h b/src/allocator.h
index f142879..2984d18 100644
--- a/src/allocator.h
+++ b/src/allocator.h
@@ -131,6 +131,7 @@ typedef platform_status (*get_super_addr_fn)(allocator        *al,
 typedef platform_status (*alloc_super_addr_fn)(allocator        *al,
                                                allocator_root_id spl_id,
                                                uint64           *addr);
+typedef platform_status (*persist_fn)(allocator *al);
 typedef void (*remove_super_addr_fn)(allocator *al, allocator_root_id spl_id);
 typedef uint64 (*get_size_fn)(allocator *al);
 typedef uint64 (*base_addr_fn)(const allocator *al, uint64 addr);
@@ -154,6 +155,8 @@ typedef struct allocator_ops {
    get_super_addr_fn    get_super_addr;
    remove_super_addr_fn remove_super_addr;
 
+   persist_fn persist;
+
    get_size_fn in_use;
 
    get_size_fn  get_capacity;
@@ -220,6 +223,13 @@ allocator_remove_super_addr(allocator *al, allocator_root_id spl_id)
    return al->ops->remove_super_addr(al, spl_id);
 }
 
+// Write the reference counts to disk.
+static inline platform_status
+allocator_persist(allocator *al)
+{
+   return al->ops->persist(al);
+}
+
 static inline uint64
 allocator_in_use(allocator *al)
 {
diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index eca7be4..c2798e0 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -130,6 +130,16 @@ rc_allocator_remove_super_addr_virtual(allocator *a, allocator_root_id spl_id)
    rc_allocator_remove_super_addr(al, spl_id);
 }
 
+platform_status
+rc_allocator_persist(rc_allocator *al);
+
+platform_status
+rc_allocator_persist_virtual(allocator *a)
+{
+   rc_allocator *al = (rc_allocator *)a;
+   return rc_allocator_persist(al);
+}
+
 uint64
 rc_allocator_in_use(rc_allocator *al);
 
@@ -189,6 +199,7 @@ const static allocator_ops rc_allocator_ops = {
    .get_super_addr    = rc_allocator_get_super_addr_virtual,
    .alloc_super_addr  = rc_allocator_alloc_super_addr_virtual,
    .remove_super_addr = rc_allocator_remove_super_addr_virtual,
+   .persist           = rc_allocator_persist_virtual,
    .in_use            = rc_allocator_in_use_virtual,
    .get_capacity      = rc_allocator_get_capacity_virtual,
    .assert_noleaks    = rc_allocator_assert_noleaks_virtual,
@@ -475,16 +486,21 @@ rc_allocator_mount(rc_allocator      *al,
 }
 
 
+// write the ref counts to disk.
+platform_status
+rc_allocator_persist(rc_allocator *al)
+{
+   uint32 io_size =
+      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
+   return io_write(
+      al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+}
+
 void
 rc_allocator_unmount(rc_allocator *al)
 {
-   platform_status status;
-
    // persist the ref counts upon unmount.
-   uint32 io_size =
-      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
-   status =
-      io_write(al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+   platform_status status = rc_allocator_persist(al);
    platform_assert_status_ok(status);
    rc_allocator_deinit(al);
 }
diff --git a/src/trunk.c b/src/trunk.c
index 1d28237..3d01a40 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -8057,6 +8057,10 @@ trunk_unmount(trunk_handle **spl_in)
    trunk_handle *spl = *spl_in;
    srq_deinit(&spl->srq);
    trunk_prepare_for_shutdown(spl);
+   // The next mount trusts the ref counts on disk if it finds the super block
+   // marked unmounted, so they must be there first.
+   platform_status rc = allocator_persist(spl->al);
+   platform_assert_status_ok(rc);
    trunk_set_super_block(spl, FALSE, TRUE, FALSE);
    if (spl->cfg.use_stats) {
       for (uint64 i = 0; i < MAX_THREADS; i++) {
-- 
2.43.0


From c28e3c604353b0a6901215d00c70287f9abdd940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 17/20] fix: wait for a concurrent writeback when a page is
 synced

---
 src/clockcache.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 2486c72..17395d8 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2701,9 +2701,14 @@ clockcache_page_sync(clockcache  *cc,
    const threadid  tid  = platform_get_tid();
    platform_status status;
 
-   if (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
-      platform_assert(clockcache_test_flag(cc, entry_number, CC_CLEAN));
-      return;
+   while (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
+      // someone else may be writing the page back
+      uint32 entry_status = clockcache_get_status(cc, entry_number);
+      if (entry_status & CC_CLEAN) {
+         return;
+      }
+      platform_assert((entry_status & ~(CC_ACCESSED | CC_WRITEBACK)) == 0);
+      clockcache_wait(cc);
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From 540e0b313ac45e2763be40730c248c604caeb43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 18/20] fix: write back only frames that still hold the page
 they were looked up for

---
 src/clockcache.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 17395d8..54fbf05 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -1246,6 +1246,32 @@ clockcache_try_set_writeback(clockcache *cc,
    return FALSE;
 }
 
+/*
+ *----------------------------------------------------------------------
+ * clockcache_try_set_writeback_addr
+ *
+ *      Same as clockcache_try_set_writeback, for an entry that was looked up
+ *      by address without holding it: the entry may have been evicted and
+ *      reused for another page since. It cannot change while it is in
+ *      writeback.
+ *----------------------------------------------------------------------
+ */
+static inline bool32
+clockcache_try_set_writeback_addr(clockcache *cc,
+                                  uint32      entry_number,
+                                  uint64      addr,
+                                  bool32      with_access)
+{
+   if (!clockcache_try_set_writeback(cc, entry_number, with_access)) {
+      return FALSE;
+   }
+   if (clockcache_get_entry(cc, entry_number)->page.disk_addr != addr) {
+      clockcache_clear_flag(cc, entry_number, CC_WRITEBACK);
+      return FALSE;
+   }
+   return TRUE;
+}
+
 
 /*
  *----------------------------------------------------------------------
@@ -1358,7 +1384,8 @@ clockcache_batch_start_writeback(clockcache *cc, uint64 batch, bool32 is_urgent)
                next_entry_no = CC_UNMAPPED_ENTRY;
          } while (
             next_entry_no != CC_UNMAPPED_ENTRY
-            && clockcache_try_set_writeback(cc, next_entry_no, is_urgent));
+            && clockcache_try_set_writeback_addr(
+               cc, next_entry_no, first_addr, is_urgent));
          first_addr += page_size;
          end_addr = entry->page.disk_addr;
          // walk forwards through extent to find last cleanable entry
@@ -1371,7 +1398,8 @@ clockcache_batch_start_writeback(clockcache *cc, uint64 batch, bool32 is_urgent)
                next_entry_no = CC_UNMAPPED_ENTRY;
          } while (
             next_entry_no != CC_UNMAPPED_ENTRY
-            && clockcache_try_set_writeback(cc, next_entry_no, is_urgent));
+            && clockcache_try_set_writeback_addr(
+               cc, next_entry_no, end_addr, is_urgent));
 
          io_async_req *req            = io_get_async_req(cc->io, TRUE);
          void         *req_metadata   = io_get_metadata(cc->io, req);
@@ -2802,7 +2830,8 @@ clockcache_extent_sync(clockcache *cc, uint64 addr, uint64 *pages_outstanding)
       page_addr    = addr + clockcache_multiply_by_page_size(cc, i);
       entry_number = clockcache_lookup(cc, page_addr);
       if (entry_number != CC_UNMAPPED_ENTRY
-          && clockcache_try_set_writeback(cc, entry_number, TRUE))
+          && clockcache_try_set_writeback_addr(
+             cc, entry_number, page_addr, TRUE))
       {
          if (req_count == 0) {
             req_addr = page_addr;
-- 
2.43.0


From 830a3f2cf279ab75edaad2e154b076f55aa395d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 19/20] fix: do not hand out a page whose load was given up

---
 src/clockcache.c | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 54fbf05..5ca1682 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2174,11 +2174,6 @@ clockcache_get_internal(clockcache   *cc,       // IN
                            addr);
             return TRUE;
          }
-         if (clockcache_get_entry(cc, entry_number)->page.disk_addr != addr) {
-            // this also means we raced with eviction and really lost
-            clockcache_dec_ref(cc, entry_number, tid);
-            return TRUE;
-         }
       } else {
          clockcache_record_backtrace(cc, entry_number);
          switch (clockcache_try_get_read(cc, entry_number, TRUE)) {
@@ -2199,24 +2194,26 @@ clockcache_get_internal(clockcache   *cc,       // IN
                               addr);
                return TRUE;
             case GET_RC_SUCCESS:
-               if (clockcache_get_entry(cc, entry_number)->page.disk_addr
-                   != addr)
-               {
-                  // this also means we raced with eviction and really lost
-                  clockcache_dec_ref(cc, entry_number, tid);
-                  return TRUE;
-               }
                break;
             default:
                platform_assert(0);
          }
       }
 
-      while (clockcache_test_flag(cc, entry_number, CC_LOADING)) {
+      uint32 entry_status = clockcache_get_status(cc, entry_number);
+      while (entry_status & CC_LOADING) {
          clockcache_wait(cc);
+         entry_status = clockcache_get_status(cc, entry_number);
       }
       entry = clockcache_get_entry(cc, entry_number);
 
+      if ((entry_status & CC_FREE) || entry->page.disk_addr != addr) {
+         // this also means we raced with eviction (or with a load which was
+         // given up) and really lost
+         clockcache_dec_ref(cc, entry_number, tid);
+         return TRUE;
+      }
+
       if (cc->cfg->use_stats) {
          cc->stats[tid].cache_hits[type]++;
       }
@@ -2421,12 +2418,7 @@ clockcache_get_async(clockcache       *cc,   // IN
                         addr);
          return async_locked;
       }
-      if (clockcache_get_entry(cc, entry_number)->page.disk_addr != addr) {
-         // this also means we raced with eviction and really lost
-         clockcache_dec_ref(cc, entry_number, tid);
-         return async_locked;
-      }
-      if (clockcache_test_flag(cc, entry_number, CC_LOADING)) {
+      if (clockcache_test_flag(cc, entry_number, CC_FREE | CC_LOADING)) {
          /*
           * This is rare but when it happens, we could burn CPU retrying
           * the get operation until an IO is complete.
@@ -2434,6 +2426,11 @@ clockcache_get_async(clockcache       *cc,   // IN
          clockcache_dec_ref(cc, entry_number, tid);
          return async_locked;
       }
+      if (clockcache_get_entry(cc, entry_number)->page.disk_addr != addr) {
+         // this also means we raced with eviction and really lost
+         clockcache_dec_ref(cc, entry_number, tid);
+         return async_locked;
+      }
       entry = clockcache_get_entry(cc, entry_number);
 
       if (cc->cfg->use_stats) {
-- 
2.43.0


From b36ce48a85da1ea0adbba24722212fb51a9f6e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:27 +0000
Subject: [PATCH 20/20] fix: report an asynchronous write that was cut short

---
 src/platform_linux/laio.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index 5fa30b0..2cea829 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -395,6 +395,16 @@ laio_get_req_context(io_handle *ioh, io_async_req *req)
    return &io->ctx[req->ctx_idx];
 }
 
+static uint64
+laio_req_size(const io_async_req *req)
+{
+   uint64 size = 0;
+   for (uint64 i = 0; i < req->count; i++) {
+      size += req->iovec[i].iov_len;
+   }
+   return size;
+}
+
 void
 laio_callback(io_context_t ctx, struct iocb *iocb, long res, long res2)
 {
@@ -402,11 +412,18 @@ laio_callback(io_context_t ctx, struct iocb *iocb, long res, long res2)
    platform_status status = STATUS_OK;
 
    platform_assert(res2 == 0);
+   req = (io_async_req *)((char *)iocb - offsetof(io_async_req, iocb));
    if (res < 0) {
       platform_error_log("async IO failed: %s\n", strerror(-res));
       status = STATUS_IO_ERROR;
+   } else if (iocb->aio_lio_opcode == IO_CMD_PWRITEV
+              && (uint64)res < laio_req_size(req))
+   {
+      // A read beyond the end of the file is short, but a short write means
+      // that some of the data is not on disk.
+      platform_error_log("async write was cut short: %ld bytes written\n", res);
+      status = STATUS_IO_ERROR;
    }
-   req = (io_async_req *)((char *)iocb - offsetof(io_async_req, iocb));
    req->callback(req->metadata, req->iovec, req->count, status);
    req->ctx_idx = INVALID_TID;
 }
-- 
2.43.0

