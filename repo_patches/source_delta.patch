From c89a167a27a1c196265b1f773086f51dfa56bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:01 +0000
Subject: [PATCH 01/48] fix: merge iterator returned the current key again when
 it changed direction

---
 src/merge.c | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index c764477..446a3e2 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -609,8 +609,8 @@ merge_iterator_destroy(platform_heap_id hid, merge_iterator **merge_itor)
  * merge_iterator_set_direction --
  *
  *      Prepares the merge iterator for traveling either forwards or backwards
- *      by calling next or prev respectively on each iterator and then
- *      resorting.
+ *      by calling next or prev respectively on each iterator until it is
+ *      beyond the current key and then resorting.
  *
  * Results:
  *      0 if successful, error otherwise
@@ -621,18 +621,44 @@ merge_iterator_set_direction(merge_iterator *merge_itor, bool32 forwards)
 {
    debug_assert(merge_itor->forwards != forwards);
    platform_status rc;
-   merge_itor->forwards = forwards;
 
-   // Step every iterator, both alive and dead, in the appropriate direction.
-   for (int i = 0; i < merge_itor->num_trees; i++) {
-      if (forwards && iterator_can_next(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_next(merge_itor->ordered_iterators[i]->itor);
+   /*
+    * Merging the current key may have advanced some of the iterators past it,
+    * so remember where we are: stepping those iterators only brings them back
+    * to the current key, which must not be returned a second time.
+    */
+   bool32 have_curr_key = !key_is_null(merge_itor->curr_key);
+   DECLARE_AUTO_KEY_BUFFER(saved_key_buffer, PROCESS_PRIVATE_HEAP_ID);
+   if (have_curr_key) {
+      rc = key_buffer_copy_key(&saved_key_buffer, merge_itor->curr_key);
+      if (!SUCCESS(rc)) {
+         return rc;
       }
-      if (!forwards
-          && iterator_can_prev(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_prev(merge_itor->ordered_iterators[i]->itor);
+   }
+   merge_itor->forwards  = forwards;
+   merge_itor->curr_key  = NULL_KEY;
+   merge_itor->curr_data = NULL_MESSAGE;
+
+   // Move every iterator, both alive and dead, in the appropriate direction
+   // until it is beyond the current key.
+   for (int i = 0; i < merge_itor->num_trees; i++) {
+      iterator *itor = merge_itor->ordered_iterators[i]->itor;
+      while (forwards ? iterator_can_next(itor) : iterator_can_prev(itor)) {
+         rc = forwards ? iterator_next(itor) : iterator_prev(itor);
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
+         if (!have_curr_key || !iterator_can_curr(itor)) {
+            break;
+         }
+         key     itor_key;
+         message itor_data;
+         iterator_curr(itor, &itor_key, &itor_data);
+         int cmp = data_key_compare(
+            merge_itor->cfg, itor_key, key_buffer_key(&saved_key_buffer));
+         if (forwards ? cmp > 0 : cmp < 0) {
+            break;
+         }
       }
    }
 
-- 
2.43.0


From 170a97ace17e73aca24a3479118d0bada3550101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:31 +0000
Subject: [PATCH 02/48] fix: backward scan crossing into the previous trunk
 leaf must start from the largest key, not the smallest

---
 src/merge.c | 24 +++++++++++++++++++++++-
 src/merge.h |  9 +++++++++
 src/trunk.c | 14 ++++++++------
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index 446a3e2..9b7482d 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -524,6 +524,28 @@ merge_iterator_create(platform_heap_id hid,
                       iterator       **itor_arr,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor)
+{
+   return merge_iterator_create_directed(
+      hid, cfg, num_trees, itor_arr, merge_mode, TRUE, out_itor);
+}
+
+/*
+ *-----------------------------------------------------------------------------
+ * merge_iterator_create_directed --
+ *
+ *      Like merge_iterator_create, but the merge iterator starts out traveling
+ *      in the given direction: forwards, its first key is the smallest of the
+ *      input iterators' current keys, backwards the largest.
+ *-----------------------------------------------------------------------------
+ */
+platform_status
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor)
 {
    int             i;
    platform_status rc = STATUS_OK;
@@ -562,7 +584,7 @@ merge_iterator_create(platform_heap_id hid,
 
    merge_itor->cfg      = cfg;
    merge_itor->curr_key = NULL_KEY;
-   merge_itor->forwards = TRUE;
+   merge_itor->forwards = forwards;
 
    // index -1 initializes the pad variable
    for (i = -1; i < num_trees; i++) {
diff --git a/src/merge.h b/src/merge.h
index 0556e0f..4f494ba 100644
--- a/src/merge.h
+++ b/src/merge.h
@@ -101,6 +101,15 @@ merge_iterator_create(platform_heap_id hid,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor);
 
+platform_status
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor);
+
 platform_status
 merge_iterator_destroy(platform_heap_id hid, merge_iterator **merge_itor);
 
diff --git a/src/trunk.c b/src/trunk.c
index 8104068..55397a4 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6329,12 +6329,14 @@ trunk_range_iterator_init(trunk_handle         *spl,
       range_itor->itor[i] = &btree_itor->super;
    }
 
-   platform_status rc = merge_iterator_create(spl->heap_id,
-                                              spl->cfg.data_cfg,
-                                              range_itor->num_branches,
-                                              range_itor->itor,
-                                              MERGE_FULL,
-                                              &range_itor->merge_itor);
+   platform_status rc =
+      merge_iterator_create_directed(spl->heap_id,
+                                     spl->cfg.data_cfg,
+                                     range_itor->num_branches,
+                                     range_itor->itor,
+                                     MERGE_FULL,
+                                     start_type >= greater_than,
+                                     &range_itor->merge_itor);
    if (!SUCCESS(rc)) {
       return rc;
    }
-- 
2.43.0


From fa9b4328dfac7645cac08fc2ac7c7afd9956f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:42 +0000
Subject: [PATCH 03/48] fix: range iterator used the bounds of a trunk leaf
 after releasing it

---
 src/trunk.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 55397a4..007525a 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6348,13 +6348,21 @@ trunk_range_iterator_init(trunk_handle         *spl,
     * db/range, move to prev/next leaf
     */
    if (!in_range && start_type >= greater_than) {
-      if (trunk_key_compare(spl, local_max, max_key) < 0) {
+      // the leaf is no longer held, so use our own copy of its bound
+      KEY_CREATE_LOCAL_COPY(rc,
+                            next_start_key,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_max_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      if (trunk_key_compare(spl, next_start_key, max_key) < 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_max,
+                                        next_start_key,
                                         start_type,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
@@ -6367,13 +6375,20 @@ trunk_range_iterator_init(trunk_handle         *spl,
       }
    }
    if (!in_range && start_type <= less_than_or_equal) {
-      if (trunk_key_compare(spl, local_min, min_key) > 0) {
+      KEY_CREATE_LOCAL_COPY(rc,
+                            prev_start_key,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_min_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      if (trunk_key_compare(spl, prev_start_key, min_key) > 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_min,
+                                        prev_start_key,
                                         start_type,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
-- 
2.43.0


From f97038c4aa3d12b444f6f4326c368629ce3b21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:00 +0000
Subject: [PATCH 04/48] fix: B-tree iterator seeking between two leaves lost
 the keys of the first one for backward steps

---
 src/btree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 55752cf..bff31e7 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2858,8 +2858,13 @@ find_btree_node_and_get_idx_bounds(btree_iterator *itor,
    if (itor->curr.addr != itor->end_addr
        && itor->idx == btree_num_entries(itor->curr.hdr))
    {
+      // all entries of this leaf are below target: are they all out of range?
+      bool32 irrelevant_leaf =
+         itor->curr_min_idx == btree_num_entries(itor->curr.hdr);
       btree_iterator_next_leaf(itor);
-      itor->curr_min_idx = 0; // we came from an irrelevant leaf
+      if (irrelevant_leaf) {
+         itor->curr_min_idx = 0;
+      }
    }
    if (itor->curr_min_idx == -1 && itor->idx == -1) {
       btree_iterator_prev_leaf(itor);
-- 
2.43.0


From 391ecf3b5fdd7cdfda94f56e7859a019af19aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:12 +0000
Subject: [PATCH 05/48] fix: merge iterator kept a stale equal-key mark across
 a change of direction

---
 src/merge.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/merge.c b/src/merge.c
index 9b7482d..a420dcf 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -443,6 +443,8 @@ setup_ordered_iterators(merge_iterator *merge_itor)
       } else {
          set_curr_ordered_iterator(merge_itor->cfg,
                                    merge_itor->ordered_iterators[i]);
+         // may be stale from before a change of direction
+         merge_itor->ordered_iterators[i]->next_key_equal = FALSE;
          i++;
       }
    }
-- 
2.43.0


From 4460754d0602e05f07c24b1db5ea5037fe5b1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:18 +0000
Subject: [PATCH 06/48] fix: a filter build aborted by a leaf split released a
 trunk root claim it did not hold

---
 src/trunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 007525a..2ae06cc 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4310,7 +4310,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
          if (trunk_build_filter_should_abort(compact_req, &node)) {
             trunk_log_stream_if_enabled(
                spl, &stream, "replace_filter abort leaf split\n");
-            trunk_root_full_unclaim(spl);
             trunk_node_unlock(spl->cc, &node);
             trunk_node_unclaim(spl->cc, &node);
             trunk_node_unget(spl->cc, &node);
-- 
2.43.0


From f08b39a3b9186226b15b5b0f25368734cbfee69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:40 +0000
Subject: [PATCH 07/48] fix: lookups and scans read branches and filters which
 garbage collection had freed

A reader may be using any older version of the copy-on-write trunk. Garbage
collection only waited for the readers of the version replaced last, and the
filters of a cleared bundle were dereferenced without waiting at all. Wait for
all readers, and dereference the filters only then.
---
 src/trunk.c | 151 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 117 insertions(+), 34 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 2ae06cc..4e618a6 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -94,6 +94,13 @@ static const int64 latency_histo_buckets[LATENCYHISTO_SIZE] = {
  */
 #define TRUNK_ROOT_LOCK_IDX 0
 
+/*
+ * Index in the trunk_root_lock batch rwlock of the lock which readers hold
+ * while they use branches and filters reachable from the root they started
+ * from (see trunk_begin_read).
+ */
+#define TRUNK_READER_LOCK_IDX 1
+
 /*
  * During Splinter configuration, the fanout parameter is provided by the user.
  * SplinterDB defers internal node splitting in order to use hand-over-hand
@@ -801,6 +808,7 @@ static inline uint16               trunk_bundle_start_branch       (trunk_handle
 static inline uint16               trunk_start_bundle              (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_inc_start_bundle          (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_end_bundle                (trunk_handle *spl, trunk_node *node);
+static inline void                 trunk_bundle_dec_filters        (trunk_handle *spl, trunk_node *node, trunk_bundle *bundle);
 static inline uint16               trunk_bundle_clear_subbundles   (trunk_handle *spl, trunk_node *node, trunk_bundle *bundle);
 static inline uint16               trunk_add_subbundle_number      (trunk_handle *spl, uint16 start, uint16 end);
 static inline uint16               trunk_subtract_subbundle_number (trunk_handle *spl, uint16 start, uint16 end);
@@ -1131,6 +1139,43 @@ trunk_root_get(trunk_handle *spl, trunk_node *root)
    platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
 }
 
+/*
+ *-----------------------------------------------------------------------------
+ * Protect readers from garbage collection
+ *
+ * A reader may be using any older version of the trunk, not only the one which
+ * was replaced last, so branches and filters which the latest version no
+ * longer references may only be dereferenced after trunk_drain_readers, which
+ * waits until every reader which may have started from an older root is done.
+ *
+ * trunk_drain_readers must be called after the new root is in place and
+ * without holding a lock on any node of the latest version.
+ *-----------------------------------------------------------------------------
+ */
+static inline void
+trunk_begin_read(trunk_handle *spl)
+{
+   platform_batch_rwlock_get(&spl->trunk_root_lock, TRUNK_READER_LOCK_IDX);
+}
+
+static inline void
+trunk_end_read(trunk_handle *spl)
+{
+   platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_READER_LOCK_IDX);
+}
+
+static inline void
+trunk_drain_readers(trunk_handle *spl)
+{
+   platform_batch_rwlock *lock = &spl->trunk_root_lock;
+   platform_batch_rwlock_get(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_claim_loop(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_lock(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_unlock(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_unclaim(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_unget(lock, TRUNK_READER_LOCK_IDX);
+}
+
 /*
  *-----------------------------------------------------------------------------
  * Fetch Trunk Nodes By Key and Height
@@ -2085,6 +2130,7 @@ trunk_reset_start_branch(trunk_handle *spl, trunk_node *node)
           * either all branches in the bundle are live or none are, so in this
           * case none are
           */
+         trunk_bundle_dec_filters(spl, node, bundle);
          trunk_bundle_clear_subbundles(spl, node, bundle);
          trunk_inc_start_bundle(spl, node);
          trunk_default_log_if_enabled(
@@ -2408,10 +2454,10 @@ trunk_start_subbundle_for_lookup(trunk_handle *spl, trunk_node *node)
       spl, trunk_end_subbundle(spl, node), 1);
 }
 
-static inline uint16
-trunk_bundle_clear_subbundles(trunk_handle *spl,
-                              trunk_node   *node,
-                              trunk_bundle *bundle)
+static inline void
+trunk_bundle_dec_filters(trunk_handle *spl,
+                         trunk_node   *node,
+                         trunk_bundle *bundle)
 {
    uint16 start_filter = trunk_bundle_start_filter(spl, node, bundle);
    uint16 end_filter   = trunk_bundle_end_filter(spl, node, bundle);
@@ -2421,7 +2467,18 @@ trunk_bundle_clear_subbundles(trunk_handle *spl,
       routing_filter *filter = trunk_get_sb_filter(spl, node, filter_no);
       trunk_dec_filter(spl, filter);
    }
-   node->hdr->start_sb_filter = end_filter;
+}
+
+/*
+ * Removes the subbundles of the bundle from the node. The caller takes care of
+ * the references to their filters.
+ */
+static inline uint16
+trunk_bundle_clear_subbundles(trunk_handle *spl,
+                              trunk_node   *node,
+                              trunk_bundle *bundle)
+{
+   node->hdr->start_sb_filter = trunk_bundle_end_filter(spl, node, bundle);
    node->hdr->start_subbundle = bundle->end_subbundle;
    return node->hdr->start_subbundle;
 }
@@ -2622,6 +2679,10 @@ trunk_reset_start_frac_branch(trunk_handle *spl, trunk_node *node)
    }
 }
 
+/*
+ * Clears the bundle from the node. Its filters are dereferenced in
+ * trunk_garbage_collect_filters.
+ */
 static inline void
 trunk_clear_bundle(trunk_handle *spl, trunk_node *node, uint16 bundle_no)
 {
@@ -2839,13 +2900,14 @@ trunk_process_generation_to_pos(trunk_handle             *spl,
  * Returns the node with a write lock.
  */
 static inline void
-trunk_garbage_collect_node_get(trunk_handle             *spl,
-                               uint64                    old_root_addr,
-                               trunk_compact_bundle_req *req,
-                               trunk_node               *out_node)
+trunk_garbage_collect_node_get(trunk_handle *spl,
+                               uint64        old_root_addr,
+                               key           start_key,
+                               uint16        height,
+                               trunk_node   *out_node)
 {
-   uint16 height    = req->height;
-   key    start_key = key_buffer_key(&req->start_key);
+   trunk_drain_readers(spl);
+
    /*
     * Note: don't need to acquire the trunk_root_lock here, since this is an
     * old snapshot
@@ -2889,10 +2951,12 @@ trunk_garbage_collect_node_get(trunk_handle             *spl,
 static inline void
 trunk_garbage_collect_bundle(trunk_handle             *spl,
                              uint64                    old_root_addr,
-                             trunk_compact_bundle_req *req)
+                             trunk_compact_bundle_req *req,
+                             bool32                    bundle_vanished)
 {
    trunk_node node;
-   trunk_garbage_collect_node_get(spl, old_root_addr, req, &node);
+   trunk_garbage_collect_node_get(
+      spl, old_root_addr, key_buffer_key(&req->start_key), req->height, &node);
 
    uint16        bundle_no    = req->bundle_no;
    trunk_bundle *bundle       = trunk_get_bundle(spl, &node, bundle_no);
@@ -2923,6 +2987,10 @@ trunk_garbage_collect_bundle(trunk_handle             *spl,
       }
    }
 
+   if (bundle_vanished && trunk_bundle_live(spl, &node, bundle_no)) {
+      trunk_bundle_dec_filters(spl, &node, bundle);
+   }
+
    trunk_node_unlock(spl->cc, &node);
    trunk_node_unclaim(spl->cc, &node);
    trunk_node_unget(spl->cc, &node);
@@ -2997,14 +3065,7 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
     * if the bundle has no keys, move the filters to form a contiguous array
     */
    if (repl_branch == NULL) {
-      // decrement the ref counts of the old filters
-      for (uint16 filter_no = trunk_bundle_start_filter(spl, node, bundle);
-           filter_no != trunk_bundle_end_filter(spl, node, bundle);
-           filter_no = trunk_add_subbundle_filter_number(spl, filter_no, 1))
-      {
-         routing_filter *old_filter = trunk_get_sb_filter(spl, node, filter_no);
-         trunk_dec_filter(spl, old_filter);
-      }
+      // the old filters are dereferenced in trunk_garbage_collect_bundle
 
       // move any later filters
       uint16 filter_diff = trunk_bundle_filter_count(spl, node, bundle);
@@ -4065,6 +4126,9 @@ trunk_prepare_build_filter(trunk_handle             *spl,
             spl, compact_req, pdata->generation);
          platform_assert(pos != TRUNK_MAX_PIVOTS);
          filter_scratch->old_filter[pos] = pdata->filter;
+         if (pdata->filter.addr != 0) {
+            trunk_inc_filter(spl, &pdata->filter);
+         }
          filter_scratch->value[pos] =
             trunk_pivot_whole_branch_count(spl, node, pdata);
          filter_scratch->should_build[pos] = TRUE;
@@ -4125,9 +4189,7 @@ trunk_build_filters(trunk_handle             *spl,
       uint32 *fp_arr           = filter_scratch->fp_arr + fp_start;
       uint32  num_fingerprints = fp_end - fp_start;
       if (num_fingerprints == 0) {
-         if (old_filter.addr != 0) {
-            trunk_inc_filter(spl, &old_filter);
-         }
+         // passes on the reference from trunk_prepare_build_filter
          filter_scratch->filter[pos] = old_filter;
          continue;
       }
@@ -4142,6 +4204,7 @@ trunk_build_filters(trunk_handle             *spl,
                                               num_fingerprints,
                                               value);
       platform_assert(SUCCESS(rc));
+      trunk_dec_filter(spl, &old_filter);
 
       filter_scratch->filter[pos]       = new_filter;
       filter_scratch->should_build[pos] = FALSE;
@@ -4215,10 +4278,12 @@ trunk_replace_routing_filter(trunk_handle             *spl,
 static inline void
 trunk_garbage_collect_filters(trunk_handle             *spl,
                               uint64                    old_root_addr,
+                              key                       start_key,
                               trunk_compact_bundle_req *req)
 {
    trunk_node node;
-   trunk_garbage_collect_node_get(spl, old_root_addr, req, &node);
+   trunk_garbage_collect_node_get(
+      spl, old_root_addr, start_key, req->height, &node);
 
    uint16 num_children = trunk_num_children(spl, &node);
    for (uint16 pivot_no = 0; pivot_no < num_children; pivot_no++) {
@@ -4229,6 +4294,10 @@ trunk_garbage_collect_filters(trunk_handle             *spl,
       debug_assert(pdata->generation < req->max_pivot_generation);
       trunk_dec_filter(spl, &pdata->filter);
    }
+   if (trunk_bundle_live(spl, &node, req->bundle_no)) {
+      trunk_bundle *bundle = trunk_get_bundle(spl, &node, req->bundle_no);
+      trunk_bundle_dec_filters(spl, &node, bundle);
+   }
    trunk_node_unlock(spl->cc, &node);
    trunk_node_unclaim(spl->cc, &node);
    trunk_node_unget(spl->cc, &node);
@@ -4247,7 +4316,8 @@ trunk_bundle_build_filters(void *arg, void *scratch)
 
    bool32 should_continue_build_filters = TRUE;
    while (should_continue_build_filters) {
-      trunk_node      node;
+      trunk_node node;
+      trunk_begin_read(spl);
       platform_status rc =
          trunk_compact_bundle_node_get(spl, compact_req, &node);
       platform_assert_status_ok(rc);
@@ -4268,15 +4338,18 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       if (trunk_build_filter_should_abort(compact_req, &node)) {
          trunk_log_stream_if_enabled(spl, &stream, "leaf split, aborting\n");
          trunk_node_unget(spl->cc, &node);
+         trunk_end_read(spl);
          goto out;
       }
       if (trunk_build_filter_should_skip(compact_req, &node)) {
          trunk_log_stream_if_enabled(
             spl, &stream, "bundle flushed, skipping\n");
+         trunk_end_read(spl);
          goto next_node;
       }
 
       if (trunk_build_filter_should_reenqueue(compact_req, &node)) {
+         trunk_end_read(spl);
          task_enqueue(spl->ts,
                       TASK_TYPE_NORMAL,
                       trunk_bundle_build_filters,
@@ -4293,6 +4366,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       trunk_filter_scratch filter_scratch = {0};
       trunk_prepare_build_filter(spl, compact_req, &filter_scratch, &node);
       trunk_node_unget(spl->cc, &node);
+      trunk_end_read(spl);
 
       trunk_build_filters(spl, compact_req, &filter_scratch);
 
@@ -4349,6 +4423,12 @@ trunk_bundle_build_filters(void *arg, void *scratch)
             key_string(trunk_data_config(spl),
                        key_buffer_key(&compact_req->end_key)));
 
+         trunk_garbage_collect_filters(
+            spl,
+            old_root_addr,
+            key_buffer_key(&filter_scratch.start_key),
+            compact_req);
+
          key_buffer_copy_key(&filter_scratch.start_key,
                              trunk_max_key(spl, &node));
          should_continue_replacing_filters =
@@ -4356,8 +4436,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
                               key_buffer_key(&filter_scratch.start_key),
                               key_buffer_key(&filter_scratch.end_key));
 
-         trunk_garbage_collect_filters(spl, old_root_addr, compact_req);
-
          if (should_continue_replacing_filters) {
             trunk_log_stream_if_enabled(
                spl,
@@ -5419,17 +5497,18 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
 
       debug_assert(trunk_verify_node(spl, &node));
 
+      // release the lock on node, readers which wait for it must be able to
+      // drain
+      trunk_node_unlock(spl->cc, &node);
+      trunk_node_unclaim(spl->cc, &node);
+
       // garbage collect the old path and bundle
-      trunk_garbage_collect_bundle(spl, old_root_addr, req);
+      trunk_garbage_collect_bundle(spl, old_root_addr, req, num_tuples == 0);
 
       if (should_continue) {
          debug_assert(height != 0);
          key_buffer_copy_key(&req->start_key, max_key);
       }
-
-      // only release locks on node after the garbage collection is complete
-      trunk_node_unlock(spl->cc, &node);
-      trunk_node_unclaim(spl->cc, &node);
       trunk_node_unget(spl->cc, &node);
    }
 
@@ -6217,7 +6296,8 @@ trunk_range_iterator_init(trunk_handle         *spl,
    }
 
    trunk_node node;
-   trunk_node_get(spl->cc, spl->root_addr, &node);
+   trunk_begin_read(spl);
+   trunk_root_get(spl, &node);
    memtable_end_lookup(spl->mt_ctxt);
 
    // index btrees
@@ -6292,6 +6372,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
       &range_itor->local_max_key, spl->heap_id, local_max);
 
    trunk_node_unget(spl->cc, &node);
+   trunk_end_read(spl);
 
    for (uint64 i = 0; i < range_itor->num_branches; i++) {
       uint64          branch_no  = range_itor->num_branches - i - 1;
@@ -6982,6 +7063,7 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    }
 
    trunk_node node;
+   trunk_begin_read(spl);
    trunk_root_get(spl, &node);
 
    // release memtable lookup lock
@@ -7026,6 +7108,7 @@ found_final_answer_early:
       memtable_end_lookup(spl->mt_ctxt);
    } else {
       trunk_node_unget(spl->cc, &node);
+      trunk_end_read(spl);
    }
    if (spl->cfg.use_stats) {
       threadid tid = platform_get_tid();
-- 
2.43.0


From be23d28423c5a7f1fc37c5b84a8341be980c1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 08/48] fix: unique-key estimate ignored small filters and
 could divide by zero

---
 src/routing_filter.c | 9 ++++++---
 src/trunk.c          | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/routing_filter.c b/src/routing_filter.c
index b520ce5..94e3aae 100644
--- a/src/routing_filter.c
+++ b/src/routing_filter.c
@@ -702,6 +702,7 @@ routing_filter_estimate_unique_fp(cache           *cc,
 
    uint32 src_fp_no             = 0;
    uint32 dst_fp_no             = 0;
+   uint32 num_unsampled         = 0;
    uint32 fp_start[MAX_FILTERS] = {0};
    for (uint64 i = 0; i != num_filters; i++) {
       if (filter[i].addr == 0) {
@@ -720,8 +721,10 @@ routing_filter_estimate_unique_fp(cache           *cc,
       platform_assert(cfg->fingerprint_size + value_size <= 32);
       uint32 index_size = cfg->index_size;
 
-      if (num_indices >= 16) {
-         // the filter is too small forget it
+      if (num_indices < 16) {
+         // the filter is too small to sample, so use its own count
+         num_unsampled += filter[i].num_unique;
+      } else {
          platform_assert(num_indices % 16 == 0);
          num_indices /= 16;
 
@@ -811,7 +814,7 @@ routing_filter_estimate_unique_fp(cache           *cc,
    }
 
    platform_free(hid, local);
-   return num_unique * 16;
+   return num_unique * 16 + num_unsampled;
 }
 
 /*
diff --git a/src/trunk.c b/src/trunk.c
index 4e618a6..31ca06b 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -5742,6 +5742,10 @@ trunk_pivot_estimate_unique_keys(trunk_handle     *spl,
       trunk_bundle *bundle = trunk_get_bundle(spl, node, bundle_no);
       num_leaf_sb_fp += bundle->num_tuples;
    }
+   if (num_sb_fp == 0) {
+      // every tuple of the leaf is covered by the pivot's filter
+      return num_unique;
+   }
    uint64 est_num_leaf_sb_unique = num_sb_unique * num_leaf_sb_fp / num_sb_fp;
    uint64 est_num_non_leaf_sb_unique = num_sb_fp - est_num_leaf_sb_unique;
 
-- 
2.43.0


From c484afc0fec9686519d37fbb89555d7b2385548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:34 +0000
Subject: [PATCH 09/48] fix: an empty compaction left later subbundles with
 wrong filters and later bundles with new numbers

---
 src/trunk.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 31ca06b..c2f7fe1 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -3064,17 +3064,18 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
    /*
     * if the bundle has no keys, move the filters to form a contiguous array
     */
+   uint16 filter_diff = 0;
    if (repl_branch == NULL) {
       // the old filters are dereferenced in trunk_garbage_collect_bundle
 
       // move any later filters
-      uint16 filter_diff = trunk_bundle_filter_count(spl, node, bundle);
+      filter_diff = trunk_bundle_filter_count(spl, node, bundle);
       for (uint16 filter_no = trunk_bundle_end_filter(spl, node, bundle);
            filter_no != trunk_end_sb_filter(spl, node);
            filter_no = trunk_add_subbundle_filter_number(spl, filter_no, 1))
       {
          uint16 dst_filter_no =
-            trunk_subtract_subbundle_number(spl, filter_no, filter_diff);
+            trunk_subtract_subbundle_filter_number(spl, filter_no, filter_diff);
          *trunk_get_sb_filter(spl, node, dst_filter_no) =
             *trunk_get_sb_filter(spl, node, filter_no);
       }
@@ -3108,6 +3109,10 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
          trunk_subtract_branch_number(spl, sb->start_branch, branch_diff);
       sb->end_branch =
          trunk_subtract_branch_number(spl, sb->end_branch, branch_diff);
+      sb->start_filter = trunk_subtract_subbundle_filter_number(
+         spl, sb->start_filter, filter_diff);
+      sb->end_filter = trunk_subtract_subbundle_filter_number(
+         spl, sb->end_filter, filter_diff);
       uint16 dst_sb_no = trunk_subtract_subbundle_number(spl, sb_no, sb_diff);
       *trunk_get_subbundle(spl, node, dst_sb_no) = *sb;
    }
@@ -3160,7 +3165,17 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
    }
 
    // if there is no replacement branch, vanish the bundle
-   if (repl_branch == NULL) {
+   if (repl_branch == NULL && bundle_no == trunk_start_bundle(spl, node)) {
+      // requests for the later bundles are pending, so these must keep their
+      // numbers
+      trunk_inc_start_bundle(spl, node);
+      for (uint16 pivot_no = 0; pivot_no < num_children; pivot_no++) {
+         trunk_pivot_data *pdata = trunk_get_pivot_data(spl, node, pivot_no);
+         if (!trunk_bundle_valid(spl, node, pdata->start_bundle)) {
+            pdata->start_bundle = trunk_start_bundle(spl, node);
+         }
+      }
+   } else if (repl_branch == NULL) {
       for (uint16 later_bundle_no = bundle_no;
            later_bundle_no
            != trunk_subtract_bundle_number(spl, node->hdr->end_bundle, 1);
-- 
2.43.0


From b2bb752ce4f24f5874f71bd0cb647caf0219c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:54 +0000
Subject: [PATCH 10/48] fix: leaf split read tuples of single-leaf branches as
 pivot counts

---
 src/btree.c | 20 ++++++++++++++++++++
 src/btree.h |  4 ++++
 src/trunk.c |  5 +++++
 3 files changed, 29 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index bff31e7..8712918 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2527,6 +2527,15 @@ btree_iterator_curr(iterator *base_itor, key *curr_key, message *data)
       *curr_key = btree_get_tuple_key(itor->cfg, itor->curr.hdr, itor->idx);
       *data     = btree_get_tuple_message(itor->cfg, itor->curr.hdr, itor->idx);
       log_trace_key(*curr_key, "btree_iterator_get_curr");
+      if (itor->tuples_as_pivots) {
+         itor->tuple_pivot_data.stats.num_kvs       = 1;
+         itor->tuple_pivot_data.stats.key_bytes     = key_length(*curr_key);
+         itor->tuple_pivot_data.stats.message_bytes = message_length(*data);
+         *data                                      = message_create(
+            MESSAGE_TYPE_PIVOT_DATA,
+            slice_create(sizeof(itor->tuple_pivot_data),
+                         &itor->tuple_pivot_data));
+      }
    } else {
       index_entry *entry =
          btree_get_index_entry(itor->cfg, itor->curr.hdr, itor->idx);
@@ -2988,6 +2997,17 @@ btree_iterator_init(cache          *cc,
    itor->root_addr   = root_addr;
    itor->do_prefetch = do_prefetch;
    itor->height      = height;
+   if (height > 0) {
+      // a tree which is shorter than that is iterated by its tuples
+      btree_node root;
+      root.addr = root_addr;
+      btree_node_get(cc, cfg, &root, page_type);
+      if (btree_height(root.hdr) < height) {
+         itor->height           = btree_height(root.hdr);
+         itor->tuples_as_pivots = itor->height == 0;
+      }
+      btree_node_unget(cc, cfg, &root);
+   }
    itor->min_key     = min_key;
    itor->max_key     = max_key;
    itor->page_type   = page_type;
diff --git a/src/btree.h b/src/btree.h
index 841e415..2c66671 100644
--- a/src/btree.h
+++ b/src/btree.h
@@ -143,6 +143,10 @@ typedef struct btree_iterator {
    uint64     end_addr;
    int64      end_idx;
    uint64     end_generation;
+
+   // for a tree which is shorter than the height to iterate at
+   bool32           tuples_as_pivots;
+   btree_pivot_data tuple_pivot_data;
 } btree_iterator;
 
 typedef struct btree_pack_req {
diff --git a/src/trunk.c b/src/trunk.c
index c2f7fe1..b9976d2 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -5982,6 +5982,11 @@ trunk_split_leaf(trunk_handle *spl,
          }
       }
 
+      if (num_leaves == 0) {
+         // no pivot lies in the range of the leaf
+         num_leaves = 1;
+      }
+
       // clean up the iterators
       rc = merge_iterator_destroy(spl->heap_id, &rough_merge_itor);
       platform_assert_status_ok(rc);
-- 
2.43.0


From 321544b443e637054ebaa95410b8efc0acad59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:11 +0000
Subject: [PATCH 11/48] fix: close asserted when every memtable but the current
 one was still flushing

---
 src/trunk.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index b9976d2..5bd0afd 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7985,8 +7985,12 @@ trunk_mount(trunk_config     *cfg,
 void
 trunk_prepare_for_shutdown(trunk_handle *spl)
 {
+   // finish the memtables which are flushing, they may be all but the current
+   platform_status rc = task_perform_until_quiescent(spl->ts);
+   platform_assert_status_ok(rc);
+
    // write current memtable to disk
-   // (any others must already be flushing/flushed)
+   // (any others must already be flushed)
 
    if (!memtable_is_empty(spl->mt_ctxt)) {
       /*
@@ -7999,7 +8003,7 @@ trunk_prepare_for_shutdown(trunk_handle *spl)
    }
 
    // finish any outstanding tasks and destroy task system for this table.
-   platform_status rc = task_perform_until_quiescent(spl->ts);
+   rc = task_perform_until_quiescent(spl->ts);
    platform_assert_status_ok(rc);
 
    // destroy memtable context (and its memtables)
-- 
2.43.0


From fa1507a4a6f58f70efcf515b4c33e8463ccc0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:22 +0000
Subject: [PATCH 12/48] fix: asynchronous lookups leaked the memtable lookup
 lock and lost a root read from disk

When the trunk root was not available at once, trunk_lookup_async returned with
the memtable lookup lock held, and took it again when it was called again. When
the root had to be read from disk, the completion did not install its page.
---
 src/trunk.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 5bd0afd..0ecd06e 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7188,6 +7188,8 @@ trunk_async_callback(cache_async_ctxt *cache_ctxt)
    ctxt->was_async = TRUE;
    // Move state machine ahead and requeue for dispatch
    if (UNLIKELY(ctxt->state == async_state_get_root_reentrant)) {
+      ctxt->trunk_node.page = cache_ctxt->page;
+      ctxt->trunk_node.hdr  = (trunk_hdr *)(cache_ctxt->page->data);
       trunk_async_set_state(ctxt, async_state_trunk_node_lookup);
    } else {
       debug_assert((ctxt->state == async_state_get_child_trunk_node_reentrant),
@@ -7311,10 +7313,16 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
             if (ctxt->state == async_state_found_final_answer_early) {
                break;
             }
+            trunk_async_set_state(ctxt, async_state_get_root_reentrant);
             // fallthrough
          }
          case async_state_get_root_reentrant:
          {
+            /*
+             * Still holds the memtable lookup lock, so that the root includes
+             * everything which the memtables above do not. The lock must not
+             * be kept over the end of the invocation.
+             */
             cache_ctxt_init(
                spl->cc, trunk_async_callback, NULL, &ctxt->cache_ctxt);
             res = trunk_node_get_async(spl->cc, spl->root_addr, ctxt);
@@ -7326,9 +7334,12 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                   //                         __FILE__, __LINE__,
                   //                         platform_get_tid(), ctxt);
                   /*
-                   * Ctxt remains at same state. The invocation is done, but
-                   * the request isn't; and caller will re-invoke me.
+                   * The invocation is done, but the request isn't; and caller
+                   * will re-invoke me. Memtables may get incorporated before
+                   * that, so start over then.
                    */
+                  trunk_async_set_state(ctxt, async_state_start);
+                  memtable_end_lookup(spl->mt_ctxt);
                   done = TRUE;
                   break;
                case async_io_started:
@@ -7338,6 +7349,7 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                   //                         platform_get_tid(), ctxt);
                   // Invocation is done; request isn't. Callback will move
                   // state.
+                  memtable_end_lookup(spl->mt_ctxt);
                   done = TRUE;
                   break;
                case async_success:
-- 
2.43.0


From feb1386b9a77a9c82f87f36d1c0607316a12305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:22 +0000
Subject: [PATCH 13/48] fix: asynchronous lookups used a wrong branch when
 branch numbers wrap around

---
 src/trunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 0ecd06e..c651d59 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7506,7 +7506,6 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                   }
                   branch_no = trunk_add_branch_number(
                      spl, ctxt->sb->start_branch, ctxt->value);
-                  branch_no = ctxt->sb->start_branch + ctxt->value;
                   break;
                case async_lookup_state_compacted_subbundle:
                   debug_assert(ctxt->sb != NULL);
-- 
2.43.0


From 227af41c48e981b5e1e27a5378b0fba6b50fefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:31 +0000
Subject: [PATCH 14/48] fix: eviction hand spun forever when every cache batch
 was kept by a thread

---
 src/clockcache.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 2486c72..b946f13 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -1570,12 +1570,17 @@ clockcache_move_hand(clockcache *cc, bool32 is_urgent)
 
    /* move the hand a batch forward */
    uint64            evict_hand = cc->per_thread[tid].free_hand;
-   debug_only bool32 was_busy   = TRUE;
    if (evict_hand != CC_UNMAPPED_ENTRY) {
       evict_batch_busy = &cc->batch_busy[evict_hand];
-      was_busy = __sync_bool_compare_and_swap(evict_batch_busy, TRUE, FALSE);
-      debug_assert(was_busy);
+      // the batch may be shared with (and released by) another thread, see below
+      __sync_bool_compare_and_swap(evict_batch_busy, TRUE, FALSE);
    }
+   /*
+    * Every thread keeps the batch it allocated from last, so all of them may be
+    * busy. Keeping threads apart only avoids contention: after looking at each
+    * batch, share one.
+    */
+   uint64 tries = 0;
    do {
       evict_hand =
          __sync_add_and_fetch(&cc->evict_hand, 1) % cc->cfg->batch_capacity;
@@ -1585,10 +1590,10 @@ clockcache_move_hand(clockcache *cc, bool32 is_urgent)
       clean_batch_busy = &cc->batch_busy[cleaner_hand];
       if (__sync_bool_compare_and_swap(clean_batch_busy, FALSE, TRUE)) {
          clockcache_batch_start_writeback(cc, cleaner_hand, is_urgent);
-         was_busy = __sync_bool_compare_and_swap(clean_batch_busy, TRUE, FALSE);
-         debug_assert(was_busy);
+         __sync_bool_compare_and_swap(clean_batch_busy, TRUE, FALSE);
       }
-   } while (!__sync_bool_compare_and_swap(evict_batch_busy, FALSE, TRUE));
+   } while (!__sync_bool_compare_and_swap(evict_batch_busy, FALSE, TRUE)
+            && tries++ < cc->cfg->batch_capacity);
 
    clockcache_evict_batch(cc, evict_hand % cc->cfg->batch_capacity);
    cc->per_thread[tid].free_hand = evict_hand % cc->cfg->batch_capacity;
@@ -1646,7 +1651,7 @@ clockcache_get_free_page(clockcache *cc,
       }
 
       clockcache_move_hand(cc, num_passes != 0);
-      if (cc->per_thread[tid].free_hand < max_hand) {
+      if (cc->per_thread[tid].free_hand <= max_hand) {
          num_passes++;
          /*
           * The first pass doesn't really have a fair chance at having
-- 
2.43.0


From 757fb74bd9c1bbbe582a2d384b98cc3298aea0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:08 +0000
Subject: [PATCH 15/48] fix: a leaf split that had to retry left its new page
 allocated

---
 src/btree.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index 8712918..46061de 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -1295,6 +1295,8 @@ btree_unblock_dec_ref(cache *cc, btree_config *cfg, uint64 root_addr)
  * 0. Start with claims on parent and child.
  *
  * 1. Allocate a node for the right child.  Hold a write lock on the new node.
+ *    (When splitting a leaf, this comes after locking the parent and the next
+ *    leaf, because that may fail.)
  *
  * 2. btree_add_pivot.  Insert a new pivot in the parent for
  *    the new child.  This step requires a write-lock on the parent.
@@ -1354,17 +1356,8 @@ btree_split_child_leaf(cache                 *cc,
    leaf_splitting_plan plan =
       btree_build_leaf_splitting_plan(cfg, child->hdr, spec);
 
-   btree_alloc(cc,
-               mini,
-               btree_height(child->hdr),
-               NULL_KEY,
-               NULL,
-               PAGE_TYPE_MEMTABLE,
-               &right_child);
-   /* p: claim, c: claim, rc: write, cn: - */
-
    btree_node_lock(cc, cfg, parent);
-   /* p: write, c: claim, rc: write, cn: - */
+   /* p: write, c: claim, rc: -, cn: - */
 
    btree_node child_next;
    child_next.addr = child->hdr->next_addr;
@@ -1376,7 +1369,6 @@ btree_split_child_leaf(cache                 *cc,
          btree_node_unget(cc, cfg, &child_next);
          retries++;
          if (100 < retries) {
-            btree_node_full_unlock(cc, cfg, &right_child);
             btree_node_full_unlock(cc, cfg, parent);
             btree_node_unclaim(cc, cfg, child);
             btree_node_unget(cc, cfg, child);
@@ -1389,6 +1381,16 @@ btree_split_child_leaf(cache                 *cc,
       }
       btree_node_lock(cc, cfg, &child_next);
    }
+   /* p: write, c: claim, rc: -, cn: write if exists */
+
+   // Allocate only now that nothing can fail: a page can't be given back
+   btree_alloc(cc,
+               mini,
+               btree_height(child->hdr),
+               NULL_KEY,
+               NULL,
+               PAGE_TYPE_MEMTABLE,
+               &right_child);
    /* p: write, c: claim, rc: write, cn: write if exists */
 
    btree_node_lock(cc, cfg, child);
-- 
2.43.0


From 53dae26d94c3d287e0e9175ee15390ede891702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:08 +0000
Subject: [PATCH 16/48] fix: allocating a cache page gave up and aborted while
 writes of other threads were in flight

---
 src/platform_linux/laio.c | 41 ++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index 21072ff..e8edd16 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -70,6 +70,9 @@ laio_register_thread(io_handle *ioh);
 static void
 laio_deregister_thread(io_handle *ioh);
 
+static bool32
+laio_max_latency_elapsed(io_handle *ioh, timestamp ts);
+
 static io_async_req *
 laio_get_kth_req(laio_handle *io, uint64 k);
 
@@ -77,19 +80,26 @@ laio_get_kth_req(laio_handle *io, uint64 k);
  * Define an implementation of the abstract IO Ops interface methods.
  */
 static io_ops laio_ops = {
-   .read              = laio_read,
-   .write             = laio_write,
-   .get_iovec         = laio_get_iovec,
-   .get_async_req     = laio_get_async_req,
-   .get_metadata      = laio_get_metadata,
-   .read_async        = laio_read_async,
-   .write_async       = laio_write_async,
-   .cleanup           = laio_cleanup,
-   .wait_all          = laio_wait_all,
-   .register_thread   = laio_register_thread,
-   .deregister_thread = laio_deregister_thread,
+   .read                = laio_read,
+   .write               = laio_write,
+   .get_iovec           = laio_get_iovec,
+   .get_async_req       = laio_get_async_req,
+   .get_metadata        = laio_get_metadata,
+   .read_async          = laio_read_async,
+   .write_async         = laio_write_async,
+   .cleanup             = laio_cleanup,
+   .wait_all            = laio_wait_all,
+   .register_thread     = laio_register_thread,
+   .deregister_thread   = laio_deregister_thread,
+   .max_latency_elapsed = laio_max_latency_elapsed,
 };
 
+/*
+ * No request takes longer than this, nor does it take longer until the thread
+ * which issued it collects its completion.
+ */
+#define LAIO_MAX_LATENCY_NS SEC_TO_NSEC(30)
+
 static void
 lock_ctx(laio_handle *io)
 {
@@ -606,6 +616,15 @@ laio_deregister_thread(io_handle *ioh)
    unlock_ctx(io);
 }
 
+/*
+ * Has any request issued at ts, or before, completed by now?
+ */
+static bool32
+laio_max_latency_elapsed(io_handle *ioh, timestamp ts)
+{
+   return platform_timestamp_elapsed(ts) > LAIO_MAX_LATENCY_NS;
+}
+
 static inline bool32
 laio_config_valid_page_size(io_config *cfg)
 {
-- 
2.43.0


From c649b659667dd6f7c1c3e665d21400448db62ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:15 +0000
Subject: [PATCH 17/48] fix: close left the extents of the log allocated
 forever

---
 src/shard_log.c | 14 ++++++++++++++
 src/trunk.c     |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index 7249bb6..5b00eed 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -23,6 +23,8 @@ static uint64 shard_log_magic_idx = 0;
 
 int
 shard_log_write(log_handle *log, key tuple_key, message msg, uint64 generation);
+void
+shard_log_release(log_handle *log);
 uint64
 shard_log_addr(log_handle *log);
 uint64
@@ -32,6 +34,7 @@ shard_log_magic(log_handle *log);
 
 static log_ops shard_log_ops = {
    .write     = shard_log_write,
+   .release   = shard_log_release,
    .addr      = shard_log_addr,
    .meta_addr = shard_log_meta_addr,
    .magic     = shard_log_magic,
@@ -138,6 +141,17 @@ shard_log_zap(shard_log *log)
    mini_unkeyed_dec_ref(cc, log->meta_head, PAGE_TYPE_LOG, FALSE);
 }
 
+/*
+ * Give back the whole space of a log which no one is going to read or write
+ */
+void
+shard_log_release(log_handle *logh)
+{
+   shard_log *log = (shard_log *)logh;
+   mini_release(&log->mini, NULL_KEY);
+   shard_log_zap(log);
+}
+
 /*
  * -------------------------------------------------------------------------
  * Header for a key/message pair stored in the sharded log: Disk-resident
diff --git a/src/trunk.c b/src/trunk.c
index c651d59..acb714a 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -8020,8 +8020,9 @@ trunk_prepare_for_shutdown(trunk_handle *spl)
    // destroy memtable context (and its memtables)
    memtable_context_destroy(spl->heap_id, spl->mt_ctxt);
 
-   // release the log
+   // release the log, its contents are in the trunk now
    if (spl->cfg.use_log) {
+      log_release(spl->log);
       platform_free(spl->heap_id, spl->log);
    }
 
-- 
2.43.0


From 7d63ae6f6d44fcdb54dd734427fff98c514556c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 18/48] fix: opening a device which was never completely
 created aborted the process

rc_allocator_mount() asserted that the meta page and the ref counts could be
read and that the checksum matched. A process that dies inside
splinterdb_create() leaves a device where they cannot, or do not; the next
splinterdb_open() then aborted instead of returning an error.
---
 src/rc_allocator.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index 1fdc33e..8e83013 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -448,21 +448,29 @@ rc_allocator_mount(rc_allocator      *al,
    // load the meta page from disk.
    status = io_read(
       io, al->meta_page, al->cfg->io_cfg->page_size, RC_ALLOCATOR_BASE_OFFSET);
-   platform_assert_status_ok(status);
+   if (!SUCCESS(status)) {
+      platform_error_log("Failed to read the meta page upon mount\n");
+      goto deinit_allocator;
+   }
    // validate the checksum of the meta page.
    checksum128 currChecksum =
       platform_checksum128(al->meta_page,
                            sizeof(al->meta_page->splinters),
                            RC_ALLOCATOR_META_PAGE_CSUM_SEED);
    if (!platform_checksum_is_equal(al->meta_page->checksum, currChecksum)) {
-      platform_assert(0, "Corrupt Meta Page upon mount");
+      platform_error_log("Corrupt Meta Page upon mount\n");
+      status = STATUS_INVALID_STATE;
+      goto deinit_allocator;
    }
 
    // load the ref counts from disk.
    uint32 io_size =
       ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
    status = io_read(io, al->ref_count, io_size, cfg->io_cfg->extent_size);
-   platform_assert_status_ok(status);
+   if (!SUCCESS(status)) {
+      platform_error_log("Failed to read the ref counts upon mount\n");
+      goto deinit_allocator;
+   }
 
    for (uint64 i = 0; i < al->cfg->extent_capacity; i++) {
       if (al->ref_count[i] != 0) {
@@ -470,6 +478,10 @@ rc_allocator_mount(rc_allocator      *al,
       }
    }
    return STATUS_OK;
+
+deinit_allocator:
+   rc_allocator_deinit(al);
+   return status;
 }
 
 
-- 
2.43.0


From 9da4940029856f3ee346a3d7997a363812e14a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 19/48] fix: a crash during close could leave a database which
 opens with stale ref counts

The super block which marks the database as cleanly unmounted was written
before the ref counts of the allocator were. A process that died in between
left a device which splinterdb_open() accepts with ref counts of an earlier
session: live extents count as free and are handed out again.
Write the ref counts first.
---
 src/allocator.h    | 14 ++++++++++++++
 src/rc_allocator.c | 28 ++++++++++++++++++++++------
 src/trunk.c        |  4 ++++
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/allocator.h b/src/allocator.h
index f142879..4b41f74 100644
--- a/src/allocator.h
+++ b/src/allocator.h
@@ -132,6 +132,8 @@ typedef platform_status (*alloc_super_addr_fn)(allocator        *al,
                                                allocator_root_id spl_id,
                                                uint64           *addr);
 typedef void (*remove_super_addr_fn)(allocator *al, allocator_root_id spl_id);
+typedef platform_status (*sync_fn)(allocator *al);
+
 typedef uint64 (*get_size_fn)(allocator *al);
 typedef uint64 (*base_addr_fn)(const allocator *al, uint64 addr);
 
@@ -154,6 +156,8 @@ typedef struct allocator_ops {
    get_super_addr_fn    get_super_addr;
    remove_super_addr_fn remove_super_addr;
 
+   sync_fn sync;
+
    get_size_fn in_use;
 
    get_size_fn  get_capacity;
@@ -220,6 +224,16 @@ allocator_remove_super_addr(allocator *al, allocator_root_id spl_id)
    return al->ops->remove_super_addr(al, spl_id);
 }
 
+/*
+ * Make the allocation state durable, as it has to be before anything which
+ * relies on it, for example a super block that allows a later mount.
+ */
+static inline platform_status
+allocator_sync(allocator *al)
+{
+   return al->ops->sync(al);
+}
+
 static inline uint64
 allocator_in_use(allocator *al)
 {
diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index 8e83013..ad422c0 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -130,6 +130,16 @@ rc_allocator_remove_super_addr_virtual(allocator *a, allocator_root_id spl_id)
    rc_allocator_remove_super_addr(al, spl_id);
 }
 
+platform_status
+rc_allocator_sync(rc_allocator *al);
+
+platform_status
+rc_allocator_sync_virtual(allocator *a)
+{
+   rc_allocator *al = (rc_allocator *)a;
+   return rc_allocator_sync(al);
+}
+
 uint64
 rc_allocator_in_use(rc_allocator *al);
 
@@ -189,6 +199,7 @@ const static allocator_ops rc_allocator_ops = {
    .get_super_addr    = rc_allocator_get_super_addr_virtual,
    .alloc_super_addr  = rc_allocator_alloc_super_addr_virtual,
    .remove_super_addr = rc_allocator_remove_super_addr_virtual,
+   .sync              = rc_allocator_sync_virtual,
    .in_use            = rc_allocator_in_use_virtual,
    .get_capacity      = rc_allocator_get_capacity_virtual,
    .assert_noleaks    = rc_allocator_assert_noleaks_virtual,
@@ -485,16 +496,21 @@ deinit_allocator:
 }
 
 
+// persist the ref counts.
+platform_status
+rc_allocator_sync(rc_allocator *al)
+{
+   uint32 io_size =
+      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
+   return io_write(
+      al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+}
+
 void
 rc_allocator_unmount(rc_allocator *al)
 {
-   platform_status status;
-
    // persist the ref counts upon unmount.
-   uint32 io_size =
-      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
-   status =
-      io_write(al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+   platform_status status = rc_allocator_sync(al);
    platform_assert_status_ok(status);
    rc_allocator_deinit(al);
 }
diff --git a/src/trunk.c b/src/trunk.c
index acb714a..ad4f997 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -8108,6 +8108,10 @@ trunk_unmount(trunk_handle **spl_in)
    trunk_handle *spl = *spl_in;
    srq_deinit(&spl->srq);
    trunk_prepare_for_shutdown(spl);
+
+   // the super block must not allow a mount before the ref counts are on disk
+   platform_status rc = allocator_sync(spl->al);
+   platform_assert_status_ok(rc);
    trunk_set_super_block(spl, FALSE, TRUE, FALSE);
    if (spl->cfg.use_stats) {
       for (uint64 i = 0; i < MAX_THREADS; i++) {
-- 
2.43.0


From 76d05ffe7bb8b25fb4ca19e76a5e9da6ba9844e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:39 +0000
Subject: [PATCH 20/48] fix: failed or short asynchronous I/O counted as
 success

laio_callback() ignored the result of the request. After an I/O error, or a
transfer which the kernel cut short, pages that were not written were marked
clean and pages that were not read were used: data was lost silently.
Finish short transfers, and report errors to the issuer (who stops).
---
 src/platform_linux/laio.c | 52 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index e8edd16..53d03f7 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -402,6 +402,43 @@ laio_get_req_context(io_handle *ioh, io_async_req *req)
    return &io->ctx[req->ctx_idx];
 }
 
+/*
+ * laio_complete_transfer() - Transfer what the kernel left out of a request of
+ * which it did the first 'done' bytes. Reads beyond the end of the file (which
+ * prefetching an extent may do) return zeroes.
+ */
+static platform_status
+laio_complete_transfer(io_async_req *req, uint64 done)
+{
+   int    fd       = req->iocb.aio_fildes;
+   bool32 is_write = (req->iocb.aio_lio_opcode == IO_CMD_PWRITEV);
+   uint64 addr     = req->iocb.u.c.offset;
+
+   for (uint64 i = 0; i < req->count; i++) {
+      char  *buf   = (char *)req->iovec[i].iov_base;
+      uint64 bytes = req->iovec[i].iov_len;
+      while (done < bytes) {
+         ssize_t ret = is_write
+                          ? pwrite(fd, buf + done, bytes - done, addr + done)
+                          : pread(fd, buf + done, bytes - done, addr + done);
+         if (ret < 0 && errno == EINTR) {
+            continue;
+         }
+         if (ret < 0 || (ret == 0 && is_write)) {
+            return STATUS_IO_ERROR;
+         }
+         if (ret == 0) {
+            memset(buf + done, 0, bytes - done);
+            ret = bytes - done;
+         }
+         done += ret;
+      }
+      done -= bytes;
+      addr += bytes;
+   }
+   return STATUS_OK;
+}
+
 void
 laio_callback(io_context_t ctx, struct iocb *iocb, long res, long res2)
 {
@@ -410,6 +447,21 @@ laio_callback(io_context_t ctx, struct iocb *iocb, long res, long res2)
 
    platform_assert(res2 == 0);
    req = (io_async_req *)((char *)iocb - offsetof(io_async_req, iocb));
+   if (res < 0) {
+      status = STATUS_IO_ERROR;
+   } else {
+      status = laio_complete_transfer(req, res);
+   }
+   if (!SUCCESS(status)) {
+      platform_error_log("%s(): asynchronous %s of %lu pages at %llu failed: "
+                         "result %ld\n",
+                         __func__,
+                         iocb->aio_lio_opcode == IO_CMD_PWRITEV ? "write"
+                                                                : "read",
+                         req->count,
+                         iocb->u.c.offset,
+                         res);
+   }
    req->callback(req->metadata, req->iovec, req->count, status);
    req->ctx_idx = INVALID_TID;
 }
-- 
2.43.0


From 74f0ea09dd0310783eae20b4b72644304d60f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:41 +0000
Subject: [PATCH 21/48] fix: a failed io_handle_init kept the device open or
 aborted

When fstat, fallocate or the allocation of the request array fails, close the
file and return an error.
---
 src/platform_linux/laio.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index 53d03f7..70c0b82 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -200,14 +200,16 @@ io_handle_init(laio_handle *io, io_config *cfg, platform_heap_id hid)
    int         r = fstat(io->fd, &statbuf);
    if (r) {
       platform_error_log("fstat failed: %s\n", strerror(errno));
-      return STATUS_IO_ERROR;
+      rc = STATUS_IO_ERROR;
+      goto close_file;
    }
 
    if (S_ISREG(statbuf.st_mode) && statbuf.st_size < 128 * 1024) {
       r = fallocate(io->fd, 0, 0, 128 * 1024);
       if (r) {
          platform_error_log("fallocate failed: %s\n", strerror(errno));
-         return STATUS_IO_ERROR;
+         rc = STATUS_IO_ERROR;
+         goto close_file;
       }
    }
 
@@ -220,11 +222,15 @@ io_handle_init(laio_handle *io, io_config *cfg, platform_heap_id hid)
       sizeof(io_async_req) + cfg->async_max_pages * sizeof(struct iovec);
    total_req_size = req_size * cfg->async_queue_size;
    io->req        = TYPED_MANUAL_ZALLOC(io->heap_id, io->req, total_req_size);
-   platform_assert((io->req != NULL),
-                   "Failed to allocate memory for array of %lu Async IO"
-                   " request structures, for %ld outstanding IOs on pages.",
-                   cfg->async_queue_size,
-                   cfg->async_max_pages);
+   if (io->req == NULL) {
+      platform_error_log("Failed to allocate memory for array of %lu Async IO"
+                         " request structures, for %ld outstanding IOs on"
+                         " pages.\n",
+                         cfg->async_queue_size,
+                         cfg->async_max_pages);
+      rc = STATUS_NO_MEMORY;
+      goto close_file;
+   }
 
    // Initialize each Async IO request structure
    for (int i = 0; i < cfg->async_queue_size; i++) {
@@ -242,6 +248,11 @@ io_handle_init(laio_handle *io, io_config *cfg, platform_heap_id hid)
 
    // leave req_hand set to 0
    return STATUS_OK;
+
+close_file:
+   close(io->fd);
+   io->fd = -1;
+   return rc;
 }
 
 /*
-- 
2.43.0


From f64d9d3b9b0bd5ed6750506c4f9fd37c07e21d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:41 +0000
Subject: [PATCH 22/48] fix: shared segment left behind when attaching to it
 fails

---
 src/platform_linux/shmem.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform_linux/shmem.c b/src/platform_linux/shmem.c
index a76f8c1..0a53b58 100644
--- a/src/platform_linux/shmem.c
+++ b/src/platform_linux/shmem.c
@@ -387,6 +387,7 @@ platform_shmcreate(size_t            size,
    if (shmaddr == (void *)-1) {
       platform_error_log("Failed to attach to shared segment, shmid=%d.\n",
                          shmid);
+      shmctl(shmid, IPC_RMID, NULL);
       return STATUS_NO_MEMORY;
    }
 
-- 
2.43.0


From 9660d514ef9ea27e17d681ba14f211aed5c15f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:41 +0000
Subject: [PATCH 23/48] fix: task system start-up ignored or mishandled
 failures

The registration of the main thread was not checked, so create and open
returned a database whose use writes out of bounds; a failure to start a task
group tore down groups and a thread which were never set up.
---
 src/task.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/task.c b/src/task.c
index b74adcc..b50a008 100644
--- a/src/task.c
+++ b/src/task.c
@@ -305,7 +305,10 @@ task_create_thread_with_hooks(platform_thread       *thread,
 free_thread:
    platform_free(hid, thread_to_create);
 free_scratch:
-   platform_free(ts->heap_id, ts->thread_scratch[newtid]);
+   if (ts->thread_scratch[newtid] != NULL) {
+      platform_free(ts->heap_id, ts->thread_scratch[newtid]);
+      ts->thread_scratch[newtid] = NULL;
+   }
 dealloc_tid:
    task_deallocate_threadid(ts, newtid);
    return ret;
@@ -912,7 +915,12 @@ task_system_create(platform_heap_id          hid,
 
    // Ensure that the main thread gets registered and init'ed first before
    // any background threads are created. (Those may grab their own tids.).
-   task_register_this_thread(ts, cfg->scratch_size);
+   rc = task_register_this_thread(ts, cfg->scratch_size);
+   if (!SUCCESS(rc)) {
+      platform_free(hid, ts);
+      *system = NULL;
+      return rc;
+   }
 
    for (task_type type = TASK_TYPE_FIRST; type != NUM_TASK_TYPES; type++) {
       platform_status rc = task_group_init(&ts->group[type],
@@ -921,8 +929,13 @@ task_system_create(platform_heap_id          hid,
                                            cfg->num_background_threads[type],
                                            cfg->scratch_size);
       if (!SUCCESS(rc)) {
+         // Only the groups before this one have been initialized.
+         while (type != TASK_TYPE_FIRST) {
+            type--;
+            task_group_deinit(&ts->group[type]);
+         }
          task_deregister_this_thread(ts);
-         task_system_destroy(hid, &ts);
+         platform_free(hid, ts);
          *system = NULL;
          return rc;
       }
-- 
2.43.0


From 4ebf38d61990eca2a35d939539ee1782994a9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 24/48] fix: failing allocations in lookups and range iterators
 leaked locks or freed foreign memory

A range iterator which could not be set up kept the branches and memtables it
had blocked; splinterdb_iterator_init freed the caller's uninitialized pointer;
the merge iterator was destroyed while in use, or twice; a failed final merge
returned an update as if it were a value.
---
 src/merge.c      |  12 +----
 src/splinterdb.c |   2 +-
 src/trunk.c      | 115 ++++++++++++++++++++++++++++++++---------------
 3 files changed, 81 insertions(+), 48 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index a420dcf..5f6c0fe 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -483,17 +483,6 @@ setup_ordered_iterators(merge_iterator *merge_itor)
    }
 
    if (!SUCCESS(rc)) {
-      // destroy the iterator
-      platform_status merge_iterator_rc =
-         merge_iterator_destroy(platform_get_heap_id(), &merge_itor);
-      if (!SUCCESS(merge_iterator_rc)) {
-         platform_error_log(
-            "setup_ordered_iterators: exception while releasing\n");
-         if (SUCCESS(rc)) {
-            platform_error_log("setup_ordered_iterators: clobbering rc\n");
-            rc = merge_iterator_rc;
-         }
-      }
       platform_error_log("setup_ordered_iterators: exception: %s\n",
                          platform_status_to_string(rc));
       return rc;
@@ -603,6 +592,7 @@ merge_iterator_create_directed(platform_heap_id hid,
 
    rc = setup_ordered_iterators(merge_itor);
    if (!SUCCESS(rc)) {
+      merge_iterator_destroy(hid, &merge_itor);
       return rc;
    }
 
diff --git a/src/splinterdb.c b/src/splinterdb.c
index 2386b33..a0aaf56 100644
--- a/src/splinterdb.c
+++ b/src/splinterdb.c
@@ -689,7 +689,7 @@ splinterdb_iterator_init(const splinterdb     *kvs,           // IN
                                                   greater_than_or_equal,
                                                   UINT64_MAX);
    if (!SUCCESS(rc)) {
-      platform_free(kvs->spl->heap_id, *iter);
+      platform_free(kvs->spl->heap_id, it);
       return platform_status_to_int(rc);
    }
    it->parent = kvs;
diff --git a/src/trunk.c b/src/trunk.c
index ad4f997..fb27d1d 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6246,6 +6246,42 @@ const static iterator_ops trunk_range_iterator_ops = {
    .prev     = trunk_range_iterator_prev,
 };
 
+static void
+trunk_range_iterator_deinit_keys(trunk_range_iterator *range_itor)
+{
+   key_buffer_deinit(&range_itor->min_key);
+   key_buffer_deinit(&range_itor->max_key);
+   key_buffer_deinit(&range_itor->local_min_key);
+   key_buffer_deinit(&range_itor->local_max_key);
+}
+
+static void
+trunk_range_iterator_release_branches(trunk_range_iterator *range_itor,
+                                      bool32 deinit_btree_iterators)
+{
+   trunk_handle *spl = range_itor->spl;
+   for (uint64 i = 0; i < range_itor->num_branches; i++) {
+      btree_iterator *btree_itor = &range_itor->btree_itor[i];
+      if (range_itor->compacted[i]) {
+         uint64 root_addr = range_itor->branch[i].root_addr;
+         if (deinit_btree_iterators) {
+            trunk_branch_iterator_deinit(spl, btree_itor, FALSE);
+         }
+         btree_unblock_dec_ref(spl->cc, &spl->cfg.btree_cfg, root_addr);
+      } else {
+         uint64 mt_gen = range_itor->memtable_start_gen - i;
+         if (deinit_btree_iterators) {
+            trunk_memtable_iterator_deinit(spl, btree_itor, mt_gen, FALSE);
+         }
+         trunk_memtable_dec_ref(spl, mt_gen);
+      }
+   }
+}
+
+/*
+ * A range iterator whose initialization failed holds nothing; it may, but need
+ * not, be passed to trunk_range_iterator_deinit().
+ */
 platform_status
 trunk_range_iterator_init(trunk_handle         *spl,
                           trunk_range_iterator *range_itor,
@@ -6276,9 +6312,18 @@ trunk_range_iterator_init(trunk_handle         *spl,
       start_key = max_key;
    }
 
+   key_buffer_init(&range_itor->local_min_key, spl->heap_id);
+   key_buffer_init(&range_itor->local_max_key, spl->heap_id);
+
    // copy over global min and max
-   key_buffer_init_from_key(&range_itor->min_key, spl->heap_id, min_key);
-   key_buffer_init_from_key(&range_itor->max_key, spl->heap_id, max_key);
+   platform_status rc;
+   rc = key_buffer_init_from_key(&range_itor->min_key, spl->heap_id, min_key);
+   platform_status max_rc =
+      key_buffer_init_from_key(&range_itor->max_key, spl->heap_id, max_key);
+   if (!SUCCESS(rc) || !SUCCESS(max_rc)) {
+      trunk_range_iterator_deinit_keys(range_itor);
+      return SUCCESS(rc) ? max_rc : rc;
+   }
 
    ZERO_ARRAY(range_itor->compacted);
 
@@ -6390,14 +6435,18 @@ trunk_range_iterator_init(trunk_handle         *spl,
       trunk_key_compare(spl, trunk_max_key(spl, &node), max_key) < 0
          ? trunk_max_key(spl, &node)
          : max_key;
-   key_buffer_init_from_key(
-      &range_itor->local_min_key, spl->heap_id, local_min);
-   key_buffer_init_from_key(
-      &range_itor->local_max_key, spl->heap_id, local_max);
+   rc     = key_buffer_copy_key(&range_itor->local_min_key, local_min);
+   max_rc = key_buffer_copy_key(&range_itor->local_max_key, local_max);
 
    trunk_node_unget(spl->cc, &node);
    trunk_end_read(spl);
 
+   if (!SUCCESS(rc) || !SUCCESS(max_rc)) {
+      trunk_range_iterator_release_branches(range_itor, FALSE);
+      trunk_range_iterator_deinit_keys(range_itor);
+      return SUCCESS(rc) ? max_rc : rc;
+   }
+
    for (uint64 i = 0; i < range_itor->num_branches; i++) {
       uint64          branch_no  = range_itor->num_branches - i - 1;
       btree_iterator *btree_itor = &range_itor->btree_itor[branch_no];
@@ -6433,15 +6482,16 @@ trunk_range_iterator_init(trunk_handle         *spl,
       range_itor->itor[i] = &btree_itor->super;
    }
 
-   platform_status rc =
-      merge_iterator_create_directed(spl->heap_id,
-                                     spl->cfg.data_cfg,
-                                     range_itor->num_branches,
-                                     range_itor->itor,
-                                     MERGE_FULL,
-                                     start_type >= greater_than,
-                                     &range_itor->merge_itor);
+   rc = merge_iterator_create_directed(spl->heap_id,
+                                       spl->cfg.data_cfg,
+                                       range_itor->num_branches,
+                                       range_itor->itor,
+                                       MERGE_FULL,
+                                       start_type >= greater_than,
+                                       &range_itor->merge_itor);
    if (!SUCCESS(rc)) {
+      trunk_range_iterator_release_branches(range_itor, TRUE);
+      trunk_range_iterator_deinit_keys(range_itor);
       return rc;
    }
 
@@ -6458,6 +6508,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
                             spl->heap_id,
                             key_buffer_key(&range_itor->local_max_key));
       if (!SUCCESS(rc)) {
+         trunk_range_iterator_deinit(range_itor);
          return rc;
       }
       if (trunk_key_compare(spl, next_start_key, max_key) < 0) {
@@ -6484,6 +6535,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
                             spl->heap_id,
                             key_buffer_key(&range_itor->local_min_key));
       if (!SUCCESS(rc)) {
+         trunk_range_iterator_deinit(range_itor);
          return rc;
       }
       if (trunk_key_compare(spl, prev_start_key, min_key) > 0) {
@@ -6653,25 +6705,10 @@ trunk_range_iterator_can_next(iterator *itor)
 void
 trunk_range_iterator_deinit(trunk_range_iterator *range_itor)
 {
-   trunk_handle *spl = range_itor->spl;
    if (range_itor->merge_itor != NULL) {
       merge_iterator_destroy(range_itor->spl->heap_id, &range_itor->merge_itor);
-      for (uint64 i = 0; i < range_itor->num_branches; i++) {
-         btree_iterator *btree_itor = &range_itor->btree_itor[i];
-         if (range_itor->compacted[i]) {
-            uint64 root_addr = btree_itor->root_addr;
-            trunk_branch_iterator_deinit(spl, btree_itor, FALSE);
-            btree_unblock_dec_ref(spl->cc, &spl->cfg.btree_cfg, root_addr);
-         } else {
-            uint64 mt_gen = range_itor->memtable_start_gen - i;
-            trunk_memtable_iterator_deinit(spl, btree_itor, mt_gen, FALSE);
-            trunk_memtable_dec_ref(spl, mt_gen);
-         }
-      }
-      key_buffer_deinit(&range_itor->min_key);
-      key_buffer_deinit(&range_itor->max_key);
-      key_buffer_deinit(&range_itor->local_min_key);
-      key_buffer_deinit(&range_itor->local_max_key);
+      trunk_range_iterator_release_branches(range_itor, TRUE);
+      trunk_range_iterator_deinit_keys(range_itor);
    }
 }
 
@@ -7068,6 +7105,8 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    // 2. for gen = mt->generation; mt[gen % ...].gen == gen; gen --;
    //                also handles switch to READY ^^^^^
 
+   platform_status rc = STATUS_OK;
+
    merge_accumulator_set_to_null(result);
 
    memtable_begin_lookup(spl->mt_ctxt);
@@ -7077,7 +7116,6 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    platform_assert(mt_gen_start - mt_gen_end <= TRUNK_NUM_MEMTABLES);
 
    for (uint64 mt_gen = mt_gen_start; mt_gen != mt_gen_end; mt_gen--) {
-      platform_status rc;
       rc = trunk_memtable_lookup(spl, mt_gen, target, result);
       platform_assert_status_ok(rc);
       if (merge_accumulator_is_definitive(result)) {
@@ -7122,8 +7160,11 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    debug_assert(merge_accumulator_is_null(result)
                 || merge_accumulator_message_class(result)
                       == MESSAGE_TYPE_UPDATE);
-   if (!merge_accumulator_is_null(result)) {
-      data_merge_tuples_final(spl->cfg.data_cfg, target, result);
+   if (!merge_accumulator_is_null(result)
+       && data_merge_tuples_final(spl->cfg.data_cfg, target, result))
+   {
+      merge_accumulator_set_to_null(result);
+      rc = STATUS_NO_MEMORY;
    }
 found_final_answer_early:
 
@@ -7150,7 +7191,7 @@ found_final_answer_early:
       merge_accumulator_set_to_null(result);
    }
 
-   return STATUS_OK;
+   return rc;
 }
 
 /*
@@ -7629,7 +7670,9 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                    && merge_accumulator_message_class(result)
                          != MESSAGE_TYPE_INSERT)
                {
-                  data_merge_tuples_final(spl->cfg.data_cfg, target, result);
+                  int merge_rc = data_merge_tuples_final(
+                     spl->cfg.data_cfg, target, result);
+                  platform_assert(merge_rc == 0);
                }
                trunk_async_set_state(ctxt, async_state_end);
                trunk_node_unget(spl->cc, &ctxt->trunk_node);
-- 
2.43.0


From e5e45913961cabbcacab2a469f37d02b5f0d1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 25/48] fix: create and open crashed, or made the database
 unusable, when memory ran out

Acquire everything which only needs memory before the superblock is marked as
in use, check it, and return an error. Keep the mutex of the space reclamation
queue until the tasks which use it are done.
---
 src/memtable.c   |  14 ++-
 src/shard_log.c  |   3 +-
 src/splinterdb.c |   7 +-
 src/srq.h        |   4 +-
 src/trunk.c      | 239 ++++++++++++++++++++++++++---------------------
 5 files changed, 157 insertions(+), 110 deletions(-)

diff --git a/src/memtable.c b/src/memtable.c
index 92a66b9..d3a1244 100644
--- a/src/memtable.c
+++ b/src/memtable.c
@@ -309,12 +309,24 @@ memtable_context_create(platform_heap_id hid,
 {
    memtable_context *ctxt =
       TYPED_FLEXIBLE_STRUCT_ZALLOC(hid, ctxt, mt, cfg->max_memtables);
+   if (ctxt == NULL) {
+      return NULL;
+   }
    ctxt->cc = cc;
    memmove(&ctxt->cfg, cfg, sizeof(ctxt->cfg));
 
-   platform_mutex_init(
+   platform_status rc = platform_mutex_init(
       &ctxt->incorporation_mutex, platform_get_module_id(), hid);
+   if (!SUCCESS(rc)) {
+      platform_free(hid, ctxt);
+      return NULL;
+   }
    ctxt->rwlock = TYPED_MALLOC(hid, ctxt->rwlock);
+   if (ctxt->rwlock == NULL) {
+      platform_mutex_destroy(&ctxt->incorporation_mutex);
+      platform_free(hid, ctxt);
+      return NULL;
+   }
    platform_batch_rwlock_init(ctxt->rwlock);
 
    for (uint64 mt_no = 0; mt_no < cfg->max_memtables; mt_no++) {
diff --git a/src/shard_log.c b/src/shard_log.c
index 5b00eed..689318d 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -342,7 +342,8 @@ log_create(cache *cc, log_config *lcfg, platform_heap_id hid)
 {
    shard_log_config *cfg  = (shard_log_config *)lcfg;
    shard_log        *slog = TYPED_MALLOC(hid, slog);
-   platform_status   rc   = shard_log_init(slog, cc, cfg);
+   platform_assert(slog != NULL);
+   platform_status rc = shard_log_init(slog, cc, cfg);
    platform_assert(SUCCESS(rc));
    return (log_handle *)slog;
 }
diff --git a/src/splinterdb.c b/src/splinterdb.c
index a0aaf56..8278832 100644
--- a/src/splinterdb.c
+++ b/src/splinterdb.c
@@ -484,8 +484,11 @@ splinterdb_register_thread(splinterdb *kvs) // IN
 {
    platform_assert(kvs != NULL);
 
-   size_t scratch_size = trunk_get_scratch_size();
-   task_register_this_thread(kvs->task_sys, scratch_size);
+   size_t          scratch_size = trunk_get_scratch_size();
+   platform_status rc = task_register_this_thread(kvs->task_sys, scratch_size);
+   // A thread which is not registered cannot make any other call, and there is
+   // no way to tell the caller.
+   platform_assert_status_ok(rc);
 }
 
 /*
diff --git a/src/srq.h b/src/srq.h
index ce55355..694a5ef 100644
--- a/src/srq.h
+++ b/src/srq.h
@@ -32,16 +32,16 @@ typedef struct srq {
    uint64         index_hand;
 } srq;
 
-static inline void
+static inline platform_status
 srq_init(srq               *queue,
          platform_module_id UNUSED_PARAM(module_id),
          platform_heap_id   UNUSED_PARAM(heap_id))
 {
    ZERO_CONTENTS(queue);
-   platform_mutex_init(&queue->mutex, module_id, heap_id);
    for (uint64 i = 0; i < SRQ_MAX_ENTRIES; i++) {
       queue->index[i] = SRQ_INDEX_AVAILABLE;
    }
+   return platform_mutex_init(&queue->mutex, module_id, heap_id);
 }
 
 static inline void
diff --git a/src/trunk.c b/src/trunk.c
index fb27d1d..2ea515a 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7813,22 +7813,92 @@ destroy_range_itor:
 }
 
 
+static void
+trunk_stats_destroy(trunk_handle *spl)
+{
+   if (spl->stats == NULL) {
+      return;
+   }
+   for (uint64 i = 0; i < MAX_THREADS; i++) {
+      if (spl->stats[i].insert_latency_histo != NULL) {
+         platform_histo_destroy(spl->heap_id,
+                                &spl->stats[i].insert_latency_histo);
+      }
+      if (spl->stats[i].update_latency_histo != NULL) {
+         platform_histo_destroy(spl->heap_id,
+                                &spl->stats[i].update_latency_histo);
+      }
+      if (spl->stats[i].delete_latency_histo != NULL) {
+         platform_histo_destroy(spl->heap_id,
+                                &spl->stats[i].delete_latency_histo);
+      }
+   }
+   platform_free(spl->heap_id, spl->stats);
+}
+
+static platform_status
+trunk_stats_create(trunk_handle *spl)
+{
+   spl->stats = TYPED_ARRAY_ZALLOC(spl->heap_id, spl->stats, MAX_THREADS);
+   if (spl->stats == NULL) {
+      return STATUS_NO_MEMORY;
+   }
+   for (uint64 i = 0; i < MAX_THREADS; i++) {
+      platform_status rc;
+      rc = platform_histo_create(spl->heap_id,
+                                 LATENCYHISTO_SIZE + 1,
+                                 latency_histo_buckets,
+                                 &spl->stats[i].insert_latency_histo);
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      rc = platform_histo_create(spl->heap_id,
+                                 LATENCYHISTO_SIZE + 1,
+                                 latency_histo_buckets,
+                                 &spl->stats[i].update_latency_histo);
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      rc = platform_histo_create(spl->heap_id,
+                                 LATENCYHISTO_SIZE + 1,
+                                 latency_histo_buckets,
+                                 &spl->stats[i].delete_latency_histo);
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+   }
+   return STATUS_OK;
+}
+
 /*
- *-----------------------------------------------------------------------------
- * Create/destroy
- * XXX Fix this api to return platform_status
- *-----------------------------------------------------------------------------
+ * Release what trunk_handle_create() acquired.
  */
-trunk_handle *
-trunk_create(trunk_config     *cfg,
-             allocator        *al,
-             cache            *cc,
-             task_system      *ts,
-             allocator_root_id id,
-             platform_heap_id  hid)
+static void
+trunk_handle_destroy(trunk_handle *spl)
+{
+   trunk_stats_destroy(spl);
+   srq_deinit(&spl->srq);
+   platform_free(spl->heap_id, spl);
+}
+
+/*
+ * Acquire the parts of a handle which need nothing but memory, so that running
+ * out of it is noticed before anything on disk changes. Returns NULL on
+ * failure.
+ */
+static trunk_handle *
+trunk_handle_create(trunk_config     *cfg,
+                    allocator        *al,
+                    cache            *cc,
+                    task_system      *ts,
+                    allocator_root_id id,
+                    platform_heap_id  hid)
 {
    trunk_handle *spl = TYPED_FLEXIBLE_STRUCT_ZALLOC(
       hid, spl, compacted_memtable, TRUNK_NUM_MEMTABLES);
+   if (spl == NULL) {
+      return NULL;
+   }
    memmove(&spl->cfg, cfg, sizeof(*cfg));
 
    // Validate configured key-size is within limits.
@@ -7841,7 +7911,49 @@ trunk_create(trunk_config     *cfg,
 
    platform_batch_rwlock_init(&spl->trunk_root_lock);
 
-   srq_init(&spl->srq, platform_get_module_id(), hid);
+   platform_status rc = srq_init(&spl->srq, platform_get_module_id(), hid);
+   if (!SUCCESS(rc)) {
+      platform_free(hid, spl);
+      return NULL;
+   }
+
+   if (spl->cfg.use_stats) {
+      rc = trunk_stats_create(spl);
+      if (!SUCCESS(rc)) {
+         trunk_handle_destroy(spl);
+         return NULL;
+      }
+   }
+   return spl;
+}
+
+/*
+ *-----------------------------------------------------------------------------
+ * Create/destroy
+ * XXX Fix this api to return platform_status
+ *-----------------------------------------------------------------------------
+ */
+trunk_handle *
+trunk_create(trunk_config     *cfg,
+             allocator        *al,
+             cache            *cc,
+             task_system      *ts,
+             allocator_root_id id,
+             platform_heap_id  hid)
+{
+   trunk_handle *spl = trunk_handle_create(cfg, al, cc, ts, id, hid);
+   if (spl == NULL) {
+      return NULL;
+   }
+
+   // set up the memtable context
+   memtable_config *mt_cfg = &spl->cfg.mt_cfg;
+   spl->mt_ctxt            = memtable_context_create(
+      spl->heap_id, cc, mt_cfg, trunk_memtable_flush_virtual, spl);
+   if (spl->mt_ctxt == NULL) {
+      trunk_handle_destroy(spl);
+      return NULL;
+   }
 
    // get a free node for the root
    //    we don't use the mini allocator for this, since the root doesn't
@@ -7870,11 +7982,6 @@ trunk_create(trunk_config     *cfg,
              PAGE_TYPE_TRUNK,
              FALSE);
 
-   // set up the memtable context
-   memtable_config *mt_cfg = &spl->cfg.mt_cfg;
-   spl->mt_ctxt            = memtable_context_create(
-      spl->heap_id, cc, mt_cfg, trunk_memtable_flush_virtual, spl);
-
    // set up the log
    if (spl->cfg.use_log) {
       spl->log = log_create(cc, spl->cfg.log_cfg, spl->heap_id);
@@ -7907,29 +8014,6 @@ trunk_create(trunk_config     *cfg,
    trunk_node_unclaim(spl->cc, &root);
    trunk_node_unget(spl->cc, &root);
 
-   if (spl->cfg.use_stats) {
-      spl->stats = TYPED_ARRAY_ZALLOC(spl->heap_id, spl->stats, MAX_THREADS);
-      platform_assert(spl->stats);
-      for (uint64 i = 0; i < MAX_THREADS; i++) {
-         platform_status rc;
-         rc = platform_histo_create(spl->heap_id,
-                                    LATENCYHISTO_SIZE + 1,
-                                    latency_histo_buckets,
-                                    &spl->stats[i].insert_latency_histo);
-         platform_assert_status_ok(rc);
-         rc = platform_histo_create(spl->heap_id,
-                                    LATENCYHISTO_SIZE + 1,
-                                    latency_histo_buckets,
-                                    &spl->stats[i].update_latency_histo);
-         platform_assert_status_ok(rc);
-         rc = platform_histo_create(spl->heap_id,
-                                    LATENCYHISTO_SIZE + 1,
-                                    latency_histo_buckets,
-                                    &spl->stats[i].delete_latency_histo);
-         platform_assert_status_ok(rc);
-      }
-   }
-
    return spl;
 }
 
@@ -7944,20 +8028,10 @@ trunk_mount(trunk_config     *cfg,
             allocator_root_id id,
             platform_heap_id  hid)
 {
-   trunk_handle *spl = TYPED_FLEXIBLE_STRUCT_ZALLOC(
-      hid, spl, compacted_memtable, TRUNK_NUM_MEMTABLES);
-   memmove(&spl->cfg, cfg, sizeof(*cfg));
-
-   spl->al = al;
-   spl->cc = cc;
-   debug_assert(id != INVALID_ALLOCATOR_ROOT_ID);
-   spl->id      = id;
-   spl->heap_id = hid;
-   spl->ts      = ts;
-
-   srq_init(&spl->srq, platform_get_module_id(), hid);
-
-   platform_batch_rwlock_init(&spl->trunk_root_lock);
+   trunk_handle *spl = trunk_handle_create(cfg, al, cc, ts, id, hid);
+   if (spl == NULL) {
+      return NULL;
+   }
 
    // find the unmounted super block
    spl->root_addr                      = 0;
@@ -7983,7 +8057,7 @@ trunk_mount(trunk_config     *cfg,
          super,
          meta_tail,
          latest_timestamp);
-      platform_free(hid, spl);
+      trunk_handle_destroy(spl);
       return (trunk_handle *)NULL;
    }
    uint64 meta_head = spl->root_addr + trunk_page_size(&spl->cfg);
@@ -7991,6 +8065,10 @@ trunk_mount(trunk_config     *cfg,
    memtable_config *mt_cfg = &spl->cfg.mt_cfg;
    spl->mt_ctxt            = memtable_context_create(
       spl->heap_id, cc, mt_cfg, trunk_memtable_flush_virtual, spl);
+   if (spl->mt_ctxt == NULL) {
+      trunk_handle_destroy(spl);
+      return (trunk_handle *)NULL;
+   }
 
    // The trunk uses an unkeyed mini allocator
    mini_init(&spl->mini,
@@ -8006,29 +8084,6 @@ trunk_mount(trunk_config     *cfg,
    }
 
    trunk_set_super_block(spl, FALSE, FALSE, FALSE);
-
-   if (spl->cfg.use_stats) {
-      spl->stats = TYPED_ARRAY_ZALLOC(spl->heap_id, spl->stats, MAX_THREADS);
-      platform_assert(spl->stats);
-      for (uint64 i = 0; i < MAX_THREADS; i++) {
-         platform_status rc;
-         rc = platform_histo_create(spl->heap_id,
-                                    LATENCYHISTO_SIZE + 1,
-                                    latency_histo_buckets,
-                                    &spl->stats[i].insert_latency_histo);
-         platform_assert_status_ok(rc);
-         rc = platform_histo_create(spl->heap_id,
-                                    LATENCYHISTO_SIZE + 1,
-                                    latency_histo_buckets,
-                                    &spl->stats[i].update_latency_histo);
-         platform_assert_status_ok(rc);
-         rc = platform_histo_create(spl->heap_id,
-                                    LATENCYHISTO_SIZE + 1,
-                                    latency_histo_buckets,
-                                    &spl->stats[i].delete_latency_histo);
-         platform_assert_status_ok(rc);
-      }
-   }
    return spl;
 }
 
@@ -8120,25 +8175,13 @@ trunk_node_destroy(trunk_handle *spl, uint64 addr, void *arg)
 void
 trunk_destroy(trunk_handle *spl)
 {
-   srq_deinit(&spl->srq);
    trunk_prepare_for_shutdown(spl);
    trunk_for_each_node(spl, trunk_node_destroy, NULL);
    mini_unkeyed_dec_ref(spl->cc, spl->mini.meta_head, PAGE_TYPE_TRUNK, FALSE);
    // clear out this splinter table from the meta page.
    allocator_remove_super_addr(spl->al, spl->id);
 
-   if (spl->cfg.use_stats) {
-      for (uint64 i = 0; i < MAX_THREADS; i++) {
-         platform_histo_destroy(spl->heap_id,
-                                &spl->stats[i].insert_latency_histo);
-         platform_histo_destroy(spl->heap_id,
-                                &spl->stats[i].update_latency_histo);
-         platform_histo_destroy(spl->heap_id,
-                                &spl->stats[i].delete_latency_histo);
-      }
-      platform_free(spl->heap_id, spl->stats);
-   }
-   platform_free(spl->heap_id, spl);
+   trunk_handle_destroy(spl);
 }
 
 /*
@@ -8149,25 +8192,13 @@ void
 trunk_unmount(trunk_handle **spl_in)
 {
    trunk_handle *spl = *spl_in;
-   srq_deinit(&spl->srq);
    trunk_prepare_for_shutdown(spl);
 
    // the super block must not allow a mount before the ref counts are on disk
    platform_status rc = allocator_sync(spl->al);
    platform_assert_status_ok(rc);
    trunk_set_super_block(spl, FALSE, TRUE, FALSE);
-   if (spl->cfg.use_stats) {
-      for (uint64 i = 0; i < MAX_THREADS; i++) {
-         platform_histo_destroy(spl->heap_id,
-                                &spl->stats[i].insert_latency_histo);
-         platform_histo_destroy(spl->heap_id,
-                                &spl->stats[i].update_latency_histo);
-         platform_histo_destroy(spl->heap_id,
-                                &spl->stats[i].delete_latency_histo);
-      }
-      platform_free(spl->heap_id, spl->stats);
-   }
-   platform_free(spl->heap_id, spl);
+   trunk_handle_destroy(spl);
    *spl_in = (trunk_handle *)NULL;
 }
 
-- 
2.43.0


From 768f78ff5ecc5917cc6096cb238a0e5c84b7f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:36 +0000
Subject: [PATCH 26/48] fix: writeback could lock a page for ever, or write a
 wrong one

An entry found through the lookup table while a write is extended over an
extent may have been evicted and reused by the time CC_WRITEBACK is set on it.
Its page then kept the flag without being written (so that whoever locks it
waits for ever), and the request was built from whatever the table said next,
including the unmapped entry.
---
 src/clockcache.c | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index b946f13..6918b08 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -1246,6 +1246,33 @@ clockcache_try_set_writeback(clockcache *cc,
    return FALSE;
 }
 
+/*
+ *----------------------------------------------------------------------
+ * clockcache_try_set_writeback_at --
+ *
+ *      Sets CC_WRITEBACK on the entry, as above, if it holds the page at addr.
+ *
+ *      An entry found through the lookup table may have been evicted and
+ *      reused for another page in the meantime. The page of an entry does not
+ *      change while CC_WRITEBACK is set.
+ *----------------------------------------------------------------------
+ */
+static inline bool32
+clockcache_try_set_writeback_at(clockcache *cc,
+                                uint32      entry_number,
+                                uint64      addr,
+                                bool32      with_access)
+{
+   if (!clockcache_try_set_writeback(cc, entry_number, with_access)) {
+      return FALSE;
+   }
+   if (clockcache_get_entry(cc, entry_number)->page.disk_addr == addr) {
+      return TRUE;
+   }
+   clockcache_clear_flag(cc, entry_number, CC_WRITEBACK);
+   return FALSE;
+}
+
 
 /*
  *----------------------------------------------------------------------
@@ -1341,13 +1368,14 @@ clockcache_batch_start_writeback(clockcache *cc, uint64 batch, bool32 is_urgent)
    // Iterate through the entries in the batch and try to write out the extents.
    for (entry_no = start_entry_no; entry_no < end_entry_no; entry_no++) {
       entry = &cc->entry[entry_no];
-      addr  = entry->page.disk_addr;
       // test and test and set in the if condition
       if (clockcache_ok_to_writeback(cc, entry_no, is_urgent)
           && clockcache_try_set_writeback(cc, entry_no, is_urgent))
       {
+         // the page of the entry is stable only now
+         addr = entry->page.disk_addr;
          debug_assert(clockcache_lookup(cc, addr) == entry_no);
-         first_addr = entry->page.disk_addr;
+         first_addr = addr;
          // walk backwards through extent to find first cleanable entry
          do {
             first_addr -= page_size;
@@ -1358,9 +1386,10 @@ clockcache_batch_start_writeback(clockcache *cc, uint64 batch, bool32 is_urgent)
                next_entry_no = CC_UNMAPPED_ENTRY;
          } while (
             next_entry_no != CC_UNMAPPED_ENTRY
-            && clockcache_try_set_writeback(cc, next_entry_no, is_urgent));
+            && clockcache_try_set_writeback_at(
+               cc, next_entry_no, first_addr, is_urgent));
          first_addr += page_size;
-         end_addr = entry->page.disk_addr;
+         end_addr = addr;
          // walk forwards through extent to find last cleanable entry
          do {
             end_addr += page_size;
@@ -1371,7 +1400,8 @@ clockcache_batch_start_writeback(clockcache *cc, uint64 batch, bool32 is_urgent)
                next_entry_no = CC_UNMAPPED_ENTRY;
          } while (
             next_entry_no != CC_UNMAPPED_ENTRY
-            && clockcache_try_set_writeback(cc, next_entry_no, is_urgent));
+            && clockcache_try_set_writeback_at(
+               cc, next_entry_no, end_addr, is_urgent));
 
          io_async_req *req            = io_get_async_req(cc->io, TRUE);
          void         *req_metadata   = io_get_metadata(cc->io, req);
@@ -2802,7 +2832,8 @@ clockcache_extent_sync(clockcache *cc, uint64 addr, uint64 *pages_outstanding)
       page_addr    = addr + clockcache_multiply_by_page_size(cc, i);
       entry_number = clockcache_lookup(cc, page_addr);
       if (entry_number != CC_UNMAPPED_ENTRY
-          && clockcache_try_set_writeback(cc, entry_number, TRUE))
+          && clockcache_try_set_writeback_at(
+             cc, entry_number, page_addr, TRUE))
       {
          if (req_count == 0) {
             req_addr = page_addr;
-- 
2.43.0


From 9fa0832ee964acec929df3c002524ffef8dc377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:36 +0000
Subject: [PATCH 27/48] fix: cache_page_sync aborted when the page was already
 being written back

The page cleaner may start, or finish, the writeback between the caller's last
unlock and its sync.
---
 src/clockcache.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 6918b08..fc17c19 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2736,9 +2736,19 @@ clockcache_page_sync(clockcache  *cc,
    const threadid  tid  = platform_get_tid();
    platform_status status;
 
-   if (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
-      platform_assert(clockcache_test_flag(cc, entry_number, CC_CLEAN));
-      return;
+   while (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
+      uint32 status = clockcache_get_status(cc, entry_number);
+      if (status & CC_CLEAN) {
+         return;
+      }
+      // Another thread may be writing the page back, or just have finished
+      platform_assert((status & ~(CC_WRITEBACK | CC_ACCESSED)) == 0);
+      if (status & CC_WRITEBACK) {
+         if (!is_blocking) {
+            return;
+         }
+         clockcache_wait(cc);
+      }
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From 01d3f3b338223f6d5fed6e7aa33b28882dd364ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:36 +0000
Subject: [PATCH 28/48] fix: cache_extent_sync crashed and never reported
 completion

The completion callback passed the cache where a pointer to it was expected and
subtracted a number of pages divided by the page size.
---
 src/clockcache.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index fc17c19..22c0f94 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2808,9 +2808,8 @@ clockcache_sync_callback(void           *arg,
                          platform_status status)
 {
    clockcache_sync_callback_req *req = (clockcache_sync_callback_req *)arg;
-   uint64 pages_written = clockcache_divide_by_page_size(req->cc, count);
-   clockcache_write_callback(req->cc, iovec, count, status);
-   __sync_fetch_and_sub(req->pages_outstanding, pages_written);
+   clockcache_write_callback(&req->cc, iovec, count, status);
+   __sync_fetch_and_sub(req->pages_outstanding, count);
 }
 
 /*
@@ -2872,7 +2871,8 @@ clockcache_extent_sync(clockcache *cc, uint64 addr, uint64 *pages_outstanding)
    }
    if (req_count != 0) {
       __sync_fetch_and_add(pages_outstanding, req_count);
-      status = io_write_async(
+      io_req->bytes = clockcache_multiply_by_page_size(cc, req_count);
+      status        = io_write_async(
          cc->io, io_req, clockcache_sync_callback, req_count, req_addr);
       platform_assert_status_ok(status);
    }
-- 
2.43.0


From 0573e1355f03d63424369322bd35e24f98e3d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:38 +0000
Subject: [PATCH 29/48] fix: records appended to a log page which had been
 written back were lost

shard_log_write() did not mark a page dirty when it appended to it. Once
the cache had written the page back, for instance to make room, what was
appended afterwards never reached the device, not even when the page was
complete.
---
 src/shard_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index 689318d..75b6119 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -250,6 +250,7 @@ shard_log_write(log_handle *logh, key tuple_key, message msg, uint64 generation)
          wait = wait > 1024 ? wait : 2 * wait;
       }
       cache_lock(cc, page);
+      cache_mark_dirty(cc, page);
    }
 
    shard_log_hdr *hdr    = (shard_log_hdr *)page->data;
-- 
2.43.0


From 015d9d694c79b998f431ed86ef0cfe77ad4a14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:38 +0000
Subject: [PATCH 30/48] fix: log records were replayed out of order

The comparison of two generations cut their difference down to an int, so
that generations which differ by more than 2^31 were put in the wrong
order.
---
 src/shard_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index 75b6119..96a7604 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -335,7 +335,10 @@ shard_log_compare(const void *p1, const void *p2, void *unused)
 {
    log_entry **le1 = (log_entry **)p1;
    log_entry **le2 = (log_entry **)p2;
-   return (*le1)->generation - (*le2)->generation;
+   if ((*le1)->generation == (*le2)->generation) {
+      return 0;
+   }
+   return (*le1)->generation < (*le2)->generation ? -1 : 1;
 }
 
 log_handle *
-- 
2.43.0


From 21a69797fa5682b7e3d6e346535ea4a33a5bcdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:26 +0000
Subject: [PATCH 31/48] fix: pages of an earlier log could pass for pages of a
 new one

A log's magic was derived from a counter which starts at zero in each
process. The first log of a process thus had the same magic as that of
every earlier process, and when it was given extents of an earlier log,
reading it back could return records of the earlier log from pages which
it had not written yet. Derive the magic from time and process as well.
---
 src/shard_log.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index 96a7604..4436062 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -98,8 +98,15 @@ shard_log_init(shard_log *log, cache *cc, shard_log_config *cfg)
    log->cfg       = cfg;
    log->super.ops = &shard_log_ops;
 
-   uint64 magic_idx = __sync_fetch_and_add(&shard_log_magic_idx, 1);
-   log->magic = platform_checksum64(&magic_idx, sizeof(uint64), cfg->seed);
+   /*
+    * The magic tells this log's pages from those of other logs, including those
+    * which an earlier process left behind in the extents which this log is
+    * going to use.
+    */
+   uint64 magic_id[] = {__sync_fetch_and_add(&shard_log_magic_idx, 1),
+                        platform_get_real_time(),
+                        getpid()};
+   log->magic = platform_checksum64(magic_id, sizeof(magic_id), cfg->seed);
 
    allocator      *al = cache_get_allocator(cc);
    platform_status rc = allocator_alloc(al, &log->meta_head, PAGE_TYPE_LOG);
-- 
2.43.0


From 5538a3f51198bdf0a00ea3e0968db39ea6248a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:55 +0000
Subject: [PATCH 32/48] fix: huge requests to a shared segment were granted

A request whose size wraps around the address space passed the check
against the end of the segment, and moved the start of the free space
back, into memory which is in use.
---
 src/platform_linux/shmem.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/platform_linux/shmem.c b/src/platform_linux/shmem.c
index 0a53b58..442f8d3 100644
--- a/src/platform_linux/shmem.c
+++ b/src/platform_linux/shmem.c
@@ -568,12 +568,10 @@ platform_shm_alloc(platform_heap_id hid,
 
    shm_lock_mem(shm);
 
-   // Optimistically, allocate the requested 'size' bytes of memory.
-   retptr = __sync_fetch_and_add(&shm->shm_next, (void *)size);
+   retptr = shm->shm_next;
 
-   if ((retptr + size) > shm->shm_end) {
-      // This memory request cannot fit in available space. Reset.
-      __sync_fetch_and_sub(&shm->shm_next, (void *)size);
+   if (size > (size_t)(shm->shm_end - retptr)) {
+      // This memory request cannot fit in available space.
       shm_unlock_mem(shm);
 
       platform_error_log(
@@ -593,6 +591,7 @@ platform_shm_alloc(platform_heap_id hid,
       return NULL;
    }
 
+   shm->shm_next       = retptr + size;
    shm->shm_last_alloc = retptr;
    // Track approx memory usage metrics; mainly for troubleshooting
    __sync_fetch_and_add(&shm->usage.used_bytes, size);
-- 
2.43.0


From 0c3b467d3ceae9215e8f5826fb4321417f71a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:55 +0000
Subject: [PATCH 33/48] fix: empty and small-aligned requests broke the shared
 segment

A request for no bytes got the address of whatever was allocated next,
and freeing it gave that block away while it was in use. A request with
an alignment of less than a cache line left the free space misaligned,
and the next allocation stopped the process.
---
 src/platform_linux/shmem.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/platform_linux/shmem.c b/src/platform_linux/shmem.c
index 442f8d3..ebbe8cc 100644
--- a/src/platform_linux/shmem.c
+++ b/src/platform_linux/shmem.c
@@ -525,7 +525,7 @@ platform_shmdestroy(platform_heap_id *hid_out)
 // RESOLVE: Pass down user requested alignment and handle it here.
 void *
 platform_shm_alloc(platform_heap_id hid,
-                   const size_t     size,
+                   const size_t     reqsize,
                    const char      *objname,
                    const char      *func,
                    const char      *file,
@@ -537,9 +537,13 @@ platform_shm_alloc(platform_heap_id hid,
                 "Shared memory heap ID at %p is not a valid shared memory ptr.",
                 hid);
 
-   debug_assert(((size % PLATFORM_CACHELINE_SIZE) == 0),
-                "size=%lu is not aligned to PLATFORM_CACHELINE_SIZE",
-                size);
+   // Fragments are whole, non-empty cache-lines, so that all of them are aligned
+   // and no two have the same address.
+   const size_t size =
+      reqsize ? reqsize
+                   + platform_align_bytes_reqd(PLATFORM_CACHELINE_SIZE, reqsize)
+              : PLATFORM_CACHELINE_SIZE;
+
    platform_assert(((((uint64)shm->shm_next) % PLATFORM_CACHELINE_SIZE) == 0),
                    "[%s:%d] Next free-addr is not aligned: "
                    "shm_next=%p, total_bytes=%lu, used_bytes=%lu"
-- 
2.43.0


From 4a0ffe898182efad4676742d438c960bc85bc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:55 +0000
Subject: [PATCH 34/48] fix: reallocating to a smaller size overwrote other
 memory

platform_shm_realloc() copied all of the old block into the new one, also
when that is smaller, or has no bytes at all, in which case the block is
to be freed.
---
 src/platform_linux/shmem.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/platform_linux/shmem.c b/src/platform_linux/shmem.c
index ebbe8cc..b5d32cd 100644
--- a/src/platform_linux/shmem.c
+++ b/src/platform_linux/shmem.c
@@ -642,7 +642,7 @@ platform_shm_realloc(platform_heap_id hid,
                      const char      *file,
                      const int        lineno)
 {
-   debug_assert(((oldptr == NULL) && (oldsize == 0)) || (oldptr && oldsize),
+   debug_assert((oldptr != NULL) || (oldsize == 0),
                 "oldptr=%p, oldsize=%lu",
                 oldptr,
                 oldsize);
@@ -652,13 +652,21 @@ platform_shm_realloc(platform_heap_id hid,
                 "oldptr=%p is not allocated from shared memory",
                 oldptr);
 
+   // Reallocing to size 0 is equivalent to freeing
+   if (newsize == 0) {
+      if (oldptr) {
+         platform_shm_free(hid, oldptr, "Unknown", func, file, lineno);
+      }
+      return NULL;
+   }
+
    void *retptr =
       platform_shm_alloc(hid, newsize, "Unknown", func, file, lineno);
    if (retptr) {
 
       // Copy over old contents, if any, and free that memory piece
       if (oldptr) {
-         memcpy(retptr, oldptr, oldsize);
+         memcpy(retptr, oldptr, MIN(oldsize, newsize));
          platform_shm_free(hid, oldptr, "Unknown", func, file, lineno);
       }
    } else {
-- 
2.43.0


From 7bcad1c9222b557223074fcd51069bc70bae381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:55 +0000
Subject: [PATCH 35/48] fix: destroying a heap made the process forget another
 one

platform_shmdestroy() cleared the process's current heap, whichever heap
was being destroyed.
---
 src/platform_linux/shmem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/platform_linux/shmem.c b/src/platform_linux/shmem.c
index b5d32cd..dc025c2 100644
--- a/src/platform_linux/shmem.c
+++ b/src/platform_linux/shmem.c
@@ -502,7 +502,9 @@ platform_shmdestroy(platform_heap_id *hid_out)
    }
 
    // Reset globals to NULL; to avoid accessing stale handles.
-   Heap_id = NULL;
+   if (Heap_id == (platform_heap_id)shmaddr) {
+      Heap_id = NULL;
+   }
 
    // Always trace destroy of shared memory segment.
    platform_default_log("Deallocated SplinterDB shared memory "
-- 
2.43.0


From b4985cfdbb2054f8673ed9fc8a297e5a60641df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 36/48] fix: direct i/o and shared memory did not work together

The allocator's meta page was allocated with page alignment, which the
shared-memory heap does not provide, so that with direct i/o reading and
writing it failed. Use a buffer of its own for it.
---
 src/rc_allocator.c | 20 ++++++++++++--------
 src/rc_allocator.h |  1 +
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index ad422c0..17e0f8f 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -251,13 +251,16 @@ rc_allocator_init_meta_page(rc_allocator *al)
    platform_assert((1 + RC_ALLOCATOR_MAX_ROOT_IDS) * al->cfg->io_cfg->page_size
                    <= al->cfg->io_cfg->extent_size);
 
-   al->meta_page = TYPED_ALIGNED_ZALLOC(al->heap_id,
-                                        al->cfg->io_cfg->page_size,
-                                        al->meta_page,
-                                        al->cfg->io_cfg->page_size);
-   if (al->meta_page == NULL) {
+   /*
+    * Direct i/o also needs aligned memory, which a shared-memory heap cannot
+    * provide.
+    */
+   platform_status rc =
+      platform_buffer_init(&al->meta_bh, al->cfg->io_cfg->page_size);
+   if (!SUCCESS(rc)) {
       return STATUS_NO_MEMORY;
    }
+   al->meta_page = platform_buffer_getaddr(&al->meta_bh);
 
    memset(al->meta_page->splinters,
           INVALID_ALLOCATOR_ROOT_ID,
@@ -367,7 +370,7 @@ rc_allocator_init(rc_allocator      *al,
    rc                 = platform_buffer_init(&al->bh, buffer_size);
    if (!SUCCESS(rc)) {
       platform_mutex_destroy(&al->lock);
-      platform_free(al->heap_id, al->meta_page);
+      platform_buffer_deinit(&al->meta_bh);
       platform_error_log("Failed to create buffer for ref counts\n");
       return STATUS_NO_MEMORY;
    }
@@ -399,7 +402,8 @@ rc_allocator_deinit(rc_allocator *al)
    platform_buffer_deinit(&al->bh);
    al->ref_count = NULL;
    platform_mutex_destroy(&al->lock);
-   platform_free(al->heap_id, al->meta_page);
+   platform_buffer_deinit(&al->meta_bh);
+   al->meta_page = NULL;
 }
 
 /*
@@ -449,7 +453,7 @@ rc_allocator_mount(rc_allocator      *al,
    buffer_size        = ROUNDUP(buffer_size, cfg->io_cfg->page_size);
    status             = platform_buffer_init(&al->bh, buffer_size);
    if (!SUCCESS(status)) {
-      platform_free(al->heap_id, al->meta_page);
+      platform_buffer_deinit(&al->meta_bh);
       platform_mutex_destroy(&al->lock);
       platform_error_log("Failed to create buffer to load ref counts\n");
       return STATUS_NO_MEMORY;
diff --git a/src/rc_allocator.h b/src/rc_allocator.h
index 54ed22e..df7660f 100644
--- a/src/rc_allocator.h
+++ b/src/rc_allocator.h
@@ -63,6 +63,7 @@ typedef struct rc_allocator {
    uint64                  hand;
    io_handle              *io;
    rc_allocator_meta_page *meta_page;
+   buffer_handle           meta_bh; // holds the meta_page
 
    /*
     * mutex to synchronize updates to super block addresses of the splinter
-- 
2.43.0


From 56462a5496d85f66ac1ed059a0995d06f4f1840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 37/48] fix: counting by iteration started before the range

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 46061de..d381051 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3401,7 +3401,7 @@ btree_count_in_range_by_iterator(cache             *cc,
                        min_key,
                        max_key,
                        min_key,
-                       TRUE,
+                       greater_than_or_equal,
                        TRUE,
                        0);
 
-- 
2.43.0


From 4bf665825e8234af202fdc30e1805eb7be50d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 38/48] fix: seeking kept the page it left, or misread the page
 it was on

---
 src/btree.c | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index d381051..b7c7d1d 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2899,27 +2899,9 @@ btree_iterator_seek(iterator *base_itor, key seek_key, comparison seek_type)
       return STATUS_BAD_PARAM;
    }
 
-   // check if seek_key is within our current node
-   key first_key = itor->height
-                      ? btree_get_pivot(itor->cfg, itor->curr.hdr, 0)
-                      : btree_get_tuple_key(itor->cfg, itor->curr.hdr, 0);
-   key last_key =
-      itor->height
-         ? btree_get_pivot(itor->cfg, itor->curr.hdr, itor->end_idx - 1)
-         : btree_get_tuple_key(itor->cfg, itor->curr.hdr, itor->end_idx - 1);
-
-   if (btree_key_compare(itor->cfg, seek_key, first_key) >= 0
-       && btree_key_compare(itor->cfg, seek_key, last_key) <= 0)
-   {
-      // seek_key is within our current leaf. So just directly search for it
-      bool32 found;
-      itor->idx =
-         find_key_in_node(itor, itor->curr.hdr, seek_key, seek_type, &found);
-      platform_assert(0 <= itor->idx);
-   } else {
-      // seek key is not within our current leaf. So find the correct leaf
-      find_btree_node_and_get_idx_bounds(itor, seek_key, seek_type);
-   }
+   // Release curr first: whoever splits it may hold a lock on its ancestors.
+   btree_node_unget(itor->cc, itor->cfg, &itor->curr);
+   find_btree_node_and_get_idx_bounds(itor, seek_key, seek_type);
 
    return STATUS_OK;
 }
-- 
2.43.0


From 6c979786ff28636c1c159d9c64dc5eddf7137b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 39/48] fix: an iterator started above its range was one entry
 off

---
 src/btree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index b7c7d1d..3bbce45 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2864,6 +2864,10 @@ find_btree_node_and_get_idx_bounds(btree_iterator *itor,
    // find the index of the actual target
    itor->idx =
       find_key_in_node(itor, itor->curr.hdr, target, position_rule, &found);
+   if (itor->curr.addr == itor->end_addr && itor->idx > itor->end_idx) {
+      // greater_than max_key
+      itor->idx = itor->end_idx;
+   }
 
    // check if we already need to move to the prev/next leaf
    if (itor->curr.addr != itor->end_addr
-- 
2.43.0


From 740768bdb5ee2e2cefc8af279d829f060ebd3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 40/48] fix: an aborted pack leaked extents

---
 src/btree.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index 3bbce45..6cfc854 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3257,6 +3257,13 @@ btree_pack_abort(btree_pack_req *req)
       }
    }
 
+   // Give back what the mini_allocator holds in advance
+   if (req->num_tuples == 0) {
+      mini_destroy_unused(&req->mini);
+      return;
+   }
+   mini_release(&req->mini, POSITIVE_INFINITY_KEY);
+
    btree_dec_ref_range(req->cc,
                        req->cfg,
                        req->root_addr,
-- 
2.43.0


From 1fbeb67d0162e4697e0e7846df8e7e1cc163ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 41/48] fix: a failed insert could leave a tree node claimed
 for ever

---
 src/btree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btree.c b/src/btree.c
index 6cfc854..8147406 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2031,6 +2031,7 @@ start_over:
       rc = btree_create_leaf_incorporate_spec(
          cfg, heap_id, child_node.hdr, tuple_key, msg, &spec);
       if (!SUCCESS(rc)) {
+         btree_node_unclaim(cc, cfg, &parent_node);
          btree_node_unget(cc, cfg, &parent_node);
          btree_node_unclaim(cc, cfg, &child_node);
          btree_node_unget(cc, cfg, &child_node);
-- 
2.43.0


From b099ab4bcc4ddc6f0cd889daa2d9cbf63d609d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 42/48] fix: eviction hand returned to the same batch when all
 others were kept by threads

---
 src/clockcache.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 22c0f94..0c4749b 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -1599,7 +1599,8 @@ clockcache_move_hand(clockcache *cc, bool32 is_urgent)
    uint64           cleaner_hand;
 
    /* move the hand a batch forward */
-   uint64            evict_hand = cc->per_thread[tid].free_hand;
+   const uint64      old_hand   = cc->per_thread[tid].free_hand;
+   uint64            evict_hand = old_hand;
    if (evict_hand != CC_UNMAPPED_ENTRY) {
       evict_batch_busy = &cc->batch_busy[evict_hand];
       // the batch may be shared with (and released by) another thread, see below
@@ -1608,10 +1609,13 @@ clockcache_move_hand(clockcache *cc, bool32 is_urgent)
    /*
     * Every thread keeps the batch it allocated from last, so all of them may be
     * busy. Keeping threads apart only avoids contention: after looking at each
-    * batch, share one.
+    * batch, share one (and not always the old one, which may have nothing left
+    * to evict). Nobody else cleans a batch which stays busy.
     */
-   uint64 tries = 0;
+   bool32 shared = FALSE;
+   uint64 tries  = 0;
    do {
+      shared = tries++ >= cc->cfg->batch_capacity;
       evict_hand =
          __sync_add_and_fetch(&cc->evict_hand, 1) % cc->cfg->batch_capacity;
       evict_batch_busy = &cc->batch_busy[evict_hand];
@@ -1622,8 +1626,13 @@ clockcache_move_hand(clockcache *cc, bool32 is_urgent)
          clockcache_batch_start_writeback(cc, cleaner_hand, is_urgent);
          __sync_bool_compare_and_swap(clean_batch_busy, TRUE, FALSE);
       }
-   } while (!__sync_bool_compare_and_swap(evict_batch_busy, FALSE, TRUE)
-            && tries++ < cc->cfg->batch_capacity);
+   } while (!shared
+            && (evict_hand == old_hand
+                || !__sync_bool_compare_and_swap(evict_batch_busy, FALSE, TRUE)));
+   if (shared) {
+      clockcache_batch_start_writeback(cc, evict_hand, is_urgent);
+      __sync_bool_compare_and_swap(evict_batch_busy, FALSE, TRUE);
+   }
 
    clockcache_evict_batch(cc, evict_hand % cc->cfg->batch_capacity);
    cc->per_thread[tid].free_hand = evict_hand % cc->cfg->batch_capacity;
-- 
2.43.0


From cb84f32c615519c416795904c49fa2de330699ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 43/48] fix: filter values above 31 and unique fingerprint
 counts were wrong

---
 src/routing_filter.c | 7 ++++---
 src/routing_filter.h | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/routing_filter.c b/src/routing_filter.c
index 94e3aae..73ea56e 100644
--- a/src/routing_filter.c
+++ b/src/routing_filter.c
@@ -553,9 +553,6 @@ routing_filter_add(cache          *cc,
             } else {
                fp = new_src_fp[new_fps_added++];
             }
-            if (last_fp_added >> value_size != fp >> value_size) {
-               filter->num_unique++;
-            }
             uint32 bucket = routing_get_bucket(fp, remainder_and_value_size);
             // if (fp >> value_size == 0x4a11feb) {
             //    if (is_old) {
@@ -573,6 +570,10 @@ routing_filter_add(cache          *cc,
                break;
             }
             debug_assert(bucket >= last_bucket);
+            if (fps_added == 0 || last_fp_added >> value_size != fp >> value_size)
+            {
+               filter->num_unique++;
+            }
             header_bit += bucket - last_bucket;
             last_bucket = bucket;
             routing_unset_bit(encoding_buffer, header_bit++);
diff --git a/src/routing_filter.h b/src/routing_filter.h
index dfaae5d..6672017 100644
--- a/src/routing_filter.h
+++ b/src/routing_filter.h
@@ -109,7 +109,7 @@ static inline uint16
 routing_filter_get_next_value(uint64 found_values, uint16 last_value)
 {
    if (last_value != ROUTING_NOT_FOUND) {
-      uint64 mask = (1 << last_value) - 1;
+      uint64 mask = (1UL << last_value) - 1;
       found_values &= mask;
    }
    if (found_values == 0) {
@@ -121,7 +121,7 @@ routing_filter_get_next_value(uint64 found_values, uint16 last_value)
 static inline bool32
 routing_filter_is_value_found(uint64 found_values, uint16 value)
 {
-   return ((found_values & (1 << value)) != 0);
+   return ((found_values & (1UL << value)) != 0);
 }
 
 
-- 
2.43.0


From 9bd9c156a346ba1ca86cb6a887f101c11fbb5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 44/48] fix: estimating unique keys gave up on clustered
 fingerprints

---
 src/routing_filter.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/routing_filter.c b/src/routing_filter.c
index 73ea56e..6deed94 100644
--- a/src/routing_filter.c
+++ b/src/routing_filter.c
@@ -695,9 +695,14 @@ routing_filter_estimate_unique_fp(cache           *cc,
    for (uint64 i = 0; i != num_filters; i++) {
       total_num_fp += filter[i].num_fingerprints;
    }
-   uint32  buffer_size = total_num_fp / 12;
+   /*
+    * The sample is a sixteenth of the indices. Fingerprints added with many
+    * values cluster, so it may have much more than that of the fingerprints.
+    */
+   uint32  buffer_size = total_num_fp;
    uint32  alloc_size  = buffer_size + cfg->index_size;
-   uint32 *local  = TYPED_ARRAY_ZALLOC(hid, local, alloc_size * sizeof(uint32));
+   uint32 *local       = TYPED_ARRAY_ZALLOC(hid, local, alloc_size);
+   platform_assert(local != NULL);
    uint32 *fp_arr = local;
    uint32 *count  = local + buffer_size;
 
-- 
2.43.0


From fa69cb9e42c209783f8d79bf1374607a096e2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 45/48] fix: a filter index with many fingerprints overran its
 encoding buffer

---
 src/routing_filter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/routing_filter.c b/src/routing_filter.c
index 6deed94..6ceb206 100644
--- a/src/routing_filter.c
+++ b/src/routing_filter.c
@@ -392,13 +392,16 @@ routing_filter_add(cache          *cc,
    uint32 *fp_buffer;
    uint32 *old_fp_buffer;
    uint64 *encoding_buffer;
+   // a bit for each fp and each bucket of an index, rounded up to its words
+   size_t encoding_buffer_count =
+      (ROUTING_FPS_PER_PAGE + index_size) / 64 * 2 + 2;
    size_t  temp_buffer_count = num_new_fp +               // temp
                               num_indices +               // index_count
                               index_size +                // old_count
                               MATRIX_ROWS * MATRIX_COLS + // matrix
                               ROUTING_FPS_PER_PAGE +      // fp_buffer
                               ROUTING_FPS_PER_PAGE +      // old_fp_buffer
-                              ROUTING_FPS_PER_PAGE / 32;  // encoding_buffer
+                              encoding_buffer_count;      // encoding_buffer
    debug_assert(temp_buffer_count < 100000000);
    uint32 *temp =
       TYPED_ARRAY_ZALLOC(PROCESS_PRIVATE_HEAP_ID, temp, temp_buffer_count);
@@ -412,7 +415,7 @@ routing_filter_add(cache          *cc,
    fp_buffer       = matrix + MATRIX_ROWS * MATRIX_COLS;
    old_fp_buffer   = fp_buffer + ROUTING_FPS_PER_PAGE;
    encoding_buffer = (uint64 *)(old_fp_buffer + ROUTING_FPS_PER_PAGE);
-   memset(encoding_buffer, 0xff, ROUTING_FPS_PER_PAGE / 32 * sizeof(uint32));
+   memset(encoding_buffer, 0xff, encoding_buffer_count * sizeof(uint32));
 
    // we use a mini_allocator to obtain pages
    allocator      *al = cache_get_allocator(cc);
-- 
2.43.0


From d5ad68a8e334e8afc88563b4ba13cfd049cdbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 46/48] fix: a leaf was split into more leaves than its parent
 has room for

---
 src/trunk.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index 2ea515a..90e2256 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -5867,6 +5867,16 @@ trunk_split_leaf(trunk_handle *spl,
          }
       }
    }
+
+   // the parent must have room for the pivots of the new leaves
+   uint64 parent_pivot_keys = trunk_num_pivot_keys(spl, parent);
+   uint64 max_num_leaves    = spl->cfg.max_pivot_keys > parent_pivot_keys
+                                 ? spl->cfg.max_pivot_keys - parent_pivot_keys
+                                 : 1;
+   if (target_num_leaves > max_num_leaves) {
+      target_num_leaves = max_num_leaves;
+   }
+
    uint64 target_leaf_kv_bytes = kv_bytes / target_num_leaves;
    uint16 num_leaves;
 
-- 
2.43.0


From 233d849f6f20c184aa28a2425d907ee1bd1f13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:42 +0000
Subject: [PATCH 47/48] fix: a compaction read a stale copy of its node and
 merged branches already freed

---
 src/trunk.c | 67 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 90e2256..71a7509 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -5230,10 +5230,17 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
    key                       end_key   = key_buffer_key(&req->end_key);
 
    /*
-    * 1. Acquire node read lock
+    * 1. Acquire node read lock. The node may have been copied since the job was
+    *    issued, and the branches of the copy that was current then may have
+    *    been flushed and freed. Jobs are issued before the root of the tree
+    *    with their bundles is switched in, so wait for that to happen.
     */
    trunk_node node;
-   trunk_node_get(spl->cc, req->addr, &node);
+   trunk_root_full_claim(spl);
+   trunk_begin_read(spl);
+   rc = trunk_compact_bundle_node_get(spl, req, &node);
+   platform_assert_status_ok(rc);
+   trunk_root_full_unclaim(spl);
 
    // timers for stats if enabled
    uint64 compaction_start, pack_start;
@@ -5244,23 +5251,43 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
       spl->stats[tid].compactions[height]++;
    }
 
-   platform_assert(
-      !trunk_compact_bundle_node_has_split(spl, req, &node),
-      "compact_bundle unexpected node split\n"
-      "addr: %lu\n"
-      "node range: %s-%s\n"
-      "req range:  %s-%s\n"
-      "key compare: %d\n"
-      "req->node_id: %lu\n"
-      "node->node_id: %lu\n",
-      node.addr,
-      key_string(trunk_data_config(spl), trunk_min_key(spl, &node)),
-      key_string(trunk_data_config(spl), trunk_max_key(spl, &node)),
-      key_string(trunk_data_config(spl), start_key),
-      key_string(trunk_data_config(spl), end_key),
-      trunk_key_compare(spl, trunk_max_key(spl, &node), end_key),
-      req->node_id,
-      node.hdr->node_id);
+   if (trunk_compact_bundle_node_has_split(spl, req, &node)) {
+      if (trunk_node_is_leaf(&node)) {
+         /*
+          * 1a. The leaf has split, which covers this compaction (interaction
+          *     6)
+          */
+         trunk_node_unget(spl->cc, &node);
+         trunk_end_read(spl);
+         key_buffer_deinit(&req->start_key);
+         key_buffer_deinit(&req->end_key);
+         platform_free(spl->heap_id, req);
+         if (spl->cfg.use_stats) {
+            spl->stats[tid].compactions_discarded_leaf_split[height]++;
+            spl->stats[tid].compaction_time_wasted_ns[height] +=
+               platform_timestamp_elapsed(compaction_start);
+         }
+         return;
+      }
+
+      /*
+       * 1b. The node has split and the bundle with it (interaction 4), so
+       *     compact this sibling and leave the others to another job
+       */
+      key max_key = trunk_max_key(spl, &node);
+      if (trunk_key_compare(spl, max_key, end_key) < 0) {
+         trunk_compact_bundle_req *next_req =
+            TYPED_MALLOC(spl->heap_id, next_req);
+         memmove(next_req, req, sizeof(trunk_compact_bundle_req));
+         key_buffer_init_from_key(&next_req->start_key, spl->heap_id, max_key);
+         key_buffer_init_from_key(&next_req->end_key, spl->heap_id, end_key);
+         key_buffer_copy_key(&req->end_key, max_key);
+         end_key = key_buffer_key(&req->end_key);
+         rc = trunk_compact_bundle_enqueue(spl, "split to", next_req);
+         platform_assert_status_ok(rc);
+      }
+      req->node_id = node.hdr->node_id;
+   }
 
    /*
     * 2. The bundle may have been completely flushed, if so abort
@@ -5268,6 +5295,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
    if (!trunk_bundle_live(spl, &node, req->bundle_no)) {
       debug_assert(height != 0);
       trunk_node_unget(spl->cc, &node);
+      trunk_end_read(spl);
       trunk_default_log_if_enabled(
          spl,
          "compact_bundle abort flushed: range %s-%s, height %u, bundle %u\n",
@@ -5346,6 +5374,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
     * 6. Release read lock
     */
    trunk_node_unget(spl->cc, &node);
+   trunk_end_read(spl);
 
    /*
     * 7. Perform compaction
-- 
2.43.0


From 38f912d1b6ea17f1b4fd49b31374213f6d5fa664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:29 +0000
Subject: [PATCH 48/48] fix: filters lost keys of a compacted bundle when
 pivots before them were flushed

A branch also has the tuples of the pivots whose bundle was flushed while
the compaction ran. The offsets of the other pivots into the fingerprint
array did not count them, so filters were built from the wrong
fingerprints and lookups missed keys.
---
 src/btree.c |  2 +-
 src/btree.h |  7 +++++++
 src/trunk.c | 30 +++++++++++++++++++-----------
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index 8147406..c8edc68 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3325,7 +3325,7 @@ btree_pack(btree_pack_req *req)
  * Returns the number of kv pairs (k,v ) w/ k < key.  Also returns
  * the total size of all such keys and messages.
  */
-static inline void
+void
 btree_get_rank(cache             *cc,
                btree_config      *cfg,
                uint64             root_addr,
diff --git a/src/btree.h b/src/btree.h
index 2c66671..6ab7ecc 100644
--- a/src/btree.h
+++ b/src/btree.h
@@ -373,6 +373,13 @@ btree_pack_req_deinit(btree_pack_req *req, platform_heap_id hid)
 platform_status
 btree_pack(btree_pack_req *req);
 
+void
+btree_get_rank(cache             *cc,
+               btree_config      *cfg,
+               uint64             root_addr,
+               key                target,
+               btree_pivot_stats *stats);
+
 void
 btree_count_in_range(cache             *cc,
                      btree_config      *cfg,
diff --git a/src/trunk.c b/src/trunk.c
index 71a7509..fbd3d76 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -731,6 +731,7 @@ struct trunk_compact_bundle_req {
    uint64  max_pivot_generation;
    uint64  input_pivot_tuple_count[TRUNK_MAX_PIVOTS];
    uint64  output_pivot_tuple_count[TRUNK_MAX_PIVOTS];
+   uint64  output_pivot_start_tuple[TRUNK_MAX_PIVOTS]; // offset in fp_arr
    uint64  input_pivot_kv_byte_count[TRUNK_MAX_PIVOTS];
    uint64  output_pivot_kv_byte_count[TRUNK_MAX_PIVOTS];
    uint64  tuples_reclaimed;
@@ -3150,6 +3151,16 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
                new_branch_no,
                &req->output_pivot_tuple_count[pos],
                &req->output_pivot_kv_byte_count[pos]);
+
+            // the branch also has the tuples of pivots for which the bundle
+            // was flushed during the compaction
+            btree_pivot_stats rank;
+            btree_get_rank(spl->cc,
+                           trunk_btree_config(spl),
+                           repl_branch->root_addr,
+                           trunk_get_pivot(spl, node, pivot_no),
+                           &rank);
+            req->output_pivot_start_tuple[pos] = rank.num_kvs;
          }
 
          uint64 tuples_reclaimed = req->input_pivot_tuple_count[pos]
@@ -3709,13 +3720,16 @@ trunk_install_new_compacted_subbundle(trunk_handle             *spl,
 
    // record the pivot generations and increment the boundaries
    uint16 num_children = trunk_num_children(spl, node);
+   uint64 start_tuple  = 0;
    for (uint16 pivot_no = 0; pivot_no < num_children; pivot_no++) {
       if (pivot_no != 0) {
          key pivot = trunk_get_pivot(spl, node, pivot_no);
          trunk_inc_intersection(spl, branch, pivot, FALSE);
       }
       trunk_pivot_data *pdata = trunk_get_pivot_data(spl, node, pivot_no);
-      req->pivot_generation[pivot_no] = pdata->generation;
+      req->pivot_generation[pivot_no]         = pdata->generation;
+      req->output_pivot_start_tuple[pivot_no] = start_tuple;
+      start_tuple += req->output_pivot_tuple_count[pivot_no];
    }
    debug_assert(trunk_subbundle_branch_count(spl, node, sb) != 0);
 }
@@ -4166,16 +4180,10 @@ trunk_process_generation_to_fp_bounds(trunk_handle             *spl,
                                       uint32                   *fp_start,
                                       uint32                   *fp_end)
 {
-   uint64 pos          = 0;
-   uint64 fp_start_int = 0;
-   while (pos != TRUNK_MAX_PIVOTS && req->pivot_generation[pos] != generation) {
-      fp_start_int += req->output_pivot_tuple_count[pos];
-      pos++;
-   }
-   platform_assert(pos + 1 != TRUNK_MAX_PIVOTS);
-   uint64 fp_end_int = fp_start_int + req->output_pivot_tuple_count[pos];
-   *fp_start         = fp_start_int;
-   *fp_end           = fp_end_int;
+   uint64 pos = trunk_process_generation_to_pos(spl, req, generation);
+   platform_assert(pos < TRUNK_MAX_PIVOTS);
+   *fp_start = req->output_pivot_start_tuple[pos];
+   *fp_end   = *fp_start + req->output_pivot_tuple_count[pos];
 }
 
 static inline void
-- 
2.43.0

