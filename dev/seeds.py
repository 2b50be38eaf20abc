S = {
"p08-root-switch-window": [("src/trunk.c", """   // Switch in the new root and release all locks
   trunk_update_claimed_root_and_unlock(spl, &new_root);
   memtable_unblock_lookups(spl->mt_ctxt);
""", """   // Lookups may continue while the new root is switched in
   memtable_unblock_lookups(spl->mt_ctxt);
   trunk_update_claimed_root_and_unlock(spl, &new_root);
""")],
"p04-short-write": [("src/platform_linux/laio.c", """   ret = pwrite(io->fd, buf, bytes, addr);
   if (ret == bytes) {
      return STATUS_OK;
   }
   return STATUS_IO_ERROR;""", """   ret = pwrite(io->fd, buf, bytes, addr);
   if (ret <= 0) {
      return STATUS_IO_ERROR;
   }
   return STATUS_OK;""")],
"p06-rotate-busy": [("src/memtable.c", """         if (next_mt->state != MEMTABLE_STATE_READY) {
            memtable_end_insert(ctxt);
            return STATUS_BUSY;
         }
""", """         if (next_mt->state != MEMTABLE_STATE_READY) {
            return STATUS_BUSY;
         }
""")],
"p02-meta-tail-dirty": [("src/mini_allocator.c", """      mini->meta_tail = new_meta_tail;
      mini_full_unlock_meta_page(mini, last_meta_page);
""", """      mini->meta_tail = new_meta_tail;
      cache_unlock(mini->cc, last_meta_page);
      cache_unclaim(mini->cc, last_meta_page);
      cache_unget(mini->cc, last_meta_page);
""")],
"p03-lookup-descend": [("src/trunk.c", """      trunk_node child;
      trunk_node_get(spl->cc, pdata->addr, &child);
      trunk_node_unget(spl->cc, &node);
      node = child;
   }

   // look in leaf
   trunk_pivot_data *pdata = trunk_get_pivot_data(spl, &node, 0);
   bool32            should_continue =
      trunk_pivot_lookup(spl""", """      // do not hold the parent while waiting for the child
      trunk_node_unget(spl->cc, &node);
      trunk_node_get(spl->cc, pdata->addr, &node);
   }

   // look in leaf
   trunk_pivot_data *pdata = trunk_get_pivot_data(spl, &node, 0);
   bool32            should_continue =
      trunk_pivot_lookup(spl""")],
"p07-lookup-root-first": [("src/trunk.c", """   merge_accumulator_set_to_null(result);

   memtable_begin_lookup(spl->mt_ctxt);
   bool32 found_in_memtable = FALSE;""", """   merge_accumulator_set_to_null(result);

   // pin down the root together with the memtable generations
   trunk_node node;
   platform_batch_rwlock_get(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
   memtable_begin_lookup(spl->mt_ctxt);
   trunk_node_get(spl->cc, spl->root_addr, &node);
   platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
   bool32 found_in_memtable = FALSE;"""), ("src/trunk.c", """         found_in_memtable = TRUE;
         goto found_final_answer_early;
      }
   }

   trunk_node node;
   trunk_root_get(spl, &node);

   // release memtable lookup lock
   memtable_end_lookup(spl->mt_ctxt);

   // look in index nodes
   uint16 height = trunk_node_height(&node);
   for (uint16 h = height; h > 0; h--) {
      uint16 pivot_no =
         trunk_find_pivot(spl, &node, target, less_than_or_equal);
      debug_assert(pivot_no < trunk_num_children(spl, &node));
      trunk_pivot_data *pdata = trunk_get_pivot_data(spl, &node, pivot_no);
      bool32            should_continue =
         trunk_pivot_lookup(spl, &node, pdata, target, result);
      if (!should_continue) {
         goto found_final_answer_early;
      }
      trunk_node child;""", """         found_in_memtable = TRUE;
         goto found_final_answer_early;
      }
   }

   // release memtable lookup lock
   memtable_end_lookup(spl->mt_ctxt);

   // look in index nodes
   uint16 height = trunk_node_height(&node);
   for (uint16 h = height; h > 0; h--) {
      uint16 pivot_no =
         trunk_find_pivot(spl, &node, target, less_than_or_equal);
      debug_assert(pivot_no < trunk_num_children(spl, &node));
      trunk_pivot_data *pdata = trunk_get_pivot_data(spl, &node, pivot_no);
      bool32            should_continue =
         trunk_pivot_lookup(spl, &node, pdata, target, result);
      if (!should_continue) {
         goto found_final_answer_early;
      }
      trunk_node child;"""), ("src/trunk.c", """      memtable_end_lookup(spl->mt_ctxt);
   } else {
      trunk_node_unget(spl->cc, &node);
   }
   if (spl->cfg.use_stats) {
      threadid tid = platform_get_tid();
      if (!merge_accumulator_is_null(result)) {
         spl->stats[tid].lookups_found++;""", """      memtable_end_lookup(spl->mt_ctxt);
   }
   trunk_node_unget(spl->cc, &node);
   if (spl->cfg.use_stats) {
      threadid tid = platform_get_tid();
      if (!merge_accumulator_is_null(result)) {
         spl->stats[tid].lookups_found++;""")],

"p05-range-keys": [("src/trunk.c", """   if (!range_itor->can_next) {
      KEY_CREATE_LOCAL_COPY(rc,
                            min_key,
                            range_itor->spl->heap_id,
                            key_buffer_key(&range_itor->min_key));
      if (!SUCCESS(rc)) {
         return rc;
      }
      KEY_CREATE_LOCAL_COPY(rc,
                            max_key,
                            range_itor->spl->heap_id,
                            key_buffer_key(&range_itor->max_key));
      if (!SUCCESS(rc)) {
         return rc;
      }
      KEY_CREATE_LOCAL_COPY(rc,
                            local_max_key,
                            range_itor->spl->heap_id,
                            key_buffer_key(&range_itor->local_max_key));
      if (!SUCCESS(rc)) {
         return rc;
      }
""", """   if (!range_itor->can_next) {
      key min_key       = key_buffer_key(&range_itor->min_key);
      key max_key       = key_buffer_key(&range_itor->max_key);
      key local_max_key = key_buffer_key(&range_itor->local_max_key);
""")],
"p13-cache-init-unwind": [("src/clockcache.c", """   return STATUS_OK;

alloc_error:
   clockcache_deinit(cc);
   return STATUS_NO_MEMORY;""", """   return STATUS_OK;

alloc_error:
   // only some of the parts exist: take down what was set up so far
   if (cc->lookup) {
      platform_free(cc->heap_id, cc->lookup);
   }
   if (cc->entry) {
      platform_free(cc->heap_id, cc->entry);
   }
   if (cc->data) {
      platform_buffer_deinit(&cc->bh);
      cc->data = NULL;
   }
   return STATUS_NO_MEMORY;""")],
"p09-discard-race": [("src/mini_allocator.c", """   allocator *al  = cache_get_allocator(cc);
   uint8      ref = allocator_dec_ref(al, base_addr, type);
   if (ref == AL_NO_REFS) {
      cache_extent_discard(cc, base_addr, type);
      ref = allocator_dec_ref(al, base_addr, type);
      platform_assert(ref == AL_FREE);
      return TRUE;
   }
   return FALSE;""", """   allocator *al = cache_get_allocator(cc);
   if (allocator_get_refcount(al, base_addr) == AL_ONE_REF) {
      // nobody else has it: drop its pages first
      cache_extent_discard(cc, base_addr, type);
   }
   uint8 ref = allocator_dec_ref(al, base_addr, type);
   if (ref == AL_NO_REFS) {
      ref = allocator_dec_ref(al, base_addr, type);
      platform_assert(ref == AL_FREE);
      return TRUE;
   }
   return FALSE;""")],
"p10-ready-early": [("src/memtable.c", """      memtable_lock_incorporation_lock(ctxt);
      mt->generation += ctxt->cfg.max_memtables;
      memtable_unlock_incorporation_lock(ctxt);
      memtable_transition(
         mt, MEMTABLE_STATE_INCORPORATED, MEMTABLE_STATE_READY);
""", """      memtable_transition(
         mt, MEMTABLE_STATE_INCORPORATED, MEMTABLE_STATE_READY);
      memtable_lock_incorporation_lock(ctxt);
      mt->generation += ctxt->cfg.max_memtables;
      memtable_unlock_incorporation_lock(ctxt);
""")],
"p10-publish-early": [("src/trunk.c", """   btree_pack_req_deinit(&req, spl->heap_id);
   cmt->req->fp_arr = dup_fp_arr;
   if (spl->cfg.use_stats) {
      uint64 comp_time""", """   if (!spl->cfg.use_stats) {
      memtable_transition(
         mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);
   }
   btree_pack_req_deinit(&req, spl->heap_id);
   cmt->req->fp_arr = dup_fp_arr;
   if (spl->cfg.use_stats) {
      uint64 comp_time"""), ("src/trunk.c", """      cmt->wait_start = platform_get_timestamp();
   }

   memtable_transition(mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);
   return mt;""", """      cmt->wait_start = platform_get_timestamp();
      memtable_transition(
         mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);
   }
   return mt;""")],
"p11-mark-with-log": [("src/trunk.c", """      spl->log = log_create(cc, spl->cfg.log_cfg, spl->heap_id);
   }

   trunk_set_super_block(spl, FALSE, FALSE, FALSE);
""", """      spl->log = log_create(cc, spl->cfg.log_cfg, spl->heap_id);
      // the new log must be found from the super block
      trunk_set_super_block(spl, FALSE, FALSE, FALSE);
   }
""")],
"p12-summed-prefix": [("src/trunk.c", """      platform_checksum128(super,
                           sizeof(trunk_super_block) - sizeof(checksum128),
                           TRUNK_SUPER_CSUM_SEED);""", """      platform_checksum128(super,
                           offsetof(trunk_super_block, timestamp),
                           TRUNK_SUPER_CSUM_SEED);"""), ("src/trunk.c", """                               sizeof(trunk_super_block) - sizeof(checksum128),
                               TRUNK_SUPER_CSUM_SEED)))""", """                               offsetof(trunk_super_block, timestamp),
                               TRUNK_SUPER_CSUM_SEED)))""")],
}
