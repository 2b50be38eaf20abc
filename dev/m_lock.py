MT='src/memtable.c'; T='src/trunk.c'; K='src/task.c'; A='src/rc_allocator.c'; S='src/srq.h'; H='src/platform_linux/shmem.c'
LK=('lock-leak','lock-unheld','lock-double')
M=[
("rotate-busy-no-end-insert","lock",LK,[(MT,'''            memtable_end_insert(ctxt);
            return STATUS_BUSY;''','''            return STATUS_BUSY;''')]),
("rotate-claimfail-no-end","lock",LK,[(MT,'''         } else {
            memtable_end_insert(ctxt);
            platform_sleep_ns(wait);''','''         } else {
            platform_sleep_ns(wait);''')]),
("process-before-end","lock",None,[(MT,'''            memtable_end_insert_rotation(ctxt);
            memtable_end_insert(ctxt);
            memtable_process(ctxt, current_generation);''','''            memtable_process(ctxt, current_generation);
            memtable_end_insert_rotation(ctxt);
            memtable_end_insert(ctxt);''')]),
("insert-fail-no-unlock","lock",LK,[(T,'''      spl->mt_ctxt, mt, spl->heap_id, tuple_key, msg, &leaf_generation);
   if (!SUCCESS(rc)) {
      goto unlock_insert_lock;''','''      spl->mt_ctxt, mt, spl->heap_id, tuple_key, msg, &leaf_generation);
   if (!SUCCESS(rc)) {
      goto out;''')]),
("log-after-unlock","lock","guarded-by",[(T,'''   if (!SUCCESS(rc)) {
      goto unlock_insert_lock;
   }

   if (spl->cfg.use_log) {''','''   if (!SUCCESS(rc)) {
      goto unlock_insert_lock;
   }
   if (spl->cfg.use_log) {
      memtable_end_insert(spl->mt_ctxt);
      log_write(spl->log, tuple_key, msg, leaf_generation);
      return rc;
   }

   if (spl->cfg.use_log) {''')]),
("srq-update-no-lock","lock",("guarded-by",),[(S,'''srq_update(srq *queue, int64 idx, uint32 new_priority)
{
   platform_mutex_lock(&queue->mutex);''','''srq_update(srq *queue, int64 idx, uint32 new_priority)
{'''),(S,'''   srq_rebalance_down(queue, pos);
   platform_mutex_unlock(&queue->mutex);
   debug_assert(srq_verify(queue));
}''','''   srq_rebalance_down(queue, pos);
   debug_assert(srq_verify(queue));
}''')]),
("srq-unlock-early","lock","guarded-by",[(S,'''   queue->index[idx] = SRQ_INDEX_AVAILABLE;
   platform_mutex_unlock(&queue->mutex);
   debug_assert(srq_verify(queue));
   return deleted_data;''','''   platform_mutex_unlock(&queue->mutex);
   queue->index[idx] = SRQ_INDEX_AVAILABLE;
   debug_assert(srq_verify(queue));
   return deleted_data;''')]),
("srq-leak","lock",LK,[(S,'''      platform_mutex_unlock(&queue->mutex);
      return not_found_data;''','''      return not_found_data;''')]),
("retire-before-block","lock","guarded-by",[(T,'''   memtable_block_lookups(spl->mt_ctxt);
   memtable *mt = trunk_get_memtable(spl, generation);
   // Normally''','''   memtable *mt = trunk_get_memtable(spl, generation);
   // Normally'''),(T,'''   memtable_increment_to_generation_retired(spl->mt_ctxt, generation);

   // Switch''','''   memtable_increment_to_generation_retired(spl->mt_ctxt, generation);
   memtable_block_lookups(spl->mt_ctxt);

   // Switch''')]),
("root-lock-before-block","lock",("lock-order","lock-double","lock-unheld"),[(T,'''   memtable_block_lookups(spl->mt_ctxt);
   memtable *mt''','''   trunk_root_lock(spl);
   memtable_block_lookups(spl->mt_ctxt);
   memtable *mt'''),(T,'''   trunk_update_claimed_root_and_unlock(spl, &new_root);
   memtable_unblock_lookups(spl->mt_ctxt);''','''   spl->root_addr = new_root.addr;
   trunk_root_unlock(spl);
   trunk_root_full_unclaim(spl);
   trunk_node_unlock(spl->cc, &new_root);
   trunk_node_unclaim(spl->cc, &new_root);
   trunk_node_unget(spl->cc, &new_root);
   memtable_unblock_lookups(spl->mt_ctxt);''')]),
("alloc-super-unlock","lock",("guarded-by","lock-leak","lock-unheld"),[(A,'''   platform_mutex_lock(&al->lock);
   for (uint8 idx = 0; idx < RC_ALLOCATOR_MAX_ROOT_IDS; idx++) {
      if (al->meta_page->splinters[idx] == INVALID_ALLOCATOR_ROOT_ID) {''','''   for (uint8 idx = 0; idx < RC_ALLOCATOR_MAX_ROOT_IDS; idx++) {
      if (al->meta_page->splinters[idx] == INVALID_ALLOCATOR_ROOT_ID) {
         platform_mutex_lock(&al->lock);'''),]),
("remove-super-leak","lock","lock-leak",[(A,'''         platform_assert_status_ok(status);
         platform_mutex_unlock(&al->lock);
         return;''','''         platform_assert_status_ok(status);
         return;''')]),
("worker-run-locked","lock",("lock-double","lock-order","lock-unheld","lock-leak"),[(K,'''         task_group_unlock(group);
         const threadid tid = platform_get_tid();
         group->stats[tid].total_bg_task_executions++;
         task_group_run_task(group, task_to_run);''','''         const threadid tid = platform_get_tid();
         group->stats[tid].total_bg_task_executions++;
         task_group_run_task(group, task_to_run);
         task_group_unlock(group);''')]),
("range-iter-root-nolock","lock","guarded-by",[(T,'''   trunk_root_get(spl, &node);
   memtable_end_lookup(spl->mt_ctxt);

   // index btrees''','''   trunk_node_get(spl->cc, spl->root_addr, &node);
   memtable_end_lookup(spl->mt_ctxt);

   // index btrees''')]),
("lookup-end-early","lock","guarded-by",[(T,'''   for (uint64 mt_gen = mt_gen_start; mt_gen != mt_gen_end; mt_gen--) {
      platform_status rc;
      rc = trunk_memtable_lookup''','''   memtable_end_lookup(spl->mt_ctxt);
   for (uint64 mt_gen = mt_gen_start; mt_gen != mt_gen_end; mt_gen--) {
      platform_status rc;
      rc = trunk_memtable_lookup'''),(T,'''   trunk_root_get(spl, &node);

   // release memtable lookup lock
   memtable_end_lookup(spl->mt_ctxt);''','''   trunk_root_get(spl, &node);
''')]),
("unblock-before-root-switch","lock","lock-atomic",[(T,'''   trunk_update_claimed_root_and_unlock(spl, &new_root);
   memtable_unblock_lookups(spl->mt_ctxt);''','''   memtable_unblock_lookups(spl->mt_ctxt);
   trunk_update_claimed_root_and_unlock(spl, &new_root);''')]),
("root-switch-before-block","lock","lock-atomic",[(T,'''   memtable_block_lookups(spl->mt_ctxt);
   memtable *mt = trunk_get_memtable(spl, generation);
   // Normally''','''   trunk_update_claimed_root_and_unlock(spl, &new_root);
   memtable_block_lookups(spl->mt_ctxt);
   memtable *mt = trunk_get_memtable(spl, generation);
   // Normally'''),(T,'''   trunk_update_claimed_root_and_unlock(spl, &new_root);
   memtable_unblock_lookups(spl->mt_ctxt);''','''   memtable_unblock_lookups(spl->mt_ctxt);''')]),
("benign-goto-to-nested","lock",None,[(T,'''   if (!SUCCESS(rc)) {
      goto unlock_insert_lock;
   }

   if (spl->cfg.use_log) {
      int crappy_rc''','''   if (SUCCESS(rc) && spl->cfg.use_log) {
      int crappy_rc''')]),
("benign-srq-helper","lock",None,[(S,'''srq_update(srq *queue, int64 idx, uint32 new_priority)
{
   platform_mutex_lock(&queue->mutex);
   int64 pos = queue->index[idx];
   platform_assert(pos != SRQ_INDEX_AVAILABLE);
   queue->heap[pos].priority = new_priority;
   srq_rebalance_up(queue, pos);
   srq_rebalance_down(queue, pos);
   platform_mutex_unlock(&queue->mutex);''','''srq_update_locked(srq *queue, int64 idx, uint32 new_priority)
{
   int64 pos = queue->index[idx];
   platform_assert(pos != SRQ_INDEX_AVAILABLE);
   queue->heap[pos].priority = new_priority;
   srq_rebalance_up(queue, pos);
   srq_rebalance_down(queue, pos);
}
static inline void
srq_update(srq *queue, int64 idx, uint32 new_priority)
{
   platform_mutex_lock(&queue->mutex);
   srq_update_locked(queue, idx, new_priority);
   platform_mutex_unlock(&queue->mutex);''')]),
]
