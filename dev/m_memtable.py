T="src/trunk.c"; MT="src/memtable.c"; H="src/memtable.h"
M=[
("insert-not-ready","memtable","memtable-transition",[(MT,"""      if (current_mt->state != MEMTABLE_STATE_READY) {
         // The""","""      if (wait < 100) {
         // The""")]),
("insert-not-final","memtable","memtable-transition",[(MT,"""      if (current_mt->state != MEMTABLE_STATE_READY) {
         // The""","""      if (current_mt->state == MEMTABLE_STATE_FINALIZED) {
         // The""")]),
("ref-insert-ready","memtable",None,[(MT,"""      if (current_mt->state != MEMTABLE_STATE_READY) {
         // The""","""      memtable_state st = current_mt->state;
      bool32 ready = st == MEMTABLE_STATE_READY;
      if (!ready) {
         // The""")]),

("skip-incorporating","memtable","memtable-transition",[(T,"""   memtable_transition(
      mt, MEMTABLE_STATE_INCORPORATION_ASSIGNED, MEMTABLE_STATE_INCORPORATING);
   memtable_transition(
      mt, MEMTABLE_STATE_INCORPORATING, MEMTABLE_STATE_INCORPORATED);""","""   memtable_transition(
      mt, MEMTABLE_STATE_INCORPORATION_ASSIGNED, MEMTABLE_STATE_INCORPORATED);""")]),
("ready-first","memtable","memtable-recycle",[(MT,"""      mt->root_addr = btree_create(cc, mt->cfg, &mt->mini, PAGE_TYPE_MEMTABLE);
      memtable_lock_incorporation_lock(ctxt);
      mt->generation += ctxt->cfg.max_memtables;
      memtable_unlock_incorporation_lock(ctxt);
      memtable_transition(
         mt, MEMTABLE_STATE_INCORPORATED, MEMTABLE_STATE_READY);""","""      mt->root_addr = btree_create(cc, mt->cfg, &mt->mini, PAGE_TYPE_MEMTABLE);
      memtable_transition(
         mt, MEMTABLE_STATE_INCORPORATED, MEMTABLE_STATE_READY);
      memtable_lock_incorporation_lock(ctxt);
      mt->generation += ctxt->cfg.max_memtables;
      memtable_unlock_incorporation_lock(ctxt);""")]),
("publish-early","memtable","memtable-publish",[(T,"""   btree_pack_req_deinit(&req, spl->heap_id);
   cmt->req->fp_arr = dup_fp_arr;""","""   memtable_transition(mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);
   btree_pack_req_deinit(&req, spl->heap_id);
   cmt->req->fp_arr = dup_fp_arr;"""),(T,"""      cmt->wait_start = platform_get_timestamp();
   }

   memtable_transition(mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);
   return mt;""","""      cmt->wait_start = platform_get_timestamp();
   }

   return mt;""")]),
("publish-before-filter","memtable","memtable-publish",[(T,"""   new_branch->root_addr = req.root_addr;

   platform_assert(req.num_tuples > 0);
   uint64 filter_build_start;""","""   new_branch->root_addr = req.root_addr;
   memtable_transition(mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);

   platform_assert(req.num_tuples > 0);
   uint64 filter_build_start;"""),(T,"""      cmt->wait_start = platform_get_timestamp();
   }

   memtable_transition(mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);
   return mt;""","""      cmt->wait_start = platform_get_timestamp();
   }

   return mt;""")]),
("no-process","memtable","memtable-hand-over",[(MT,"""            memtable_end_insert(ctxt);
            memtable_process(ctxt, current_generation);""","""            memtable_end_insert(ctxt);
            if (ctxt->generation == current_generation + 1) {
               memtable_process(ctxt, current_generation);
            }""")]),
("shutdown-no-flush","memtable","memtable-hand-over",[(T,"""      uint64 generation = memtable_force_finalize(spl->mt_ctxt);
      trunk_memtable_flush(spl, generation);
   }

   // finish any outstanding tasks and destroy""","""      uint64 generation = memtable_force_finalize(spl->mt_ctxt);
      if (generation != 0) {
         trunk_memtable_flush(spl, generation);
      }
   }

   // finish any outstanding tasks and destroy""")]),
("assigned-dropped","memtable","memtable-retire",[(T,"""   do {
      trunk_memtable_incorporate_and_flush(spl, generation, tid);
      generation++;
   } while (trunk_try_continue_incorporate(spl, generation));""","""   trunk_memtable_incorporate_and_flush(spl, generation, tid);
   generation++;
   if (trunk_try_continue_incorporate(spl, generation)
       && trunk_try_get_memtable(spl, generation + 1) == NULL) {
      trunk_memtable_incorporate_and_flush(spl, generation, tid);
   }""")]),
("recycle-unconditional","memtable","memtable-recycle",[(MT,"   if (freed) {\n      platform_assert(mt->state == MEMTABLE_STATE_INCORPORATED);","   if (freed || mt->state == MEMTABLE_STATE_INCORPORATED) {")]),
("recycle-early","memtable","memtable-retire",[(T,"""   memtable_increment_to_generation_retired(spl->mt_ctxt, generation);

   // Switch in the new root and release all locks
   trunk_update_claimed_root_and_unlock""","""   memtable_increment_to_generation_retired(spl->mt_ctxt, generation);
   memtable_dec_ref_maybe_recycle(spl->mt_ctxt, mt);

   // Switch in the new root and release all locks
   trunk_update_claimed_root_and_unlock"""),(T,"""    * references
    */
   memtable_dec_ref_maybe_recycle(spl->mt_ctxt, mt);

   if (spl""","""    * references
    */

   if (spl""")]),
("no-dec-ref","memtable","memtable-retire",[(T,"""    * references
    */
   memtable_dec_ref_maybe_recycle(spl->mt_ctxt, mt);

   if (spl""","""    * references
    */
   if (mt->generation == generation && !memtable_is_empty(spl->mt_ctxt)) {
      memtable_dec_ref_maybe_recycle(spl->mt_ctxt, mt);
   }

   if (spl""")]),
("plain-store","memtable","memtable-transition",[(T,"   memtable_transition(mt, MEMTABLE_STATE_COMPACTING, MEMTABLE_STATE_COMPACTED);\n   return mt;","   mt->state = MEMTABLE_STATE_COMPACTED;\n   return mt;")]),
("ref-helper","memtable",None,[(MT,"""      mt->root_addr = btree_create(cc, mt->cfg, &mt->mini, PAGE_TYPE_MEMTABLE);
      memtable_lock_incorporation_lock(ctxt);
      mt->generation += ctxt->cfg.max_memtables;
      memtable_unlock_incorporation_lock(ctxt);
      memtable_transition(
         mt, MEMTABLE_STATE_INCORPORATED, MEMTABLE_STATE_READY);
   }
   return freed;""","""      memtable_reset(ctxt, mt);
   }
   return freed;"""),(MT,"""bool32
memtable_dec_ref_maybe_recycle(memtable_context *ctxt, memtable *mt)
{""","""static void
memtable_reset(memtable_context *ctxt, memtable *mt)
{
      memtable_lock_incorporation_lock(ctxt);
      mt->generation = mt->generation + ctxt->cfg.max_memtables;
      memtable_unlock_incorporation_lock(ctxt);
      mt->root_addr = btree_create(ctxt->cc, mt->cfg, &mt->mini, PAGE_TYPE_MEMTABLE);
      memtable_transition(
         mt, MEMTABLE_STATE_INCORPORATED, MEMTABLE_STATE_READY);
}
bool32
memtable_dec_ref_maybe_recycle(memtable_context *ctxt, memtable *mt)
{""")]),
("ref-rotate","memtable",None,[(MT,"""            memtable_transition(
               current_mt, MEMTABLE_STATE_READY, MEMTABLE_STATE_FINALIZED);

            // Safe to increment non-atomically because we have a lock on
            // the insert lock
            ctxt->generation++;""","""            // Safe to increment non-atomically because we have a lock on
            // the insert lock
            memtable_finalize_current(ctxt, current_mt);"""),(MT,"""platform_status
memtable_maybe_rotate_and_begin_insert(""","""static uint64
memtable_finalize_current(memtable_context *ctxt, memtable *mt)
{
   memtable_transition(mt, MEMTABLE_STATE_READY, MEMTABLE_STATE_FINALIZED);
   uint64 g = ctxt->generation;
   ctxt->generation = g + 1;
   return g;
}
platform_status
memtable_maybe_rotate_and_begin_insert(""")]),
("ref-loop","memtable",None,[(T,"""   do {
      trunk_memtable_incorporate_and_flush(spl, generation, tid);
      generation++;
   } while (trunk_try_continue_incorporate(spl, generation));""","""   while (TRUE) {
      trunk_memtable_incorporate_and_flush(spl, generation, tid);
      generation++;
      bool32 more = trunk_try_continue_incorporate(spl, generation);
      if (!more) {
         break;
      }
   }""")]),
("ref-compact-split","memtable",None,[(T,"""   // pack and build filter.
   trunk_memtable_compact_and_build_filter(spl, generation, tid);

   // If we are assigned to do so, incorporate the memtable onto the root node.
   if (!trunk_try_start_incorporate(spl, generation)) {
      goto out;
   }""","""   // pack and build filter.
   memtable *cm = trunk_memtable_compact_and_build_filter(spl, generation, tid);
   platform_assert(cm != NULL);

   // If we are assigned to do so, incorporate the memtable onto the root node.
   bool32 assigned = trunk_try_start_incorporate(spl, generation);
   if (!assigned) {
      return;
   }""")]),
]
