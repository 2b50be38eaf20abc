T="src/trunk.c"; R="src/rc_allocator.c"; S="src/splinterdb.c"; L="src/shard_log.c"
SB="""   super->timestamp    = platform_get_real_time();
   super->checkpointed = is_checkpoint;
   super->unmounted    = is_unmount;
   super->checksum =
      platform_checksum128(super,
                           sizeof(trunk_super_block) - sizeof(checksum128),
                           TRUNK_SUPER_CSUM_SEED);
"""
PERSIST="""   platform_status rc = allocator_persist(spl->al);
   platform_assert_status_ok(rc);
   trunk_set_super_block(spl, FALSE, TRUE, FALSE);
"""
FLUSH="""   // flush all dirty pages in the cache
   cache_flush(spl->cc);
}"""
QUI="""   platform_status rc = task_perform_until_quiescent(spl->ts);
   platform_assert_status_ok(rc);

   // destroy memtable context (and its memtables)
   memtable_context_destroy(spl->heap_id, spl->mt_ctxt);
"""
ADOPT="""      if (super->unmounted && super->timestamp > latest_timestamp) {"""
ADOPTB="""         spl->root_addr    = super->root_addr;
         spl->next_node_id = super->next_node_id;
         meta_tail         = super->meta_tail;
         latest_timestamp  = super->timestamp;
      }
      trunk_release_super_block(spl, super_page);
   }"""
MSET="""   if (spl->cfg.use_log) {
      spl->log = log_create(cc, spl->cfg.log_cfg, spl->heap_id);
   }

   trunk_set_super_block(spl, FALSE, FALSE, FALSE);
"""
MEMT="""   if (!memtable_is_empty(spl->mt_ctxt)) {
      /*"""
ALM="""         // assign the first available slot and update the on disk metadata.
         al->meta_page->splinters[idx] = allocator_root_id;
         *addr                         = (1 + idx) * al->cfg->io_cfg->page_size;
         al->meta_page->checksum =
            platform_checksum128(al->meta_page,
                                 sizeof(al->meta_page->splinters),
                                 RC_ALLOCATOR_META_PAGE_CSUM_SEED);
"""
RMW="""         platform_status status = io_write(al->io,
                                           al->meta_page,
                                           al->cfg->io_cfg->page_size,
                                           RC_ALLOCATOR_BASE_OFFSET);
         platform_assert_status_ok(status);
"""
VER="""   if (!platform_checksum_is_equal(al->meta_page->checksum, currChecksum)) {
      platform_assert(0, "Corrupt Meta Page upon mount");
   }
"""
GET="""      cache_unget(spl->cc, *super_page);
      *super_page = NULL;
      return NULL;
   }

   return super;"""
LW="""      if (sizeof(log_entry) <= free_space) {
         cursor->generation = INVALID_GENERATION;
      }
      hdr->checksum = shard_log_checksum(log->cfg, page);
"""
CLOSE="""   trunk_unmount(&kvs->spl);
   clockcache_deinit(&kvs->cache_handle);
   rc_allocator_unmount(&kvs->allocator_handle);"""
SETSIG="""trunk_set_super_block(trunk_handle *spl,
                      bool32        is_checkpoint,
                      bool32        is_unmount,
                      bool32        is_create)
{"""
M=[
("no-flush","close","close-order",[(T,FLUSH,"}")]),
("flush-cond","close","close-order",[(T,FLUSH,"   if (spl->cfg.use_stats == FALSE) {\n      cache_flush(spl->cc);\n   }\n}")]),
("flush-early","close","close-order",[(T,FLUSH,"}"),(T,QUI,"   cache_flush(spl->cc);\n"+QUI)]),
("flush-before-mini-release","close","close-order",[(T,FLUSH,"}"),(T,"""   // release the trunk mini allocator
   mini_release(&spl->mini, NULL_KEY);
""","""   cache_flush(spl->cc);
   mini_release(&spl->mini, NULL_KEY);
""")]),
("persist-late","close","close-order",[(T,PERSIST,"""   trunk_set_super_block(spl, FALSE, TRUE, FALSE);
   platform_status rc = allocator_persist(spl->al);
   platform_assert_status_ok(rc);
""")]),
("persist-early","close","close-order",[(T,"""   trunk_prepare_for_shutdown(spl);
   // The next""","""   platform_status prc = allocator_persist(spl->al);
   platform_assert_status_ok(prc);
   trunk_prepare_for_shutdown(spl);
   // The next"""),(T,PERSIST,"   trunk_set_super_block(spl, FALSE, TRUE, FALSE);\n")]),
("no-quiesce","close","close-order",[(T,QUI,QUI.split("\n\n",1)[1])]),
("quiesce-first","close","close-order",[(T,QUI,QUI.split("\n\n",1)[1]),(T,MEMT,"   platform_status rc = task_perform_until_quiescent(spl->ts);\n   platform_assert_status_ok(rc);\n"+MEMT)]),
("quiesce-cond","close","close-order",[(T,QUI,QUI.replace("platform_status rc = task_perform_until_quiescent(spl->ts);","platform_status rc = STATUS_OK;\n   if (spl->cfg.use_log) rc = task_perform_until_quiescent(spl->ts);"))]),
("memtable-inverted","close","close-order",[(T,MEMT,MEMT.replace("!memtable","memtable"))]),
("mount-no-mark","close","open-untrusted",[(T,MSET,MSET.split("\n\n")[0]+"\n")]),
("mount-mark-log","close","open-untrusted",[(T,MSET,MSET.replace("   }\n\n   trunk_set_super_block(spl, FALSE, FALSE, FALSE);","      trunk_set_super_block(spl, FALSE, FALSE, FALSE);\n   }"))]),
("mount-mark-true","close",("open-untrusted","close-order"),[(T,MSET,MSET.replace("FALSE, FALSE, FALSE","FALSE, TRUE, FALSE"))]),
("mount-any","close","open-untrusted",[(T,ADOPT,"      if (super->timestamp > latest_timestamp) {")]),
("mount-checkpointed","close","open-untrusted",[(T,ADOPT,"      if ((super->unmounted || super->checkpointed)\n          && super->timestamp > latest_timestamp) {")]),
("get-unverified","close","open-untrusted",[(T,GET,GET.replace("      cache_unget(spl->cc, *super_page);\n      *super_page = NULL;\n      return NULL;","      platform_error_log(\"bad super block\\n\");"))]),
("sync-async","close",("metadata-durable","close-order"),[(T,"cache_page_sync(spl->cc, super_page, TRUE, PAGE_TYPE_SUPERBLOCK)","cache_page_sync(spl->cc, super_page, is_create, PAGE_TYPE_SUPERBLOCK)")]),
("sync-before","close","metadata-durable",[(T,"   super               = (trunk_super_block *)super_page->data;\n","   cache_page_sync(spl->cc, super_page, TRUE, PAGE_TYPE_SUPERBLOCK);\n   super               = (trunk_super_block *)super_page->data;\n"),(T,"   cache_page_sync(spl->cc, super_page, TRUE, PAGE_TYPE_SUPERBLOCK);\n}","}")]),
("unmount-no-mark","close","close-order",[(T,PERSIST,PERSIST.replace("FALSE, TRUE, FALSE","TRUE, FALSE, FALSE"))]),
("deinit-first","close","close-order",[(S,CLOSE,"""   clockcache_deinit(&kvs->cache_handle);
   trunk_unmount(&kvs->spl);
   rc_allocator_unmount(&kvs->allocator_handle);""")]),
("sum-early","close","checksum-stale",[(T,SB,SB.split("   super->checksum =")[0].replace("   super->unmounted    = is_unmount;\n","")+"   super->checksum ="+SB.split("   super->checksum =")[1]+"   super->unmounted    = is_unmount;\n")]),
("sum-log-late","close","checksum-stale",[(T,"         super->log_addr      = 0;\n         super->log_meta_addr = 0;\n      }\n   }\n","      }\n   }\n"),(T,SB,SB+"   if (spl->cfg.use_log && !spl->log) {\n      super->log_addr = 0;\n      super->log_meta_addr = 0;\n   }\n")]),
("sum-short","close",("checksum-coverage","checksum-agreement"),[(T,SB,SB.replace("sizeof(trunk_super_block) - sizeof(checksum128)","offsetof(trunk_super_block, unmounted)"))]),
("sum-both-short","close","checksum-coverage",[(T,SB,SB.replace("sizeof(trunk_super_block) - sizeof(checksum128)","offsetof(trunk_super_block, timestamp)")),(T,"""                               sizeof(trunk_super_block) - sizeof(checksum128),
                               TRUNK_SUPER_CSUM_SEED)))""","""                               offsetof(trunk_super_block, timestamp),
                               TRUNK_SUPER_CSUM_SEED)))""")]),
("meta-stale","close","checksum-stale",[(R,ALM,ALM.replace("         al->meta_page->splinters[idx] = allocator_root_id;\n","").rstrip()+"\n         al->meta_page->splinters[idx] = allocator_root_id;\n")]),
("meta-seed","close","checksum-agreement",[(R,ALM,ALM.replace("RC_ALLOCATOR_META_PAGE_CSUM_SEED","0"))]),
("meta-size","close",("checksum-coverage","checksum-agreement"),[(R,ALM,ALM.replace("sizeof(al->meta_page->splinters)","sizeof(al->meta_page->splinters[0])"))]),
("meta-not-written","close","metadata-durable",[(R,RMW,"")]),
("meta-written-first","close",("checksum-stale","metadata-durable"),[(R,RMW,""),(R,"""         al->meta_page->splinters[idx] = INVALID_ALLOCATOR_ROOT_ID;
""","""         al->meta_page->splinters[idx] = INVALID_ALLOCATOR_ROOT_ID;
"""+RMW)]),
("mount-unverified","close","open-untrusted",[(R,VER,VER.replace("platform_assert(0, ","platform_error_log("))]),
("mount-verify-cond","close","open-untrusted",[(R,VER,VER.replace("currChecksum)) {","currChecksum)\n       && al->meta_page->splinters[0] != 0) {"))]),
("log-late","close","checksum-stale",[(L,LW,LW.split("      hdr->check")[1].join(["      hdr->check",""])+LW.split("      hdr->check")[0])]),
("log-no-sum","close","checksum-stale",[(L,LW,LW.split("      hdr->check")[0])]),
("log-second-pass","close","log-untrusted",[(L,"""         if (!shard_log_valid(cfg, page, magic)) {
            cache_unget(cc, page);
            goto finished_second_pass;
         }
""","")]),
("log-magic-only","close","log-untrusted",[(L,"""   return hdr->magic == magic
          && platform_checksum""","""   return hdr->magic == magic
          || platform_checksum""")]),
# behaviour kept
("ref-adopt","close",None,[(T,"      if (super->unmounted && super->timestamp > latest_timestamp) {\n"+ADOPTB,"""      if (super->unmounted && super->timestamp > latest_timestamp) {
         trunk_adopt_super_block(spl, super, &meta_tail, &latest_timestamp);
      }
      trunk_release_super_block(spl, super_page);
   }"""),(T,"trunk_handle *\ntrunk_mount(","""static void
trunk_adopt_super_block(trunk_handle *spl, trunk_super_block *super, uint64 *meta_tail, uint64 *latest)
{
   spl->root_addr    = super->root_addr;
   spl->next_node_id = super->next_node_id;
   *meta_tail        = super->meta_tail;
   *latest           = super->timestamp;
}
trunk_handle *
trunk_mount(""")]),
("ref-nested","close",None,[(T,ADOPT,"      bool32 clean = super->unmounted;\n      if (!clean) {\n         latest_timestamp = 0;\n      } else if (super->timestamp > latest_timestamp) {")]),
("ref-sumfn","close",None,[(T,SB,SB.split("   super->checksum")[0]+"   checksum128 csum = trunk_super_checksum(super);\n   super->checksum = csum;\n"),(T,"""          super->checksum,
          platform_checksum128(super,
                               sizeof(trunk_super_block) - sizeof(checksum128),
                               TRUNK_SUPER_CSUM_SEED)))""","""          super->checksum, trunk_super_checksum(super)))"""),(T,"void\n"+SETSIG,"""static checksum128
trunk_super_checksum(trunk_super_block *super)
{
   return platform_checksum128(super,
                           sizeof(trunk_super_block) - sizeof(checksum128),
                           TRUNK_SUPER_CSUM_SEED);
}
void
"""+SETSIG)]),
("ref-stored-copy","close",None,[(T,"""   if (!platform_checksum_is_equal(
          super->checksum,
          platform_checksum128(super,
                               sizeof(trunk_super_block) - sizeof(checksum128),
                               TRUNK_SUPER_CSUM_SEED)))""","""   checksum128 stored = super->checksum;
   checksum128 actual = platform_checksum128(super,
                               sizeof(trunk_super_block) - sizeof(checksum128),
                               TRUNK_SUPER_CSUM_SEED);
   if (!platform_checksum_is_equal(stored, actual))""")]),
("ref-fill","close",None,[(T,"   super->root_addr    = spl->root_addr;\n   super->next_node_id = spl->next_node_id;\n   super->meta_tail    = mini_meta_tail(&spl->mini);\n","   trunk_fill_super_block(spl, super);\n"),(T,"void\n"+SETSIG,"""static void
trunk_fill_super_block(trunk_handle *spl, trunk_super_block *super)
{
   super->root_addr    = spl->root_addr;
   super->next_node_id = spl->next_node_id;
   super->meta_tail    = mini_meta_tail(&spl->mini);
}
void
"""+SETSIG)]),
("ref-flush-moved","close",None,[(T,FLUSH,"}"),(T,"   // The next mount trusts","   cache_flush(spl->cc);\n   // The next mount trusts")]),
("ref-persist-in-flush","close",None,[(T,PERSIST,"   trunk_mark_closed(spl);\n"),(T,"void\ntrunk_unmount(","""static void
trunk_mark_closed(trunk_handle *spl)
{
"""+PERSIST+"""}
void
trunk_unmount(""")]),
("ref-meta-write","close",None,[(R,RMW,"         rc_allocator_write_meta(al);\n"),(R,"void\nrc_allocator_remove_super_addr(rc_allocator     *al,","""static void
rc_allocator_write_meta(rc_allocator *al)
{
"""+RMW+"""}
void
rc_allocator_remove_super_addr(rc_allocator     *al,""")]),
("ref-verify","close",None,[(R,VER,"   if (!rc_allocator_meta_ok(al, currChecksum)) {\n      platform_assert(0, \"Corrupt Meta Page upon mount\");\n   }\n"),(R,"platform_status\nrc_allocator_mount(","""static bool32
rc_allocator_meta_ok(rc_allocator *al, checksum128 currChecksum)
{
   return platform_checksum_is_equal(al->meta_page->checksum, currChecksum);
}
platform_status
rc_allocator_mount(""")]),
("ref-close-helper","close",None,[(S,CLOSE,"   splinterdb_teardown(kvs);"),(S,"void\nsplinterdb_close(splinterdb **kvs_in)","static void\nsplinterdb_teardown(splinterdb *kvs)\n{\n"+CLOSE+"\n}\nvoid\nsplinterdb_close(splinterdb **kvs_in)")]),
("ref-prepare","close",None,[(T,MEMT,"   bool32 empty = memtable_is_empty(spl->mt_ctxt);\n   if (empty) {\n      platform_default_log(\"\");\n   } else {\n      /*")]),
("ref-log-valid","close",None,[(L,"""   return hdr->magic == magic
          && platform_checksum_is_equal(hdr->checksum,
                                        shard_log_checksum(cfg, page));""","""   if (hdr->magic != magic) {
      return FALSE;
   }
   checksum128 sum = shard_log_checksum(cfg, page);
   return platform_checksum_is_equal(sum, hdr->checksum);""")]),
]
