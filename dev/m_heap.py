S="src/splinterdb.c"
M = [
("open-skip-io","heap",("resource-leak","failed-init-leak"),[(S,"         platform_status_to_string(status));\n      goto deinit_iohandle;","         platform_status_to_string(status));\n      goto io_handle_init_failed;")]),
("open-skip-alloc","heap",("resource-leak","failed-init-leak"),[(S,"      goto deinit_allocator;","      goto deinit_system;")]),
("open-skip-cache","heap",("resource-leak","failed-init-leak"),[(S,"      goto deinit_cache;","      goto deinit_allocator;")]),
("open-heap-leak","heap",("resource-leak","failed-init-leak"),[(S,"         platform_free(use_this_heap_id, kvs);\n      }\n      platform_heap_destroy(&use_this_heap_id);","         platform_free(use_this_heap_id, kvs);\n      }")]),
("close-no-io","heap","teardown-incomplete",[(S,"   task_system_destroy(kvs->heap_id, &kvs->task_sys);\n   io_handle_deinit(&kvs->io_handle);\n\n","   task_system_destroy(kvs->heap_id, &kvs->task_sys);\n\n")]),
("close-no-task","heap",("teardown-incomplete","resource-leak"),[(S,"   task_system_destroy(kvs->heap_id, &kvs->task_sys);\n   io_handle_deinit(&kvs->io_handle);\n\n","   io_handle_deinit(&kvs->io_handle);\n\n")]),
("close-no-free","heap",("teardown-incomplete","resource-leak"),[(S,"   platform_free(kvs->heap_id, kvs);\n   if (we_cre","   if (we_cre")]),
("close-heap-early","heap",("use-after-release","null-pointer"),[(S,"   platform_free(kvs->heap_id, kvs);\n   if (we_created_heap) {","   platform_free(kvs->heap_id, kvs);\n   if (kvs->we_created_heap) {"),]),
("iter-free-wrong","heap",("release-mismatch","resource-leak"),[(S,"      platform_free(kvs->spl->heap_id, it);\n      return","      platform_free(kvs->spl->heap_id, *iter);\n      return")]),
("iter-no-free","heap","resource-leak",[(S,"      platform_free(kvs->spl->heap_id, it);\n      return","      return")]),
("iter-no-deinit","heap",("teardown-incomplete","resource-leak"),[(S,"   trunk_range_iterator_deinit(range_itor);\n\n   trunk_handle *spl","   trunk_handle *spl")]),
("iter-uaf","heap",("use-after-release","null-pointer"),[(S,"   trunk_range_iterator_deinit(range_itor);\n\n   trunk_handle *spl = range_itor->spl;\n   platform_free(spl->heap_id, range_itor);","   trunk_handle *spl = range_itor->spl;\n   platform_free(spl->heap_id, range_itor);\n   trunk_range_iterator_deinit(&iter->sri);")]),
("mount-meta-leak","heap",("failed-init-leak","resource-leak"),[("src/rc_allocator.c","      platform_free(al->heap_id, al->meta_page);\n      platform_mutex_destroy(&al->lock);\n      platform_error_log(\"Failed to create buffer to load ref counts\\n\");","      platform_mutex_destroy(&al->lock);\n      platform_error_log(\"Failed to create buffer to load ref counts\\n\");")]),
("mount-mutex-leak","heap",("failed-init-leak","resource-leak"),[("src/rc_allocator.c","      platform_free(al->heap_id, al->meta_page);\n      platform_mutex_destroy(&al->lock);\n      platform_error_log(\"Failed to create buffer to load ref counts\\n\");","      platform_free(al->heap_id, al->meta_page);\n      platform_error_log(\"Failed to create buffer to load ref counts\\n\");")]),
("cc-deinit-pin","heap","teardown-incomplete",[("src/clockcache.c","   if (cc->pincount) {\n      platform_free_volatile(cc->heap_id, cc->pincount);\n   }\n","")]),
("cc-deinit-data","heap","teardown-incomplete",[("src/clockcache.c","   if (cc->refcount) {\n      rc = platform_buffer_deinit(&cc->rc_bh);\n      debug_assert(SUCCESS(rc), \"rc=%s\", platform_status_to_string(rc));\n      cc->refcount = NULL;\n   }\n","")]),
("cc-init-noclean","heap",("failed-init-leak","resource-leak"),[("src/clockcache.c","alloc_error:\n   clockcache_deinit(cc);\n","alloc_error:\n")]),
("io-req-leak","heap","teardown-incomplete",[("src/platform_linux/laio.c","   platform_free(io->heap_id, io->req);\n","")]),
("io-fd-leak","heap",("failed-init-leak","resource-leak"),[("src/platform_linux/laio.c","         platform_error_log(\"fallocate failed: %s\\n\", strerror(errno));\n         close(io->fd);","         platform_error_log(\"fallocate failed: %s\\n\", strerror(errno));")]),
("mt-rwlock-leak","heap",("teardown-incomplete","resource-leak"),[("src/memtable.c","   platform_free(hid, ctxt->rwlock);\n\n","")]),
("task-leak","heap","resource-leak",[("src/task.c","   if (!SUCCESS(rc)) {\n      platform_free(hid, ts);\n      *system = NULL;\n      return rc;","   if (!SUCCESS(rc)) {\n      *system = NULL;\n      return rc;")]),
("group-cv-leak","heap",("failed-init-leak","resource-leak"),[("src/task.c","   debug_assert(!SUCCESS(rc));\n   platform_condvar_destroy(&group->cv);\n","   debug_assert(!SUCCESS(rc));\n")]),
("merge-leak","heap",("resource-leak","teardown-incomplete"),[("src/merge.c","   merge_accumulator_deinit(&(*merge_itor)->merge_buffer);\n   platform_free(PROCESS_PRIVATE_HEAP_ID, *merge_itor);","   platform_free(PROCESS_PRIVATE_HEAP_ID, *merge_itor);")]),
("merge-wrong-heap","heap","release-mismatch",[("src/merge.c","   merge_accumulator_deinit(&(*merge_itor)->merge_buffer);\n   platform_free(PROCESS_PRIVATE_HEAP_ID, *merge_itor);","   merge_accumulator_deinit(&(*merge_itor)->merge_buffer);\n   platform_free(hid, *merge_itor);")]),
("compact-req-uaf","heap","use-after-release",[("src/trunk.c","      key_buffer_deinit(&req->end_key);\n      platform_free(spl->heap_id, req);\n      if (spl->cfg.use_stats) {\n         spl->stats[tid].compactions_aborted_flushed[height]++;","      key_buffer_deinit(&req->end_key);\n      trunk_compact_bundle_req *old_req = req;\n      platform_free(spl->heap_id, req);\n      if (spl->cfg.use_stats) {\n         spl->stats[tid].compactions_aborted_flushed[old_req->height]++;")]),
("flush-req-keys","heap","resource-leak",[("src/trunk.c","         key_buffer_deinit(&req->start_key);\n         key_buffer_deinit(&req->end_key);\n         platform_free(spl->heap_id, req);\n         uint16 child_idx","         platform_free(spl->heap_id, req);\n         uint16 child_idx")]),
("range-init-leak","heap","failed-init-leak",[("src/trunk.c","      trunk_range_iterator_release_branches(range_itor);\n      return rc;","      return rc;")]),
("range-deinit-key","heap",("teardown-incomplete","resource-leak","failed-init-leak"),[("src/trunk.c","   key_buffer_deinit(&range_itor->local_max_key);\n","")]),
("filter-leak","heap","resource-leak",[("src/routing_filter.c","   platform_free(hid, local);\n","(void)hid;\n")]),
("lookup-result-leak","heap",("teardown-incomplete","resource-leak"),[(S,"   merge_accumulator_deinit(&_result->value);","   (void)_result;")]),
("range-no-free","heap","resource-leak",[("src/trunk.c","destroy_range_itor:\n   trunk_range_iterator_deinit(range_itor);\n   platform_free(PROCESS_PRIVATE_HEAP_ID, range_itor);","destroy_range_itor:\n   trunk_range_iterator_deinit(range_itor);")]),
("range-no-deinit","heap","resource-leak",[("src/trunk.c","destroy_range_itor:\n   trunk_range_iterator_deinit(range_itor);\n   platform_free","destroy_range_itor:\n   platform_free")]),
("task-double","heap",("double-release","use-after-release"),[("src/task.c","      platform_free(hid, ts);\n      *system = NULL;\n      return rc;","      task_system *t2 = ts;\n      platform_free(hid, ts);\n      platform_free(hid, t2);\n      *system = NULL;\n      return rc;")]),
("unchecked-it","heap","unchecked-allocation",[(S,"   if (it == NULL) {\n      platform_error_log(\"TYPED_MALLOC error\\n\");\n      return platform_status_to_int(STATUS_NO_MEMORY);\n   }\n","")]),
# refactorings
("R-mount-goto","heap",None,[("src/rc_allocator.c","      platform_free(al->heap_id, al->meta_page);\n      platform_mutex_destroy(&al->lock);\n      platform_error_log(\"Failed to create buffer to load ref counts\\n\");\n      return STATUS_NO_MEMORY;\n   }\n   al->ref_count = platform_buffer_getaddr(&al->bh);\n\n   // load the meta page","      status = STATUS_NO_MEMORY;\n      goto fail_buf;\n   }\n   goto go_on;\nfail_buf:\n   platform_free(al->heap_id, al->meta_page);\n   platform_mutex_destroy(&al->lock);\n   return status;\ngo_on:\n   al->ref_count = platform_buffer_getaddr(&al->bh);\n\n   // load the meta page")]),
("R-close-helper","heap",None,[(S,"void\nsplinterdb_close(splinterdb **kvs_in) // IN\n{","static void\nsplinterdb_teardown(splinterdb *kvs)\n{\n   trunk_unmount(&kvs->spl);\n   clockcache_deinit(&kvs->cache_handle);\n   rc_allocator_unmount(&kvs->allocator_handle);\n   task_system_destroy(kvs->heap_id, &kvs->task_sys);\n   io_handle_deinit(&kvs->io_handle);\n}\n\nvoid\nsplinterdb_close(splinterdb **kvs_in) // IN\n{"),(S,"   trunk_unmount(&kvs->spl);\n   clockcache_deinit(&kvs->cache_handle);\n   rc_allocator_unmount(&kvs->allocator_handle);\n   task_system_destroy(kvs->heap_id, &kvs->task_sys);\n   io_handle_deinit(&kvs->io_handle);\n\n   //","   splinterdb_teardown(kvs);\n\n   //")]),
("R-iter","heap",None,[(S,"   trunk_range_iterator_deinit(range_itor);\n\n   trunk_handle *spl = range_itor->spl;\n   platform_free(spl->heap_id, range_itor);","   platform_heap_id hid = range_itor->spl->heap_id;\n   trunk_range_iterator_deinit(&iter->sri);\n   platform_free(hid, iter);")]),
("R-req-helper","heap",None,[("src/trunk.c","         key_buffer_deinit(&req->start_key);\n         key_buffer_deinit(&req->end_key);\n         platform_free(spl->heap_id, req);\n         uint16 child_idx","         trunk_req_drop(spl, req);\n         uint16 child_idx"),("src/trunk.c","static inline uint64\ntrunk_page_size(","static void\ntrunk_req_drop(trunk_handle *spl, trunk_compact_bundle_req *req)\n{\n   key_buffer_deinit(&req->start_key);\n   key_buffer_deinit(&req->end_key);\n   platform_free(spl->heap_id, req);\n}\n\nstatic inline uint64\ntrunk_page_size(")]),
("R-req-new","heap",None,[("src/trunk.c","   trunk_compact_bundle_req *req = TYPED_ZALLOC(spl->heap_id, req);\n   platform_assert(req);\n   trunk_bundle *bundle","   trunk_compact_bundle_req *req = trunk_req_new(spl);\n   trunk_bundle *bundle"),("src/trunk.c","static inline uint64\ntrunk_page_size(","static trunk_compact_bundle_req *\ntrunk_req_new(trunk_handle *spl)\n{\n   trunk_compact_bundle_req *req = TYPED_ZALLOC(spl->heap_id, req);\n   platform_assert(req != NULL);\n   return req;\n}\n\nstatic inline uint64\ntrunk_page_size(")]),
("R-open-order","heap",None,[(S,"   if (we_created_heap) {\n      // => Caller did not setup a platform-heap on entry.\n      debug_assert(kvs_cfg->heap_id == NULL);\n\n      if (kvs) {\n         platform_free(use_this_heap_id, kvs);\n      }\n      platform_heap_destroy(&use_this_heap_id);\n   } else {\n      if (kvs) {\n         platform_free(use_this_heap_id, kvs);\n      }\n   }","   if (kvs != NULL) {\n      platform_free(use_this_heap_id, kvs);\n   }\n   if (we_created_heap) {\n      platform_heap_destroy(&use_this_heap_id);\n   }")]),
("R-range-kb","heap",None,[("src/trunk.c","   key_buffer_deinit(&range_itor->min_key);\n   key_buffer_deinit(&range_itor->max_key);\n   key_buffer_deinit(&range_itor->local_min_key);\n   key_buffer_deinit(&range_itor->local_max_key);\n","   key_buffer *bounds[] = {&range_itor->min_key, &range_itor->max_key, &range_itor->local_min_key, &range_itor->local_max_key};\n   for (int k = 0; k < 4; k++) {\n      key_buffer_deinit(bounds[k]);\n   }\n")]),
("range-keys-alias","heap","use-after-release",[("src/trunk.c","""   if (!range_itor->can_next) {
      KEY_CREATE_LOCAL_COPY(rc,
                            min_key,
                            range_itor->spl->heap_id,
                            key_buffer_key(&range_itor->min_key));
      if (!SUCCESS(rc)) {
         return rc;
      }
      KEY_CREATE_LOCAL_COPY(rc,
                            max_key,
                            range_itor->spl->heap_id,
                            key_buffer_key(&range_itor->max_key));
      if (!SUCCESS(rc)) {
         return rc;
      }
      KEY_CREATE_LOCAL_COPY(rc,
                            local_max_key,
                            range_itor->spl->heap_id,
                            key_buffer_key(&range_itor->local_max_key));
      if (!SUCCESS(rc)) {
         return rc;
      }
""","""   if (!range_itor->can_next) {
      key min_key       = key_buffer_key(&range_itor->min_key);
      key max_key       = key_buffer_key(&range_itor->max_key);
      key local_max_key = key_buffer_key(&range_itor->local_max_key);
""")]),
]
