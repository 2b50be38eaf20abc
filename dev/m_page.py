B='src/btree.c'; T='src/trunk.c'; L='src/shard_log.c'; MI='src/mini_allocator.c'; R='src/routing_filter.c'
PL=('page-protocol','page-leak','page-null','page-unbalanced','page-stale-handle')
M=[
("split-retry-no-child-unclaim","page",PL,[(B,'''            btree_node_full_unlock(cc, cfg, parent);
            btree_node_unclaim(cc, cfg, child);
            btree_node_unget(cc, cfg, child);
            return -1;''','''            btree_node_full_unlock(cc, cfg, parent);
            btree_node_unget(cc, cfg, child);
            return -1;''')]),
("split-retry-no-right-unlock","page",PL,[(B,'''            btree_node_full_unlock(cc, cfg, &right_child);
            btree_node_full_unlock(cc, cfg, parent);
            btree_node_unclaim(cc, cfg, child);''','''            btree_node_full_unlock(cc, cfg, parent);
            btree_node_unclaim(cc, cfg, child);''')]),
("split-child-not-locked","page","page-write-unlocked",[(B,'''   /* p: write, c: claim, rc: write, cn: write if exists */

   btree_node_lock(cc, cfg, child);
   /* p: write, c: write, rc: write, cn: write if exists */

   {
      /* limit the scope of pivot_key, since subsequent mutations of the nodes
       * may invalidate the memory it points to.
       */
      key    pivot_key = btree_splitting_pivot(cfg, child->hdr, spec, plan);''','''   {
      key    pivot_key = btree_splitting_pivot(cfg, child->hdr, spec, plan);'''),]),
("split-next-unlock-early","page",("page-write-unlocked","page-use-after-unget","page-protocol"),[(B,'''      child_next.hdr->prev_addr = right_child.addr;
      btree_node_full_unlock(cc, cfg, &child_next);
   }
   /* p: unlocked, c: write, rc: write, cn: unlocked */

   btree_split_leaf_build''','''      btree_hdr *nh = child_next.hdr;
      btree_node_full_unlock(cc, cfg, &child_next);
      nh->prev_addr = right_child.addr;
   }
   /* p: unlocked, c: write, rc: write, cn: unlocked */

   btree_split_leaf_build''')]),
("lookup-unget-before-copy","page","page-use-after-unget",[(B,'''      bool32 success = merge_accumulator_copy_message(result, data);
      rc             = success ? STATUS_OK : STATUS_NO_MEMORY;
      btree_node_unget(cc, cfg, &node);''','''      btree_node_unget(cc, cfg, &node);
      bool32 success = merge_accumulator_copy_message(result, data);
      rc             = success ? STATUS_OK : STATUS_NO_MEMORY;''')]),
("log-no-dirty","page","page-dirty",[(L,'''      cache_mark_dirty(cc, page);
      cache_unlock(cc, page);''','''      cache_unlock(cc, page);''')]),
("superblock-no-unget","page",PL,[(T,'''      cache_unget(spl->cc, *super_page);
      *super_page = NULL;
      return NULL;''','''      *super_page = NULL;
      return NULL;''')]),
("refactor-helper","page",None,[(B,'''            btree_node_full_unlock(cc, cfg, parent);
            btree_node_unclaim(cc, cfg, child);
            btree_node_unget(cc, cfg, child);
            return -1;''','''            btree_node_full_unlock(cc, cfg, parent);
            btree_drop_claimed(cc, cfg, child);
            return -1;'''),(B,'''static inline int
btree_split_child_leaf(''','''static void
btree_drop_claimed(cache *cc, const btree_config *cfg, btree_node *n)
{
   btree_node_unclaim(cc, cfg, n);
   btree_node_unget(cc, cfg, n);
}
static inline int
btree_split_child_leaf(''')]),
("log-refactor-do-while","page",None,[(L,'''      while (!cache_try_claim(cc, page)) {
         platform_sleep_ns(wait);
         wait = wait > 1024 ? wait : 2 * wait;
      }
      cache_lock(cc, page);''','''      for (;;) {
         bool32 got = cache_try_claim(cc, page);
         if (got) {
            break;
         }
         platform_sleep_ns(wait);
         wait = wait > 1024 ? wait : 2 * wait;
      }
      cache_lock(cc, page);''')]),
]
