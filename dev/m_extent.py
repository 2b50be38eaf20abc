MA="src/mini_allocator.c"; RC="src/rc_allocator.c"
M=[
("dec-uncond","extent","extent-discard-early",[(MA,"""   if (ref == AL_NO_REFS) {
      cache_extent_discard(cc, base_addr, type);
      ref = allocator_dec_ref(al, base_addr, type);
      platform_assert(ref == AL_FREE);
      return TRUE;
   }
   return FALSE;""","""   if (ref <= AL_ONE_REF) {
      cache_extent_discard(cc, base_addr, type);
      ref = allocator_dec_ref(al, base_addr, type);
      return ref == AL_FREE;
   }
   return FALSE;""")]),
("no-discard","extent","extent-not-discarded",[(MA,"""   platform_assert(ref == AL_NO_REFS);
   cache_extent_discard(cc, base_addr, type);
   ref = allocator_dec_ref(al, base_addr, type);
   platform_assert(ref == AL_FREE);
   return TRUE;""","""   platform_assert(ref == AL_NO_REFS);
   ref = allocator_dec_ref(al, base_addr, type);
   platform_assert(ref == AL_FREE);
   return TRUE;""")]),
("discard-after","extent",("extent-not-discarded","extent-use-after-free"),[(MA,"""         cache_extent_discard(cc, last_meta_base_addr, type);
         ref = allocator_dec_ref(al, last_meta_base_addr, type);
         platform_assert(ref == AL_FREE);""","""         ref = allocator_dec_ref(al, last_meta_base_addr, type);
         platform_assert(ref == AL_FREE);
         cache_extent_discard(cc, last_meta_base_addr, type);""")]),
("leak-type","extent","extent-leak",[(MA,"""   if (ref == AL_NO_REFS) {
      cache_extent_discard(cc, base_addr, type);
      ref = allocator_dec_ref(al, base_addr, type);
      platform_assert(ref == AL_FREE);
      return TRUE;
   }
   return FALSE;""","""   if (ref == AL_NO_REFS) {
      cache_extent_discard(cc, base_addr, type);
      if (type != PAGE_TYPE_FILTER) {
         ref = allocator_dec_ref(al, base_addr, type);
         platform_assert(ref == AL_FREE);
      }
      return TRUE;
   }
   return FALSE;""")]),
("release-once","extent","extent-leak",[(MA,"""      platform_assert(ref == AL_NO_REFS);
      ref = allocator_dec_ref(mini->al, mini->next_extent[batch], mini->type);
      platform_assert(ref == AL_FREE);

      if (mini->keyed) {""","""      platform_assert(ref == AL_NO_REFS);
      if (mini->keyed) {
         ref = allocator_dec_ref(mini->al, mini->next_extent[batch], mini->type);
         platform_assert(ref == AL_FREE);
      }

      if (mini->keyed) {""")]),
("ignored","extent",("extent-leak","extent-ref-ignored"),[(MA,"""   uint8      ref = allocator_dec_ref(al, base_addr(cc, meta_head), type);
   if (ref != MINI_NO_REFS) {""","""   uint8 ref = allocator_get_refcount(al, base_addr(cc, meta_head)) - 1;
   allocator_dec_ref(al, base_addr(cc, meta_head), type);
   if (ref != MINI_NO_REFS) {""")]),
("claim-noncas","extent",("extent-count-plain","extent-claim"),[(RC,"""         extent_is_free =
            __sync_bool_compare_and_swap(&al->ref_count[hand], 0, 2);""","""         al->ref_count[hand] = 2;
         extent_is_free = TRUE;""")]),
("claim-again","extent",("extent-lost"),[(RC,"""   } while (!extent_is_free
            && (hand + 1)""","""   } while ((!extent_is_free || al->stats.curr_allocated < 0)
            && (hand + 1)""")]),
("claim-ok-none","extent",("extent-claim"),[(RC,"""   if (!extent_is_free) {
      platform_default_log(
         "Out of""","""   if (!extent_is_free && al->stats.curr_allocated >= al->cfg->extent_capacity) {
      platform_default_log(
         "Out of""")]),
("alloc-lost","extent","extent-lost",[("src/routing_filter.c","""   filter->meta_head = meta_head;
   // filters use an unkeyed mini allocator
   mini_allocator mini;""","""   if (cfg->fingerprint_size > 31) {
      platform_free(PROCESS_PRIVATE_HEAP_ID, temp);
      return STATUS_BAD_PARAM;
   }
   filter->meta_head = meta_head;
   // filters use an unkeyed mini allocator
   mini_allocator mini;""")]),
("ref-helper","extent",None,[(MA,"""   if (ref == AL_NO_REFS) {
      cache_extent_discard(cc, base_addr, type);
      ref = allocator_dec_ref(al, base_addr, type);
      platform_assert(ref == AL_FREE);
      return TRUE;
   }
   return FALSE;""","""   if (ref != AL_NO_REFS) {
      return FALSE;
   }
   mini_free_extent(cc, al, base_addr, type);
   return TRUE;"""),(MA,"""static bool32
mini_keyed_dec_ref_extent(""","""static void
mini_free_extent(cache *cc, allocator *al, uint64 addr, page_type type)
{
   cache_extent_discard(cc, addr, type);
   uint8 r = allocator_dec_ref(al, addr, type);
   platform_assert(r == AL_FREE);
}
static bool32
mini_keyed_dec_ref_extent("""),(MA,"""         uint8  ref = allocator_dec_ref(al, last_meta_base_addr, type);
         platform_assert(ref == AL_NO_REFS);
         cache_extent_discard(cc, last_meta_base_addr, type);
         ref = allocator_dec_ref(al, last_meta_base_addr, type);
         platform_assert(ref == AL_FREE);""","""         mini_dealloc_extent(cc, type, last_meta_base_addr, NULL);"""),(MA,"""static platform_status
mini_allocator_get_new_extent(""","""static bool32
mini_dealloc_extent(cache *cc, page_type type, uint64 base_addr, void *out);
static platform_status
mini_allocator_get_new_extent(""")]),
("ref-drop-helper","extent",None,[(MA,"""   uint8      ref = allocator_dec_ref(al, base_addr, type);
   platform_assert(ref == AL_NO_REFS);
   cache_extent_discard(cc, base_addr, type);
   ref = allocator_dec_ref(al, base_addr, type);
   platform_assert(ref == AL_FREE);
   return TRUE;""","""   mini_drop_last(al, base_addr, type);
   cache_extent_discard(cc, base_addr, type);
   uint8 ref = allocator_dec_ref(al, base_addr, type);
   platform_assert(ref == AL_FREE);
   return TRUE;"""),(MA,"""static bool32
mini_dealloc_extent(cache""","""static void
mini_drop_last(allocator *al, uint64 addr, page_type type)
{
   uint8 r = allocator_dec_ref(al, addr, type);
   platform_assert(r == AL_NO_REFS);
}
static bool32
mini_dealloc_extent(cache""")]),
("ref-base-twice","extent",None,[(MA,"""         uint64 last_meta_base_addr = base_addr(cc, last_meta_addr);
         uint8  ref = allocator_dec_ref(al, last_meta_base_addr, type);
         platform_assert(ref == AL_NO_REFS);
         cache_extent_discard(cc, last_meta_base_addr, type);
         ref = allocator_dec_ref(al, last_meta_base_addr, type);""","""         uint8  ref = allocator_dec_ref(al, base_addr(cc, last_meta_addr), type);
         platform_assert(ref == AL_NO_REFS);
         cache_extent_discard(cc, base_addr(cc, last_meta_addr), type);
         ref = allocator_dec_ref(al, base_addr(cc, last_meta_addr), type);""")]),
("ref-alloc-loop","extent",None,[(RC,"""   do {
      hand = __sync_fetch_and_add(&al->hand, 1) % al->cfg->extent_capacity;
      if (al->ref_count[hand] == 0) {
         extent_is_free =
            __sync_bool_compare_and_swap(&al->ref_count[hand], 0, 2);
      }
   } while (!extent_is_free
            && (hand + 1) % al->cfg->extent_capacity != first_hand);""","""   while (TRUE) {
      hand = __sync_fetch_and_add(&al->hand, 1) % al->cfg->extent_capacity;
      if (al->ref_count[hand] == 0
          && __sync_bool_compare_and_swap(&al->ref_count[hand], 0, 2))
      {
         extent_is_free = TRUE;
         break;
      }
      if ((hand + 1) % al->cfg->extent_capacity == first_hand) {
         break;
      }
   }""")]),
]
