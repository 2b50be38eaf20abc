COMMITS = []
def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a, "technique": technique, "note": note}
def N(id, title, statement, over, qtext, why, files, mech, reason):
    d = P(id, title, statement, over, qtext, why, files, mech, "", "")
    d["reason"] = reason
    return d
SOUND = "Exhaustive over all paths of the analysed functions up to the abstraction; trusts clang's bitcode, the resolution of operation tables and the stated assumptions. Behaviour through arrays of pages and asynchronous lookups is outside."
PROPS = [
P("P01", "Every hold on a cached page is released exactly once, on every path",
  "Whatever an operation does, succeeds at, retries or fails at, every reference, claim and write lock it takes on a cached page is given back exactly once, the write lock before the claim and the claim before the reference, unless the hold is handed to its caller. No page is left referenced, claimed or locked after the operation that took the hold has finished, and no hold is released that is not held.",
  ["inputs", "schedules", "fault_sequences"], "all code paths of all operations on cached pages, including retry, contention and failure paths",
  "Leaks and double releases sit on contention, retry and out-of-memory paths the tests do not force; a leaked claim only shows as a hang much later.",
  ["src/btree.c", "src/trunk.c", "src/mini_allocator.c", "src/routing_filter.c", "src/shard_log.c", "src/cache.h"],
  [("reference/claim/lock interface of the page cache", "src/cache.h"), ("tree and trunk node wrappers", "src/btree.c, src/trunk.c"), ("meta page locking", "src/mini_allocator.c")],
  "path-sensitive interprocedural typestate dataflow over LLVM IR (page hold states)", SOUND,
  state=[("page hold", "per page handle: referenced, claimed, write-locked")]),
P("P02", "Page contents change only under the write lock and are marked dirty",
  "A cached page's contents are modified only by a thread that holds the page's write lock, and a page modified under its write lock is marked as needing to be written back before that lock is released. Hence readers never see a page change under their reference and no completed modification can be dropped by eviction.",
  ["schedules", "histories", "inputs"], "all stores that can reach page contents, on all paths",
  "A missing lock or dirty mark is invisible unless the cleaner or another thread touches the page in a window of a few instructions.",
  ["src/btree.c", "src/trunk.c", "src/mini_allocator.c", "src/routing_filter.c", "src/shard_log.c", "src/cache.h"],
  [("write lock and dirty marking", "src/cache.h"), ("node modification", "src/btree.c, src/trunk.c"), ("log append", "src/shard_log.c")],
  "path-sensitive interprocedural typestate dataflow over LLVM IR (stores into page contents)", SOUND),
P("P03", "Page memory is never used after the reference to it was dropped",
  "Once an operation has dropped its reference to a cached page it neither reads nor writes that page's memory through any pointer, key or message it derived from the page, and it does not claim or lock the page through the stale handle.",
  ["schedules", "inputs", "histories"], "all pointers derived from page contents, on all paths",
  "The cache rarely recycles the page at once, so a stale read returns the right bytes in tests and garbage under eviction pressure.",
  ["src/btree.c", "src/trunk.c", "src/routing_filter.c", "src/mini_allocator.c"],
  [("keys and messages returned as pointers into pages", "src/btree.c, src/trunk.c, src/data_internal.h"), ("reference drop", "src/cache.h")],
  "path-sensitive interprocedural typestate dataflow over LLVM IR (use after release of page memory)", SOUND),
P("P04", "Failures are never ignored or reported as success",
  "When a lower layer reports a failure (the operating system's I/O calls, extent allocation, memory allocation reported as a status, the log, task submission, iterators), the caller handles it, passes it on or stops the process; it never carries on as if the call had succeeded, and no operation reports success to its caller on a path on which a step it needed is known to have failed. In particular a read or write is only reported as done when every byte was transferred.",
  ["fault_sequences", "inputs"], "every call that reports a status, on every path",
  "Faults are not injected by the tests: allocation and I/O never fail there, so a dropped status is unobservable.",
  ["src/trunk.c", "src/btree.c", "src/memtable.c", "src/splinterdb.c", "src/rc_allocator.c", "src/clockcache.c", "src/merge.c", "src/task.c", "src/platform_linux/laio.c"],
  [("platform_status results", "src/platform_linux/platform_status.h"), ("I/O calls", "src/platform_linux/laio.c")],
  "path-sensitive interprocedural dataflow of status values over LLVM IR with inferred can-fail summaries", SOUND),
P("P05", "Memory and handles are released exactly once and never used afterwards",
  "Every heap block, key or message buffer, page buffer, iterator, descriptor and other paired resource an operation acquires is, on every path including failures, either released exactly once by the matching release function (and to the heap it came from) or still owned by something the caller can reach. Nothing is used after it was released or freed through a pointer into its middle, a structure is not freed while it still holds live resources, and memory is not used before the allocation is known to have succeeded.",
  ["inputs", "fault_sequences", "histories"], "all paths of all functions that acquire, hold or release heap memory or paired resources",
  "Leaks and double frees sit on failure, abort and retry paths (aborted compactions, failed allocations, splits during a flush) that tests do not force; a leak never fails a test.",
  ["src/trunk.c", "src/splinterdb.c", "src/merge.c", "src/btree.c", "src/routing_filter.c", "src/task.c", "src/rc_allocator.c", "src/clockcache.c", "src/memtable.c", "src/platform_linux/laio.c", "src/util.h", "src/data_internal.h"],
  [("heap interface", "src/platform_linux/platform.h"), ("key and message buffers", "src/util.h, src/data_internal.h"), ("compaction requests", "src/trunk.c"), ("iterators", "src/splinterdb.c, src/trunk.c, src/merge.c")],
  "path-sensitive interprocedural ownership dataflow over LLVM IR (heap blocks and paired resources)", "Exhaustive over all paths of the analysed functions up to the abstraction. Objects kept in arrays, captured by other threads or reachable through memory the analysis cannot name are assumed to be owned there."),
P("P13", "Failed create, open or init leaves nothing behind; close releases everything",
  "When creating or opening an instance, a cache, an allocator, the I/O handle, the task system, a trunk, a range iterator or a user iterator fails part way, everything acquired up to that point is released before the failure is reported and nothing is left attached to the caller's structure; when one of them is torn down, everything its constructor left in place is released.",
  ["fault_sequences", "inputs"], "every failure point of every constructor; every constructor/destructor pair",
  "Each failure point needs a fault the tests never inject, and what a destructor forgets only shows as growth of a long-running process.",
  ["src/splinterdb.c", "src/trunk.c", "src/rc_allocator.c", "src/clockcache.c", "src/task.c", "src/memtable.c", "src/platform_linux/laio.c", "src/merge.c"],
  [("create or open, close", "src/splinterdb.c"), ("allocator mount and unmount", "src/rc_allocator.c"), ("cache init and deinit", "src/clockcache.c"), ("range iterator init and deinit", "src/trunk.c")],
  "path-sensitive ownership dataflow over LLVM IR: failure exits of constructors, field-wise matching of constructors and destructors", "As P05. The pairing table (which function undoes which) is part of the checker, see tool/heap.cpp."),
P("P06", "Locks are released exactly once on every path",
  "Every mutex, spin lock, condition-variable lock and reader/writer lock taken inside the store is released by the operation that took it, once, on every path including retries and failures; no lock is released that is not held and no thread waits for a lock it already holds.",
  ["schedules", "inputs", "fault_sequences"], "all code paths of all functions that use the lock primitives",
  "The paths on which a lock stays held (contention, generation change, failure) are not forced by tests, and the hang appears in another thread.",
  ["src/memtable.c", "src/task.c", "src/trunk.c", "src/rc_allocator.c", "src/clockcache.c", "src/platform_linux/platform_condvar.c", "src/platform_linux/laio.c"],
  [("lock primitives", "src/platform_linux/platform_inline.h, src/platform_linux/platform.c"), ("memtable insert and lookup locks", "src/memtable.c"), ("task group locks", "src/task.c")],
  "path-sensitive interprocedural lock-state typestate over LLVM IR", SOUND),
P("P07", "No deadlock through lock order",
  "Threads acquire the store's locks in an order that admits no cycle of waiting, taking into account which reader/writer modes exclude each other, and never block on an event while holding a spin lock. Hence no schedule of inserts, lookups, iterators, background tasks and mount or unmount can deadlock on these locks.",
  ["schedules"], "all pairs of locks held and acquired, across all call chains",
  "A lock-order inversion needs two threads at two specific points at once; tests practically never hit it.",
  ["src/memtable.c", "src/task.c", "src/trunk.c", "src/rc_allocator.c", "src/clockcache.c"],
  [("insert and lookup locks of the memtable context", "src/memtable.c"), ("trunk root lock", "src/trunk.c"), ("task group locks", "src/task.c"), ("allocator lock", "src/rc_allocator.c")],
  "lock-order graph with reader/writer modes, built by interprocedural dataflow over LLVM IR", SOUND + " Page locks of the cache are covered only as far as P01's order claim/lock; ordering between pages is not analysed."),
P("P08", "Shared state is accessed under its lock",
  "The fields that threads share under a lock (memtable generations, the trunk root and its address, task queues, the table of root addresses of the allocator, thread-id bitmap) are read and written only while the protecting lock is held in a sufficient mode; a memtable is inserted into and looked up only under the memtable context's read locks; and retiring a memtable and publishing the root that contains its tuples happen under one exclusive hold, so that no lookup sees a state in which the tuples are in neither place.",
  ["schedules"], "every access to guarded state, on all paths and from all entry points",
  "A missing lock is a race window of a few instructions; tests pass with it.",
  ["src/memtable.c", "src/trunk.c", "src/task.c", "src/rc_allocator.c"],
  [("memtable generation and rwlock", "src/memtable.c, src/memtable.h"), ("root lock", "src/trunk.c"), ("task groups", "src/task.c"), ("super block table", "src/rc_allocator.c")],
  "interprocedural lockset analysis over LLVM IR against a guarded-by table", SOUND),
P("P09", "Disk extents: one owner, freed exactly once, after their last reference",
  "An extent is claimed atomically by one caller and only when it is free, and an allocation that reports success hands out an extent it claimed. Every holder that drops a reference finds out whether it was the last; when it was, the pages of the extent are discarded from the cache and only then is the extent given back, exactly once, on every path. No page of a freed extent is used, no extent is discarded while others still hold references to it, and no allocated extent is forgotten.",
  ["histories", "schedules"], "every allocation, reference drop and discard of extents, on all paths",
  "A leaked or twice-freed extent needs a particular history of flushes, splits and range deletions; the tests do not compare the allocation map with the tree.",
  ["src/rc_allocator.c", "src/mini_allocator.c", "src/routing_filter.c", "src/btree.c"],
  [("allocator", "src/rc_allocator.c"), ("extent lists and keyed reference counts", "src/mini_allocator.c"), ("filters", "src/routing_filter.c"), ("dummy keyed drops", "src/btree.c")],
  "path-sensitive typestate analysis of extents over LLVM IR", SOUND),
P("P10", "Memtable life cycle: every tuple is always in a memtable or the published tree",
  "A memtable changes state only by an atomic exchange along its life cycle. Tuples are inserted only into the memtable that is READY under the insert lock. When it fills up it is finalized once, the current generation advances, and it is handed to compaction exactly once. It is declared compacted only when its branch and filter are complete. Its generation is retired and its reference dropped only when its branch has been installed in the new root and that root has been switched in, and always then. It is reused only after its last reference is gone, with a new tree and a new generation.",
  ["schedules", "histories"], "every path of every thread through insert, rotation, compaction, incorporation and recycling",
  "Out-of-order steps lose or duplicate tuples only when another thread runs in the gap between two steps.",
  ["src/memtable.c", "src/memtable.h", "src/trunk.c"],
  [("states and rotation", "src/memtable.c, src/memtable.h"), ("compaction and incorporation", "src/trunk.c trunk_memtable_*")],
  "event-order analysis with a state-transition table over LLVM IR", SOUND),
P("P11", "A store is marked cleanly closed last, and opened only if it is",
  "The on-disk mark that a store was cleanly closed is set only after everything the next open relies on is on disk: the contents of the memtable, the results of all background work, every dirty page, and the allocator's reference counts; nothing is changed after it. Open adopts a root only from a valid super block that carries the mark, clears the mark on disk before it reports success, and otherwise refuses to open. Hence at no crash point is a store that was in use taken for a cleanly closed one.",
  ["crash_points", "histories"], "every path through create, open, close and failed open, and every point at which the process may stop",
  "The window between two writes of close is microseconds wide; tests never stop there, and never reopen a store that was not closed.",
  ["src/splinterdb.c", "src/trunk.c", "src/rc_allocator.c"],
  [("super block", "src/trunk.c trunk_set_super_block, trunk_mount, trunk_unmount"), ("close and open", "src/splinterdb.c splinterdb_close, splinterdb_create_or_open"), ("reference counts", "src/rc_allocator.c rc_allocator_mount, rc_allocator_persist")],
  "event-order (typestate) analysis of the open and close protocol over LLVM IR", SOUND,
  state=[("unmounted", "super block field: the store was cleanly closed")]),
P("P12", "On-disk metadata is checksummed completely and verified before use",
  "The super block, the allocator's meta page and full log pages are written with a checksum computed over their final contents, covering every field before the checksum itself. Whoever reads them back computes the checksum the same way and uses no field before the comparison has succeeded. Hence a torn, stale or corrupted metadata block is refused rather than believed.",
  ["inputs", "crash_points"], "every checksum computation, comparison, and access to checksummed structures, on all paths",
  "Tests read back only intact metadata; an uncovered field or a skipped comparison never shows.",
  ["src/trunk.c", "src/rc_allocator.c", "src/shard_log.c"],
  [("super block checksum", "src/trunk.c trunk_set_super_block, trunk_get_super_block_if_valid"), ("meta page checksum", "src/rc_allocator.c"), ("log page checksum", "src/shard_log.c")],
  "event-order analysis of checksum computations and uses over LLVM IR", SOUND),
]
NA = []
