"""Which analysis modes and rules decide which property."""
ENGINE_ASSUME = [
    "clang 18 -O0 bitcode of every unit under src/ represents the program (single build configuration, Linux platform layer)",
    "operation tables (struct *_ops) are only filled by the static initialisers in the tree",
    "paths that end in a failed assertion abort the process and are not followed further",
]
PROPS = {
    "P01": {
        "modes": ["page"],
        "rules": {
            "page-protocol": "get < claim < lock < unlock < unclaim < unget: no step twice, out of order, or while a stronger hold is outstanding",
            "page-leak": "every page reference acquired in a function is released, returned or stored in caller-owned memory on every path",
            "page-null": "no cache operation is applied to a handle that was already released and cleared",
            "page-unbalanced": "an entry point leaves its caller's page holds as it found them",
            "page-stale-handle": "no caller-visible structure keeps pointing at a page whose reference was dropped",
        },
        "explain": "Path-sensitive typestate analysis of every function outside the cache implementation: abstract states are partitioned by the hold state of each page object, helper functions that change a hold are analysed in the context of their callers, loops are iterated to a fixpoint.",
        "assume": ENGINE_ASSUME + ["pages kept in arrays (index pages of a filter under construction, the rightmost path of a tree being packed) and pages of asynchronous lookups are not followed",
                                   "a claim whose result is only asserted is taken to succeed"],
    },
    "P02": {
        "modes": ["page"],
        "rules": {
            "page-write-unlocked": "page contents are only written while the writing thread holds the page's write lock",
            "page-dirty": "a page whose contents were written under the lock is marked dirty before the lock is released",
        },
        "explain": "Same analysis as P01; every store, memory copy and summarised callee write that reaches page contents is an obligation.",
        "assume": ENGINE_ASSUME,
    },
    "P03": {
        "modes": ["page"],
        "rules": {"page-use-after-unget": "page contents are not read, written, claimed or locked after the last reference of this holder was dropped"},
        "explain": "Same analysis as P01; every load, copy, callee read and callback argument that reaches page contents is an obligation.",
        "assume": ENGINE_ASSUME,
    },
    "P04": {
        "modes": ["status"],
        "rules": {
            "status-swallowed": "a function that reports a status does not return OK on a path on which a callee's status is known to be a failure",
            "status-ignored": "every status a callee can fail with, and every result of the operating system's I/O calls, is compared, asserted, returned or handed on",
            "status-short-io": "OK is only returned for a read or write when the number of bytes transferred was compared with the number asked for",
        },
        "explain": "Path-sensitive propagation of the result of every call that reports a status (direct, through operation tables and through callback fields). Which functions can fail is inferred bottom-up over the call graph (fixpoint over recursion).",
        "assume": ENGINE_ASSUME + ["primitives that only fail when misused (mutex, spin lock, condition variable, thread join), teardown, statistics and printing functions are exempt from status-ignored",
                                   "task_perform_one_if_needed and trunk_reclaim_space are offers to help: their 'nothing to do' is not a failure"],
    },
    "P05": {
        "modes": ["heap"],
        "rules": {
            "resource-leak": "what a function acquires is released, returned or reachable from the caller's memory on every path, and a block is not freed while it holds live resources",
            "double-release": "no resource is released twice",
            "release-mismatch": "a resource is released by its matching function, from its start, to the heap it came from",
            "use-after-release": "released memory is not read, written, dereferenced by a callee or released through",
            "unchecked-allocation": "an allocated block is only used where the allocation is known to have succeeded",
            "null-pointer": "a pointer set to null in the function is not dereferenced",
        },
        "explain": "Path-sensitive ownership analysis of every function: each allocation and each paired resource (locks, buffers, iterators, handles, descriptors) is an object with an owner; helpers that change ownership are analysed in the context of their callers.",
        "assume": ENGINE_ASSUME + ["objects stored in arrays or captured by callees that keep their argument are owned there"],
    },
    "P13": {
        "modes": ["heap"],
        "rules": {
            "failed-init-leak": "a constructor that reports a failure has released everything it acquired",
            "teardown-incomplete": "every field a constructor leaves holding a resource is released by the matching destructor",
        },
        "explain": "Same analysis as P05; every failure exit of a constructor and every constructor/destructor pair is an obligation.",
        "assume": ENGINE_ASSUME + ["the table of constructor/destructor pairs is part of the checker, see tool/heap.cpp"],
    },
    "P06": {
        "modes": ["lock"],
        "rules": {
            "lock-leak": "a mutex, spin lock or reader/writer lock taken in a function is released on every path out of it (functions that hand a lock to their caller do so on every path alike)",
            "lock-unheld": "no lock is released that is not held",
            "lock-double": "no thread takes a lock exclusively that it already holds",
        },
        "explain": "Path-sensitive typestate analysis of every lock primitive (mutex, spin lock, condition-variable lock, test-and-set locks, batch reader/writer locks with read/claim/write levels); helpers that change a hold are followed in the context of their callers.",
        "assume": ENGINE_ASSUME + ["locks in an array are told apart by constant index only"],
    },
    "P07": {
        "modes": ["lock"],
        "rules": {
            "lock-order": "the acquired-while-holding relation between locks, with reader/writer modes, has no cycle",
            "lock-block": "no blocking wait (condition variable, sleep, I/O wait) happens while a spin lock is held",
        },
        "explain": "Same analysis as P06; every acquisition made while another lock is held, in the function itself or anywhere below a call, adds an edge to the lock graph.",
        "assume": ENGINE_ASSUME,
    },
    "P08": {
        "modes": ["lock"],
        "rules": {
            "guarded-by": "shared state is only touched while its lock is held in a sufficient mode",
            "lock-atomic": "a memtable is retired and the new trunk root published under one hold of the exclusive lookup lock",
        },
        "explain": "Same analysis as P06; every load, store and operation on state in the guard table is an obligation, discharged at the access or by every caller.",
        "assume": ENGINE_ASSUME + ["the guard table (which lock protects which field or operation) is part of the checker, see tool/lock.cpp"],
    },
    "P09": {
        "modes": ["extent"],
        "rules": {
            "extent-use-after-free": "an extent that was given back is not used, discarded or dropped again",
            "extent-not-discarded": "an extent is freed only after its pages were discarded from the cache",
            "extent-ref-ignored": "whoever drops a reference looks at whether it was the last one",
            "extent-discard-early": "pages of an extent are discarded only once its last reference is known to be gone",
            "extent-count-plain": "reference counts of extents are only changed by atomic operations",
            "extent-count-step": "an atomic update changes a reference count by one",
            "extent-claim": "an extent is claimed only by an exchange from free to referenced, and success means one was claimed",
            "extent-lost": "a claimed or allocated extent is handed out or recorded on every path",
            "extent-leak": "when the last reference is dropped the extent is freed",
        },
        "explain": "Path-sensitive typestate analysis of extents: every call of allocator_ops.{alloc,dec_ref} and cache_ops.extent_discard and every update of rc_allocator.ref_count, on every path of every function. An extent goes from referenced through dropped (the returned count is what later branches and assertions compare) and discarded to freed; obligations left at the return of a function are carried into its callers.",
        "assume": ENGINE_ASSUME + ["that the number of references recorded in a count equals the number of holders (a whole-history quantity) is not decided; the rules are the per-path protocol around it", "addresses that the code computes twice with base_addr() from the same page are the same extent"],
    },
    "P10": {
        "modes": ["memtable"],
        "rules": {
            "memtable-transition": "a memtable changes state only by an exchange along its life cycle; tuples go only into a memtable seen READY under the insert lock; the current generation advances exactly when its memtable was finalized",
            "memtable-publish": "a memtable is declared COMPACTED only after its branch, filter and request are complete, and they do not change afterwards",
            "memtable-retire": "a memtable is retired exactly when its branch is installed; its reference is dropped and its filter build queued after that, on every path",
            "memtable-recycle": "a memtable becomes READY again only after its last reference is gone and with a new tree and generation",
            "memtable-hand-over": "every finalized memtable is handed to compaction, and only a finalized one",
        },
        "explain": "Event-order analysis from every entry point (functions nobody calls, and functions whose address is taken) with all functions that contain events of the memtable life cycle followed into: state exchanges with their constant operands, generation counters, packing, filter build, installation in the root, reference drops and task hand-over.",
        "assume": ENGINE_ASSUME + ["the life cycle READY-FINALIZED-COMPACTING-COMPACTED-INCORPORATION_ASSIGNED-INCORPORATING-INCORPORATED-READY is part of the checker", "that the pack itself copies every tuple is not decided (see the not-applicable list)"],
    },
    "P11": {
        "modes": ["close"],
        "rules": {
            "close-order": "the super block is marked cleanly closed only after: memtable emptied or finalized, background work run to the end, cache flushed, reference counts written, with nothing changed in between or after; the store is torn down only after that mark is on disk",
            "open-untrusted": "a root is adopted only from a super block with a verified checksum that is known to be marked cleanly closed; the mark is durably cleared before opening succeeds; opening succeeds only with an adopted or newly created store and a verified meta page",
            "metadata-durable": "every change of the super block or of the allocator's meta page is written to disk, with a wait, before the operation ends",
        },
        "explain": "Event-order analysis of creating, opening, closing and destroying a store, with every function that touches the super block, the meta page, checksums or the teardown of a subsystem followed into; any other call that can reach a page modification or a reference-count change (call graph, operation tables) invalidates the flush or the persisted counts.",
        "assume": ENGINE_ASSUME + ["a completed write is durable (the store never asks the device to flush; power failure is outside)", "cache_flush and task_perform_until_quiescent do what they say; how is the subject of other properties"],
    },
    "P12": {
        "modes": ["close"],
        "rules": {
            "checksum-stale": "a checksum is computed over the final contents: no change between computing it and writing the page",
            "checksum-coverage": "the checksum of a metadata structure covers everything that precedes the checksum field",
            "checksum-agreement": "writer and verifier compute a structure's checksum with the same length and seed",
            "open-untrusted": "a root is adopted only from a super block with a verified checksum, and opening succeeds only with a verified meta page",
            "log-untrusted": "contents of a log page are read back only after its checksum was verified",
        },
        "explain": "Same analysis as P11: every checksum computation, comparison and store, every store into and load from checksummed structures and every write of them to disk is an event.",
        "assume": ENGINE_ASSUME + ["the strength of the hash function and the layout of padding are outside"],
    },
}
