#!/usr/bin/env python3
# writes properties.jsonl (kept so that the text is easy to edit)
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mech)]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Point operations are linearizable per key under any concurrency",
"Every insert, delete, update and lookup issued by any number of registered threads behaves as if it took effect atomically at one instant between its call and its return: a lookup returns exactly the value produced by the writes ordered before it, and reports absent exactly when the key was never written or was last deleted. This holds while the data moves through every internal stage in the background (buffer rotation, incorporation, flush, compaction, split, cache eviction) and for every valid configuration.",
["schedules","histories","configurations","inputs"],
"all interleavings of any number of threads' operations with all background work, over all key/value sequences and all valid configurations",
"Functional tests run a handful of OS-chosen schedules, mostly single-threaded with 24 MiB buffers, and check final contents rather than concurrent histories; races between a lookup and rotation, incorporation, flush, split or eviction need a particular preemption a few instructions wide.",
["src/splinterdb.c","src/trunk.c","src/memtable.c","src/btree.c","src/merge.c","src/clockcache.c"],
["trunk_insert/trunk_memtable_insert and generation handling in memtable.c","trunk_lookup walking memtables newest to oldest, then trunk nodes, bundles, branches","trunk_memtable_incorporate_and_flush, flush, compact_bundle and split under copy-on-write"],
"return values of the public insert/delete/update/lookup calls")
p("C02","Each blind update is merged exactly once and in order",
"The value visible for a key equals the application's merge function applied once per acknowledged update, in their serialization order, onto the last insert (or onto nothing after a delete or for a never-inserted key); no update is lost, duplicated or reordered by background merging, splitting, flushing or reopening. The merge callbacks are only ever given the right key, the older message as old and the newer as new, and the result is the same for point lookups and scans.",
["schedules","histories","inputs","configurations"],
"all sequences of inserts/deletes/updates on shared keys, all placements of those messages over memtables, branches and tree levels, all schedules",
"Existing tests use updates only through a sum-like test message with few in-flight merges, so order swaps and double merges cancel out or never occur.",
["src/merge.c","src/data_internal.h","src/trunk.c","src/btree.c"],
["merge_resolve_equal_keys and finalization in merge.c","merge_accumulator updates in trunk_lookup/btree_merge_tuples","in-leaf merging in btree insert"],
"merge callback arguments and values returned by lookup and iterator")
p("C03","Range scans are sorted, complete, duplicate-free and correct both ways",
"An iterator positioned anywhere and moved forwards and backwards in any pattern returns keys in strictly increasing (decreasing) order, every key that was present throughout the scan exactly once with a value it held during the scan, and no key that was absent throughout. Its valid/can-next/can-prev answers agree with the contents, and concurrent writers, rotation, flush, compaction, split and eviction do not disturb it.",
["schedules","histories","inputs","configurations"],
"all start keys, all next/prev move sequences, all data placements, all concurrent writes and background work",
"Iterator tests run over static data with one thread; scans whose chunk boundaries meet concurrent rotation/flush/split are not sampled.",
["src/trunk.c","src/merge.c","src/btree.c","src/splinterdb.c"],
["trunk_range_iterator_init/next/prev and re-descent at leaf boundaries","merge_iterator ordering, duplicates and deletion skipping, direction reversal","btree_iterator with refcounted roots"],
"sequence of (key,value) returned by the public iterator")
p("C04","A clean close and reopen preserves exactly the database contents",
"After close returns, opening the same file with the same configuration succeeds and the contents (point lookups and scans) are exactly those at close time, no matter how many sessions came before, which background work was pending at the close, or with which thread counts and cache size each session runs. The reopened database is fully usable and keeps all guarantees.",
["histories","schedules","configurations"],
"all histories of sessions (open, concurrent work, close) and all schedules of background work at close",
"Reopen tests do one or two clean sessions with quiescent background work and little data.",
["src/splinterdb.c","src/trunk.c","src/rc_allocator.c","src/clockcache.c","src/task.c"],
["trunk_unmount/trunk_mount and super block selection by timestamp","rc_allocator_unmount/mount ref-count persistence","clockcache_flush on deinit"],
"contents after splinterdb_open")
p("C05","After a crash, open refuses or serves exactly the last clean state",
"If the process dies at any instruction (including in the middle of create, open or close, with any subset of in-flight writes reaching the device whole, torn or not at all), a later open either fails cleanly, or succeeds and then serves exactly the contents of a state that was cleanly closed (or being closed) with no intervening acknowledged session, and stays correct under further use. It never opens to a database with lost, stale, mixed or later self-destroying contents.",
["crash_points","fault_sequences","histories","schedules"],
"all crash points in all phases, all subsets/tearings of in-flight writes, all histories of earlier sessions",
"No existing test crashes the process; the window between the writes that make up a close or an open is a handful of instructions.",
["src/trunk.c","src/rc_allocator.c","src/splinterdb.c","src/clockcache.c"],
["trunk_set_super_block/trunk_get_super_block_if_valid (unmounted flag, checkpointed, checksum)","order of write-backs in splinterdb_close and of the mount mark in open"],
"return code of splinterdb_open and contents afterwards")
p("C06","Storage faults are never turned into silent data loss or corruption",
"When reads or writes fail, come up short, are retried, delayed, reordered or interrupted, or the device has no room left, every operation either returns an error, or stops the process, or behaves as if the fault had not happened. No operation acknowledges a write that is later missing, and no read or scan returns a wrong value, stale value or false absence because of a fault.",
["fault_sequences","schedules","histories"],
"all placements of I/O errors, short transfers, submission refusals, interrupted waits, delayed and reordered completions and space exhaustion",
"No existing test injects a storage fault.",
["src/platform_linux/laio.c","src/clockcache.c","src/rc_allocator.c","src/mini_allocator.c","src/trunk.c"],
["laio_callback result handling, laio_write_async/read_async submission retry","clockcache read/write callbacks","STATUS_NO_SPACE propagation from the allocator"],
"API results and later contents under injected faults")
p("C07","Disk space is conserved: nothing leaks, nothing live is freed",
"Once background work has quiesced, the set of disk extents accounted as in use is exactly the set reachable from the live database, so deleting everything and letting compaction finish returns the space, and space in use stays bounded under endless overwrite churn. No extent is released while any lookup, iterator or structure can still reach it, and the accounting survives close and reopen unchanged.",
["histories","schedules","configurations"],
"all operation histories and schedules, with iterators and lookups in flight, over many sessions",
"Tests check allocation counts at most at final destroy of tiny trees, never against reachability or across sessions.",
["src/rc_allocator.c","src/mini_allocator.c","src/trunk.c","src/btree.c","src/routing_filter.c","src/memtable.c"],
["allocator ref counts, mini_allocator keyed/unkeyed inc/dec ref","trunk branch/filter ref counting in flush, compact, split, gc","rc_allocator persistence at unmount"],
"allocator in-use count and reference counts compared with a reachability walk; space in use over churn")
p("C08","Every operation completes: no deadlock, livelock or lost wakeup",
"Under any schedule in which every runnable thread keeps being scheduled and outstanding I/O eventually completes, each API call (insert, delete, update, lookup, iterator moves, registration, flush, close) returns within a bounded number of steps, whatever the number of threads, background threads, cache size and queue settings. Writers stalled on full buffers always resume.",
["schedules","configurations","fault_sequences"],
"all fair schedules after arbitrary unfair prefixes, all thread mixes and valid resource limits, delayed I/O",
"A hang needs a specific preemption among lock, claim, pin, queue and generation waits; tests run schedules that do not hit it.",
["src/task.c","src/memtable.c","src/clockcache.c","src/trunk.c","src/platform_linux/platform.c","src/platform_linux/laio.c"],
["memtable_maybe_rotate_and_begin_insert and incorporation turn taking","task queues, condition variables and throttling","cache eviction and claim/lock spinning, batch rwlocks"],
"return of every call within a step bound under a fair scheduler")
p("C09","The page cache is coherent and its page locks exclude",
"For any mix of threads allocating, reading (sync, async, prefetch), share-locking, claiming, write-locking, pinning, dirtying, flushing and dropping pages with a cache far smaller than the data, a reader under a share lock always sees exactly the last contents written under a write lock, unchanging while it holds the lock; at most one thread holds a claim, a write lock excludes all others, and a pinned or locked page is never evicted. After a flush with no concurrent writer the device holds the current contents of every page.",
["schedules","histories","fault_sequences","configurations"],
"all interleavings of page operations with eviction, writeback and I/O completion order",
"The cache tests are single-threaded or statistical and never control I/O completion order or preemption inside the entry state machine.",
["src/clockcache.c","src/cache.h"],
["clockcache_get/try_get_read/try_get_write/claim/lock state flags and per-thread ref counts","clockcache_evict_batch, batch_start_writeback, read/write callbacks","clockcache_extent_discard, page_sync, extent_sync, flush"],
"page contents seen under locks; device contents after flush")
p("C10","Every background task runs exactly once and shutdown drains them",
"Each enqueued task is executed exactly once, by exactly one thread, after it was enqueued; tasks of one kind start in the order they were queued when one thread serves them; waiting for quiescence returns only when no task is queued or running, and stopping the workers returns without losing a running task. This holds for any number of foreground and background threads, and for foreground threads that help out.",
["schedules","configurations"],
"all interleavings of enqueuers, workers, helpers, quiesce and shutdown; all thread counts",
"The task tests enqueue a few tasks under whatever schedule the OS gives.",
["src/task.c","src/task.h"],
["task_enqueue, task_group_perform_one, worker loop with condition variable","task_perform_until_quiescent, task_group_stop_and_wait_for_threads"],
"per-task execution counts and order recorded by the tasks themselves")
p("C11","The extent allocator never double-allocates and conserves references",
"Concurrent allocation, reference increments and decrements never give one extent to two owners, never hand out an extent whose last reference is not gone, never lose or invent a reference, and succeed whenever enough free extents exist for all callers. Reference counts and the in-use total are the same before and after a close and reopen, and exhaustion is reported as an error.",
["schedules","histories","crash_points"],
"all interleavings of allocate/inc/dec by many threads up to exhaustion, over many sessions",
"The allocator test is single-threaded and tiny.",
["src/rc_allocator.c","src/allocator.h"],
["rc_allocator_alloc hand scan with compare-and-swap on ref counts","rc_allocator_inc_ref/dec_ref","rc_allocator_mount/unmount, super-block address registration"],
"addresses returned and reference counts observed")
p("C12","The shared-memory heap never hands out overlapping or foreign memory",
"Any concurrent mix of allocate, reallocate and free on a shared segment returns only blocks that lie inside the segment, are properly aligned, large enough and disjoint from every other live block, preserves the contents of a block until it is freed, and fails cleanly when the segment is exhausted. Freed memory of recycled sizes becomes available again, and destroying the heap never affects other heaps.",
["schedules","histories","inputs"],
"all interleavings of allocation calls of all sizes by many threads, up to exhaustion",
"The shared-memory tests check a few single-threaded size patterns.",
["src/platform_linux/shmem.c","src/platform_linux/platform.c","src/platform_linux/platform_inline.h"],
["platform_shm_alloc/realloc/free, large fragment tracker, small fragment free lists","platform_heap_create/destroy"],
"block addresses and contents over the history")
p("C13","Thread registration gives unique, reusable identities",
"At any moment every registered thread (explicitly registered or started by the library) has an identity and scratch space shared with no other live registered thread; identities come back after deregistration so that registering works indefinitely as long as the number of live threads is within the limit, and exceeding the limit or running out of memory is reported without disturbing the others.",
["schedules","histories","fault_sequences"],
"all interleavings of register/deregister/create-thread by many threads, over unboundedly many cycles and memory failures",
"Tests register a few threads in a fixed order.",
["src/task.c","src/splinterdb.c"],
["task_allocate_threadid/deallocate bitmask compare-and-swap","task_register_hook/deregister scratch management","task_create_thread_with_hooks"],
"identity and scratch pointers seen by each registered thread")
p("C14","Asynchronous lookups return the same answers as synchronous ones",
"A lookup issued through the asynchronous interface, suspended on any number of page reads and resumed in any order and at any later time, completes exactly once and returns a value some linearizable synchronous lookup over the same interval could have returned. Many outstanding lookups per thread, concurrent writers, flushes, compaction, and slow or reordered reads do not change this.",
["schedules","histories","fault_sequences"],
"all interleavings of async state machine steps, I/O completions, writers and background work",
"Async lookups are exercised only by throughput tests that compare static data.",
["src/trunk.c","src/btree.c","src/routing_filter.c","src/clockcache.c"],
["trunk_lookup_async state machine","btree_lookup_async, routing_filter_lookup_async","clockcache_get_async and read completion callbacks"],
"results of asynchronous lookups against the recorded history")
p("C15","The write-ahead log replays a true record of what was logged",
"After the log has been written out and everything volatile is dropped, iterating the log yields every record of its written-out complete pages, up to the first page that was not completed, exactly once with the key, message and type it was written with, in generation order, whatever number of threads logged concurrently. Iteration stops at the first page that is not part of this log instead of returning stale, torn or foreign bytes.",
["schedules","crash_points","histories"],
"all interleavings of logging threads, all volumes spanning pages and extents, all points at which volatile state is dropped",
"The log test covers one or few threads, clean page boundaries and no torn state.",
["src/shard_log.c","src/log.h"],
["shard_log_write per-thread pages and page sealing","shard_log_iterator_init sorting by generation, shard_log_valid checksum/magic"],
"records returned by the log iterator")
p("C16","The B-tree stays ordered and complete under concurrent inserts",
"Concurrent inserts, overwrites, merges and splits in one B-tree never lose, duplicate or misplace an entry: every lookup or iteration concurrent with them sees each completed insert and entries in key order, and every insert's reported generation and was-new flags agree with the contents. Packing an iterator into a new tree reproduces exactly its entries, and lookups, iterators in both directions, counts and ranges on it agree.",
["schedules","inputs","histories"],
"all interleavings of inserters, readers and iterators; all key orders and sizes; all packings",
"The concurrent B-tree stress test samples few OS schedules with fixed sizes.",
["src/btree.c","src/btree_private.h","src/mini_allocator.c"],
["btree_insert with leaf/index/root splits, claim upgrade retries and lock coupling","btree_iterator, btree_pack, btree_count_in_range"],
"results of btree insert/lookup/iterate")
p("C17","Locks, spinlocks and batch read-write locks exclude and release",
"For the library's own lock types, a writer never overlaps with a reader or writer of the same lock, at most one claimant exists, readers may share, holders of different locks do not affect each other, and once all holders release, the next waiter always gets in. Data published under the lock by one holder is seen whole by the next.",
["schedules"],
"all interleavings of get/claim/lock/unlock/unclaim/unget by many threads over many lock indices",
"Lock tests run on OS schedules and cannot preempt inside the few instructions of an acquire.",
["src/platform_linux/platform.c","src/platform_linux/platform_inline.h","src/platform_linux/platform.h"],
["platform_batch_rwlock_get/claim/lock/full_unlock","platform_mutex, platform_spinlock, platform_condvar"],
"critical-section occupancy observed by lock users")
p("C18","Failing to create, open or start up is clean and repeatable",
"If memory allocation, file or asynchronous-I/O setup fails anywhere inside create, open, thread registration, lookup or iterator creation, the call returns an error (or stops the process with a diagnostic) without corrupting memory, without leaving a half-open database, and without damaging an existing database file: the same call without the failure then succeeds and all earlier data is intact. Nothing acquired by the failed call stays held.",
["fault_sequences","configurations"],
"all choices of which allocation or system call fails during create/open/use, alone or repeatedly",
"No existing test makes an allocation or system call fail.",
["src/splinterdb.c","src/task.c","src/clockcache.c","src/rc_allocator.c","src/platform_linux/laio.c","src/platform_linux/platform.c"],
["unwind labels in splinterdb_create_or_open","clockcache_init/rc_allocator_init/task_system_create failure paths","io_handle_init"],
"return codes, resources held and later success after an injected failure")
p("C19","Filters never hide an existing key",
"A membership filter built by any sequence of incremental additions answers, for every key ever added, with a set of candidate runs that includes every run the key was added with, through synchronous and asynchronous queries, while pages are evicted and reread and other threads query, add and release filters concurrently. Building from an existing filter leaves that older filter's answers unchanged, and releasing one never damages another that shares storage.",
["inputs","schedules","histories"],
"all key sets, all filter parameters and addition sequences, all schedules of concurrent queries, releases and evictions",
"The filter test uses one thread, one key distribution, one parameter set.",
["src/routing_filter.c","src/PackedArray.c"],
["routing_filter_add, block encoding and index splitting","routing_filter_lookup and lookup_async","routing_filter_zap and mini_allocator ref counts"],
"candidate sets returned by filter queries")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
