# Which simulations decide which property. n: runs in the quick tier (thorough: 40 times as many).
REAL_ALL=["splinterdb.c","trunk.c","memtable.c","btree.c","merge.c","routing_filter.c","PackedArray.c","clockcache.c","mini_allocator.c","rc_allocator.c","shard_log.c","task.c","data_internal.c","util.c","platform_linux/laio.c","platform_linux/platform.c","platform_linux/shmem.c"]
STUB=["operating-system threads, mutexes and condition variables (fibers under the seeded scheduler)","clock and sleep","file system, block device and libaio (simulated device in memory)","malloc, mmap and System V shared memory (checked arena)","application data_config callbacks (harness)"]
ASSUME=["sequentially consistent memory: reorderings of a weak memory model are not simulated","every memory access of the library is a possible preemption point; preemption inside one machine instruction is not possible","a violation not reached by the explored seeds stays unseen"]
M_KV="A run is one or more sessions of a whole database: a seeded configuration (key and value shapes, memtable, fanout, cache, threads) and seeded client programs, under a seeded schedule with preemption at any memory access."
JOBS={
 "C01":[dict(h="kv",profile="point",n=2000),dict(h="kv",profile="point",opts=dict(p0=16,p4=1),n=400,name="kv/point-small-cache"),dict(h="kv",profile="point",opts=dict(p6=1),n=72,name="kv/point-deep")],
 "C02":[dict(h="kv",profile="update",n=1400),dict(h="kv",profile="update",opts=dict(p6=1),n=72,name="kv/update-deep")],
 "C03":[dict(h="kv",profile="scan",n=1400),dict(h="kv",profile="scan",opts=dict(p6=1),n=64,name="kv/scan-deep")],
 "C04":[dict(h="kv",profile="reopen",n=1200),dict(h="kv",profile="reopen",opts=dict(p6=1),n=32,name="kv/reopen-deep")],
 "C05":[dict(h="kv",profile="crash",n=400)],
 "C06":[dict(h="kv",profile="iofault",n=1600),dict(h="kv",profile="diskfull",n=1200)],
 "C07":[dict(h="kv",profile="space",n=800),dict(h="kv",profile="churn",n=80),dict(h="kv",profile="space",opts=dict(p6=1),n=32,name="kv/space-deep")],
 "C08":[dict(h="kv",profile="progress",n=1200),dict(h="kv",profile="progress",opts=dict(p6=1),n=32,name="kv/progress-deep")],
 "C09":[dict(h="cache",n=8000)],
 "C10":[dict(h="task",n=60000)],
 "C11":[dict(h="alloc",n=16000)],
 "C12":[dict(h="shm",n=8000)],
 "C13":[dict(h="task",profile="reg",n=24000)],
 "C14":[dict(h="kv",profile="async",n=1200)],
 "C15":[dict(h="log",n=10000)],
 "C16":[dict(h="btree",n=5000)],
 "C17":[dict(h="locks",n=80000)],
 "C19":[dict(h="filter",n=5000)],
 "C18":[dict(h="kv",profile="initfail",n=500)],
}
M_U="A run drives the real component through its own interface from several simulated threads, with a seeded configuration, seeded programs and a seeded schedule (preemption at any memory access of the library, stalls, priority changes). "
def meta(level,rule,note,real=REAL_ALL,stub=STUB,assume=()): return dict(level=level,rule=rule,note=note,real=real,stub=stub,assume=list(assume)+ASSUME)
META={
 "C01":meta("exploration",M_KV+" Oracle: every recorded call is checked per key for linearizability against a register model with insert, delete and update.","Seeded search; every explored run is checked completely, unexplored schedules are not."),
 "C02":meta("exploration",M_KV+" Updates carry affine functions modulo 2^64 and a count, so that order, loss and duplication all change the value; oracle as for C01, and every merge callback checks its arguments.","Seeded search over runs heavy in blind updates on shared keys."),
 "C03":meta("exploration",M_KV+" Clients scan in both directions with random turns; each key returned or skipped is a read of that key over the scan's interval, checked with the writes for linearizability; order, duplicates and valid/can_next/can_prev are checked at every move.","Seeded search over scans concurrent with writers and background work."),
 "C04":meta("exploration",M_KV+" Several sessions with seeded thread counts and cache sizes are closed and reopened; all keys are read and scanned in both directions before and after.","Seeded search over session histories."),
 "C05":meta("fault_enumeration",M_KV+" A history of sessions ends in one whose process dies: the session is executed once to learn its course, then repeated from the same device image and killed at several points, at an arbitrary instruction or device write, in create, open, use and close; every in-flight write arrives whole, torn at a sector or not at all. The file may have held something else before. Oracle: the next open fails, or serves exactly the contents before a session that had not opened yet, or those at close when closing had begun; it must succeed when close had returned and must fail when a session with acknowledged writes had not closed; after success the database is read completely, used under the usual oracles, closed and reopened; after refusal it can be created anew.","Seeded crash points: eight per run, biased to the beginning and end of open and close. A completed write call counts as durable (the library never calls fsync; loss of completed writes in a power failure is not simulated)."),
 "C06":meta("fault_enumeration",M_KV+" Reads and writes, synchronous and asynchronous, fail or come up short, submissions are refused and waits interrupted, at seeded rates from one fault to one in two, from create, open, use or close on; or the device is so small that it fills. Oracle: every answer given is right (linearizability of all that was answered); a stop of the process is accepted only after a transfer failed or the device was full, and what it leaves behind is then judged as a crash (C05); an open refused because of a fault must succeed, with the same contents, without the fault; memory errors, hangs and wrong answers are violations.","Seeded fault sequences. Media errors that return wrong bytes without an error are out of scope: pages carry no checksums."),
 "C07":meta("exploration",M_KV+" Several sessions with rounds of writing; at the end the database is destroyed through the library's own walk over everything reachable, after which the allocator must have exactly as much in use as for an empty database that was destroyed (so that a leak, at any point of any session, and a double release both show). Space in use at quiescence is bounded by the live data, sessions that do nothing leave it unchanged, and freed extents are overwritten on the device so that any later use of them shows.","Seeded search. The trunk's superseded nodes and the log are never released while the database is open: two open findings, demonstrated on every run and excluded from the bound (not from the final account)."),
 "C08":meta("exploration",M_KV+" Up to 14 clients on as few as 16 cache pages per thread; when no call completes for a long time the scheduler turns fair (round robin, quick I/O, no faults) and a call must then complete within a bounded number of steps; a deadlock of all threads is reported at once, and quiescence and close must also return.","Seeded search; liveness is decided as progress within a bounded number of fair steps."),
 "C09":meta("exploration",M_U+"Clients allocate, read (blocking, non-blocking, asynchronous), claim, lock, write, pin, prefetch, sync and discard pages of more extents than fit in the cache, over several sessions. Oracle: a model of every page's version and of its readers, claim and writer: a reader sees exactly the last version, whole and unchanging; locks exclude; a pinned page stays; what the device holds of a page is at any time one of its versions as a whole and never an older one; after a flush or sync it is the newest; asynchronous reads complete exactly once; a discarded extent leaves nothing behind.","Seeded search; caches of 64 to 512 pages with room for an extent being prefetched per thread.",real=["clockcache.c","rc_allocator.c","task.c","platform_linux/*.c"]),
 "C10":meta("exploration",M_U+"Oracle: a task whose enqueue succeeded starts exactly once, one whose enqueue failed never; a task put at the head overtakes the others of its group when one worker serves it; its scratch space is its thread's and is not shared while it runs; quiescence is not reported while some task was outstanding throughout; everything is done when the system is destroyed, and no thread, memory or aio context remains.","Seeded search; thread-creation and allocation failures are among the injected faults.",real=["task.c","platform_linux/*.c"]),
 "C11":meta("exploration",M_U+"Oracle: a model of which extents are owned, with which number of references, across sessions; exact comparison at every quiescent point and after every remount; no extent is handed out twice; an out-of-space answer is accepted only if the extents certainly free throughout the call can all have been taken by other calls in flight.","Seeded search; device sizes from 8 to 131077 extents.",real=["rc_allocator.c","platform_linux/*.c"]),
 "C12":meta("exploration",M_U+"Clients allocate, zero-allocate, reallocate and free blocks of all sizes and alignments in one or two segments up to exhaustion. Oracle: every block lies inside its segment behind the control block, is aligned, overlaps no live block, and keeps its bytes until it is given back; a request is refused only if the room there was can have been taken by calls under way; oversized requests are always refused; freed large blocks and the last small block are available again; destroying a heap leaves the other one, and its being current, alone.","Seeded search; segments of 256 KiB to 28 MiB. Only the recycling the library implements is demanded (tracked large blocks, the last small block).",real=["platform_linux/shmem.c","platform_linux/platform.c"]),
 "C13":meta("exploration",M_U+"Oracle: live threads have distinct identities below the limit and stable, unshared, zeroed scratch space; registration fails only when the limit can have been reached or an injected fault hit it; freed identities are reusable; task_get_max_tid bounds every live identity.","Seeded search; runs go up to and beyond 64 threads.",real=["task.c","platform_linux/*.c"]),
 "C14":meta("exploration",M_KV+" Clients keep up to eight asynchronous lookups suspended while reads finish out of order, next to synchronous readers and writers; each answer joins the linearizability check, and completion exactly once is checked through the callbacks. Between rounds of asynchronous lookups, the data is moved by writers, flushed and evicted.","Seeded search. Asynchronous lookups running next to garbage collection are a recorded open finding, so phases of asynchronous lookups do not rotate the memtable; the finding is demonstrated on every run."),
 "C15":meta("fault_enumeration",M_U+"Threads log to one or two logs at a time next to other users of the cache; then what is volatile is dropped (the cache is flushed and emptied, the process ends and the device is mounted again, or the process is killed at an arbitrary point, in-flight writes arriving whole, torn or not at all) and the log is iterated, over devices full of the pages of released logs. Oracle: only records of this log, none twice, with their key, message and type, in generation order, each thread's records without a gap; every record in a written-out complete page that no incomplete page precedes is there.","Seeded schedules and kill points. Iteration ends at the first page that was not completed, so the records in the pages behind the oldest partial page are not demanded.",real=["shard_log.c","mini_allocator.c","clockcache.c","rc_allocator.c","task.c","platform_linux/*.c"]),
 "C16":meta("exploration",M_U+"Phase one: threads insert into, look up in and scan one memtable tree (also with refused allocations). Oracle: the writes of a key are ordered by their generations, consistently with real time; exactly the first reports a new key; every read is the state after a prefix of the writes that lies between those completed before it and those begun before its end, never going back; scans skip nothing that was there before. Phase two, over a cache smaller than the trees: trees are packed from the harness, from ranges of other trees and from the memtable tree (with entry limits), and looked up (also asynchronously), scanned with seeks and turns, counted, shared, split and given up by range; oracle: exact contents, fingerprints and statistics, and at the end every extent is free again.","Seeded search; trees of up to 4000 entries, height up to 3, 6 threads. Node-level torn reads inside one library call cannot occur except at the library's own synchronisation points.",real=["btree.c","mini_allocator.c","clockcache.c","rc_allocator.c","data_internal.c","task.c","platform_linux/*.c"]),
 "C17":meta("exploration",M_U+"Oracle: mutual exclusion is checked on plain memory guarded by each lock; claim and lock obey the three-level protocol of the batch read-write lock (readers exclude writers, one claim at a time, get/claim/lock/unlock/unclaim/unget in any legal order); no run may stop making progress under fair scheduling.","Seeded search at single-access preemption granularity; sequentially consistent memory.",real=["distributed/batch read-write lock","platform_linux/platform.c locks, mutexes, condition variables"]),
 "C19":meta("exploration",M_U+"Parameters come from trunk_config_init over the public settings. Threads build filters, add to them with further values, share them, give them up, query them (also asynchronously), and estimate unions, over a cache that is mostly smaller than the filters; phases start with nothing cached; allocations are refused in some runs. Oracle: a filter stores whole fingerprints, so its answer is known exactly (the values with which a key of that fingerprint was added): nothing missing, nothing invented, visited from the highest value down; the older filter answers as before; fingerprint counts and estimates are exact; at the end every extent is free again.","Seeded search; filters of up to 60000 fingerprints, values up to 62, hashes which spread the keys, index sizes up to 512 (larger ones overflow: known finding filter-index-overflow).",real=["routing_filter.c","PackedArray.c","mini_allocator.c","clockcache.c","rc_allocator.c","trunk.c (configuration)","task.c","platform_linux/*.c"]),
 "C18":meta("fault_enumeration",M_KV+" Allocations, mappings, shared memory, file and aio set-up, thread and mutex creation fail at seeded points of create, open, start-up and of reads; the caller gets an error (or, where the library documents no error, the process stops with a diagnostic), nothing stays held, nothing on disk is lost and the same call succeeds once the fault is gone. Oracle: heap, mapping, descriptor, aio-context, thread and shared-segment accounting of the simulator after every failed call; contents as before (C05 and C01 oracles); use of destroyed mutexes and memory errors are violations.","Seeded fault sequences. A process that stops with a diagnostic when an allocation is refused is accepted as long as nothing is lost."),
}
