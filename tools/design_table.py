D["T01"] = """Workload: threads (1-6) nest, try and release Mutex/StaticMutex/AutoLock; waiters and signallers on MutexCond; Once and ThreadSingleton first use.
Oracle: holder counter under each lock, owner/nesting model, try-lock results against the model, each signal wakes at least one waiter and a broadcast all of them (bounded-progress check after faults stop), destructors of per-thread singletons run once. Faults: preemption (also inside memory accesses), spurious wake-ups, delays."""
D["T02"] = """Workload: pools of 1-8 workers, resize during the run, tasks pushed singly and as lists, tasks that throw, destruction at any moment.
Oracle: each task executed once and destroyed once; wait() returns only after all tasks pushed before have ended; no hang (deadlock detector of the scheduler)."""
D["T03"] = """Workload: controllers of owned/unowned threads that end, throw, are stopped, waited, killed; failing thread creation is not injected (the code has no defined behaviour for it).
Oracle: run() once, start() returns after the body is under way, stop observed within bounded steps, destroyed once."""
D["T04"] = """Producers and consumers on one eckit::Queue with close/interrupt/resize. Oracle: linearizability of the complete call/return history against a sequential bounded queue (Wing-Gong search with memoisation, short histories), blocked calls only while the model blocks."""
D["T05"] = """ProducerConsumer with failing producers/consumers at each stage. Oracle: payload sequence is the produced prefix, failure reaches the caller, all tasks end."""
D["T06"] = """Shared Counted objects, SharedBuffer, Value, Message handed between threads. Oracle: destructor counters, canaries of the allocator (freed memory is poisoned, double free detected), contents."""
D["I01"] = """AsyncHandle over a simulated sink with short/failed writes, several open/close cycles, destruction without close. Oracle: sink holds exactly the accepted bytes, error reported by close at the latest, writer thread ended."""
D["I02"] = """AIOHandle; aio_* implemented by the simulator with arbitrary completion order, failures, short and cancelled requests. Oracle: file contents after a clean close, error otherwise."""
D["I03"] = """DblBuffer between simulated handles with short reads, failing reads/writes, announced lengths that are wrong, RestartTransfer at any write. Oracle: destination bytes, returned length, both threads ended, no hang."""
D["I04"] = """saveInto/copyTo/compare over simulated and file handles. Oracle: bytes at destination, count returned, an exception for each injected fault that affects the data."""
D["I05"] = """Random stacks (depth 1-4) of reading handles over simulated stores; operations read/skip/seek/rewind/position/estimate. Oracle: the plain byte sequence and cursor; after an error only 'no wrong data' is required."""
D["I06"] = """Random stacks of writing handles, HandleBuf included. Oracle: the plain byte sequence in each store underneath; error no later than close."""
D["I07"] = """FileHandle, FileStream, StdFile writers with append/overwrite, flush, close; process crash or power failure (un-synchronised data lost in any admissible subset) at a random system call. Oracle: a prefix-preserving model of acknowledged bytes; errors reported."""
D["I08"] = """FilePool lent to threads, more files than capacity, failing open/close. Oracle: one holder per file, bound on idle files, contents, every waiter served."""
D["I09"] = """PooledFile / PooledFileDescriptor / PooledHandle readers in threads. Oracle: each reader's cursor model, number of descriptors open on the file at the end."""
D["I10"] = """CircularBuffer with several threads. Oracle: linearizability against a byte queue."""
D["I11"] = """Readers in several threads over handles with short, failing and torn reads; two message formats and three kinds of the harness; messages copied, assigned and decoded by threads while kinds come and go. Oracle: the messages written, offsets, kind of decoder, contents alive."""
D["S01"] = """Processes and threads contending for FileLock / Semaphore, crashing holders, signals. Oracle: holder set of at most one process, nesting, lock available again after crashes within bounded steps."""
D["S02"] = """MappedArray, SharedMemArray, SharedInt opened by processes which crash anywhere (also during first initialisation), grow, update under the lock. Oracle: initialised once, sum of updates, elements intact."""
D["S03"] = """TxnLog with several workers per process, crash at any system call, recovery by RecoverThread or direct. Oracle: model of each transaction's admissible states; identifiers unique."""
D["S04"] = """BTree with random page sizes, keys in various orders, sets, gets, ranges; concurrent processes with the locking policy; reopen. Oracle: std::map, linearizability per lock session in the concurrent mode. I/O errors only in the single-process mode: a failed write part-way leaves the tree undefined by design."""
D["S05"] = """CacheManager used by processes with the three locking policies, crashing or failing creators, eviction by size limit. Oracle: every returned path holds the complete content of one creator run, created once under a lock with one root, least recently used evicted first, size bound."""
D["S06"] = """Records written by RecordWriter through short/failing channels, crashed or power-failed part-way, damaged in one contiguous stretch (flip, zero, cut, swap); read by Record/RecordItemReader/RecordReader, from streams, and by threads under one Session. Oracle: written metadata and data or an exception, undamaged records readable."""
FALSE += [
 "S06: a record whose writing failed half-way (and said so) and whose bytes were then altered as well is two faults; the index is not covered by a checksum, so such a record is not judged any more.",
 "N02: the server of the harness could leave between its last time-out and the last connection; it now waits once more after everybody has connected.",
 "I05: memory-mapped and raw handles are not composed inside MultiHandle (they reject it by design); PooledHandle announces an unknown length inside MultiHandle; StatsHandle refuses merging.",
 "I06: merging nested MultiHandles drops recorded lengths (the vector constructor is used instead).",
 "I08: the pool may exceed its limit after a capacity() call that itself failed part-way.",
 "I09: PooledHandle has no rewind; its pool is per thread, so sharing is only checked within a thread.",
 "simulator: EINTR was injected into semop/fcntl calls that cannot block; task slots were reused too early; faults still fired after disableAll() during replay (minimised traces were not faithful).",
 "S02: the harness indexed an array beyond its bound. S03: a recoverer only takes over transactions of dead owners, the model allowed more.",
 "S04: no I/O faults in the multi-process mode (see above).",
 "S05: 'created exactly once' holds only with a single cache root; an entry found may be evicted before it is loaded under a size limit.",
]
OPEN += [
 "ThreadControler::stop() on a self-deleting thread that has already ended uses the freed object: the interface cannot tell, callers must not do it (not generated in T03).",
 "CacheManager::touch(): closing the ofstream on the entry drops this process's fcntl lock on the mapping of the same file; it only affects bookkeeping of access times.",
]
D["S07"] = """Processes (some forked after their parent had asked for names, some crashing, some with a reused pid) and threads ask PathName::unique while the wall clock jumps; TmpFile/TmpDir users; concurrent mkdir of overlapping paths with obstacles (a file or a dangling link in the way). Oracle: table of names held by living processes, existence, all ancestors are directories after success, an error only if something failed."""
D["S08"] = """One recycler file used by 1..4 processes of 1..3 threads, sharing one Recycler or opening their own, with values of 9 to 5008 bytes: single and batch push and pop through every overload, and calls made under the user's own lock. Short and failed reads and writes, full disk, failed open, interrupted waits, crashes at any call. Afterwards a last process takes what is left. Oracle: every popped value is whole and was popped once; the complete history is linearizable as a stack whose batch operations are atomic (a call cut by a crash may have left any whole prefix; a refused one nothing); nothing comes between calls under one lock; no error without a fault."""
D["N01"] = """Two processes connected by TCPSocket, TCPHandle/TCPSocketHandle, SockBuf, MultiSocket or a proxied server, one way or both ways at once, over a simulated TCP with small windows, fragmentation, delays, and in some runs one reset, interrupted calls or the crash of one end. Oracle: received bytes are a prefix of the reference stream; a short or failed transfer only with a cause; a stream ends only after everything sent unless the connection broke."""
D["N02"] = """Five kinds of run in simulated time: clients connecting with any retries/delay/timeout to a server that starts late, never, refuses, or is behind a partition; a server accepting with a timeout while clients come and crash; Select over several connections; a busy port; a NetService. Oracle: number of refused attempts at success and failure, elapsed simulated time, sockets left open, alarm handler restored, every connection made is accepted once, ready descriptors really are, every client of a service is served."""
D["N03"] = """One or two node processes (crashing, closing connections part-way, refusing logins, answering with errors) and client processes with threads calling them over Connector: locked, nested in the middle of other calls, memoized, abandoned part-way, with a connection time limit. Oracle: every reply carries the number, key and node of its request and the right data, nodes only ever see whole requests, remembered answers are those of the identical request within its life time; failures only after a disturbance; once faults stop every call succeeds."""
D["R02"] = """Processes (forked before and after their parent registered; ending, exiting without destructors, or crashing anywhere) and their threads register with a monitor of few slots, publish what they do, and unregister; more tasks than slots come and go. Oracle: slots of living tasks are distinct, contents belong to the owner, a registration is refused only when as many tasks as slots are alive, an ended task gives its slot back. Not covered: a process id used again by an unrelated process."""
D["F01"] = """Processes (some crashing) and threads open one list by name or descriptor and push at both ends, walk it in both directions, pop and erase, in phases: insertions only, removals at one end, both at once, one task alone. Oracle: at each quiescent point the elements are exactly those inserted and not removed, in an allowed order, forward and backward the same, size right; number of removals = number of elements gone; a queue loses its first elements; traversals terminate and meet only elements inserted. Backward traversal and size are not checked after a crash."""
D["R03"] = """Processes and threads refresh, take off and on line, forget, clean up, select and look up nodes of a few names and types in one registry, sometimes nearly full, with names and attribute lists at their limits, while time passes; readers are killed while holding the lock. Oracle: linearizability of the whole history against a sequential model with time intervals; no two entries for a node and type."""
FALSE += [
 "simulator: the open-error fault was injected into the simulator's own removal of the tree at a power failure, so a file survived that the model did not know (I07, seen by vcheck).",
 "N03: the harness forgot that a second call in one memoized section may have been remembered earlier. R03: the filler nodes shared an address with others.",
]

D["F02"] = """Processes (some crashing, some with sessions and maps of their own) and threads use one map with keys chosen to collide in one to four buckets: each key has one owner, who inserts, replaces, multiplies, erases and looks up, or is used by everybody; others look up and iterate; the map's lock is taken with clocks going back, or forward past the lease; fabric memory may run out. Oracle: owners read their own writes with exact counts; readers meet only values that could be there, and miss none that was there all the time (also during a replacement); entries of shared keys = insertions minus removals; at each quiescent point iteration, find, count and size agree; merge and clear. After a crash the size may be off by two for each operation cut short."""
FALSE += [
 "simulator: writing to a closed peer marked the connection as reset but left bytes in flight to the writer, which were then delivered after the end had been read (N01, seen once in 26000 runs by vcheck).",
 "R02: a task whose slot was given back by its own destructor was still counted as alive (harness).",
 "F01: an element whose inserter died may have been inserted and popped before the end of the phase; the count of removals did not allow for it (harness).",
]
OPEN += [
 "Monitor: an abort request (TaskInfo::abort) while a SavedStatus of an exception is alive makes a destructor throw, which terminates the process; not generated in R02.",
 "Monitor: a task whose first attempt to open the monitor file fails stays unmonitored for its life; retrying inside the constructor is unsafe because exception destructors use the monitor.",
]

FALSE += [
 "F02: several harness mistakes found while writing it (bookkeeping at a crash, leases that had expired before the lock was taken, clear() waiting for the lease of a dead holder).",
]

D["N04"] = """A producer process and one to four worker processes (coming late, leaving before they ask, failing in their work, crashing, losing their connection) run Producer, Consumer and TCPTransport over a simulated network with small windows, fragmentation, delays and resets; messages of several kinds, some beyond the 1 MB buffer. Oracle: each message received equals the one sent and is received at most once; messages received by nobody <= workers lost; reports reach the producer once and unaltered; the producer's run ends, also when all workers are gone; nothing fails without a cause."""
D["N05"] = """Random sequences of 40 kinds of values and objects (scalars with extreme values, strings, blobs, containers, nested Values, handles, node descriptions, matrices, user classes, raw objects, exceptions) are written by one or two threads (each item under the stream's lock) to memory, files, handles that give and take crumbs, std::fstream, pipes and TCP connections, with short, failing and interrupted transfers, resets and crashes; the channel is also cut at any byte, and the reader may ask for a value of another kind. Oracle: everything read equals what was sent in order; the end is announced only after everything that reached the channel; an error only with a cause; a value of another kind is refused."""
OPEN += [
 "N04: the transport cannot know whether a worker that died had received its last message; the loss of one message per lost worker is inherent in the protocol and is part of the property's statement.",
 "Message (distributed) and ResizableMemoryStream: reading past what was received returns what the buffer held before; not generated in N04/N05.",
]
FALSE += [
 "N04: a worker that connected and died before it asked for work was not counted as lost; N05: a writer may fail once the reader has left after a mismatch (harness).",
]

D["R01"] = """One to four threads log lines of length 0 to 5200 (around the sizes of all buffers), in pieces, ended by newline, endl or flush, through channels of their own or the thread's info/error channel, with random stacks of prefix, suffix, indentation, time-stamp, tee and callback targets over one or two rotating logs with buffers of 0 to 64 KB; the clock jumps over midnight in mid-line; writes are short, interrupted, failing or out of space and files cannot be opened, for a while. Oracle: the files parsed line by line against what each thread wrote: each line once, in order, as decorated, in the file of an allowed day; after errors stop, later lines must all be there. User messages are compared one by one. Lines flushed when incomplete are generated with one thread and no change of day only."""
OPEN += [
 "R01: several threads writing to std::cout or to several FileTargets on one path can mix within a line (those targets promise nothing; the property is about rotating logs).",
]
FALSE += [
 "R01: what a target closer to the file adds comes first; the harness expected the opposite.",
]

D["T07"] = """One to three producers push requests on a dispatcher of zero (growing) to four threads with handlers that pick one, several, or only requests whose resource is free, take virtual time, fail, and linger when idle; others reconfigure the number of threads through the resources, list, and dequeue. Oracle: state of each request at pick, handling, deletion and dequeue; order of picks; threads at once; after faults stop all requests are handled within a bound of virtual time."""
OPEN += [
 "ClassExtent registers an object from its base constructor, so listing all (Monitorable::allStatuses, Configurable::reconfigureAll) while another thread constructs one calls into an object under construction; structural, not repaired; T07 lists only while no threads come up.",
]
FALSE += ["T07: a stop signal left in the queue was taken for a request; the harness's own table of resources was used without protection."]

D["T08"] = """One to four threads throw exceptions of several kinds, nest them, keep them as exception_ptr, copy, assign and rethrow them, hand them to each other, and let them outlive their thread; the list of each thread and whether it is throwing are compared with a model after each step, allowing for those being destroyed elsewhere at that moment."""

D["R05"] = """An administrator rewrites configuration files, announces, forgets, resets and receives disks of the cluster, and changes sizes and availability of file systems, while threads of one or two processes select by every strategy, ask for owners, nodes and lists. Names of which one begins another, long comments, full tables; opening and reading configuration files fail. Oracle: the versions that were in effect during each call; with one version only, exactly what the rule of the strategy gives; in the end the whole list, one round of round-robin, and the shares of the random strategies within seven standard deviations. Paths of other nodes are the scenario's, freed memory is poisoned."""
D["R04"] = """One to three threads ask for shared and private resources (of a type whose assignment takes time, texts, numbers) of random owners with random command lines, environments and configuration files (comments, invalid lines, long lines and names, blanks, later files overriding earlier ones), while a value is set at run time and, in a quiet moment, everything is reconfigured; look up a table that is replaced and reloaded meanwhile; or read a library's configuration for the first time. Reads of files are short. Oracle: the value computed from the generated text by the rules of precedence; a value handed out is never written again; a look-up in a table gives a line of a version allowed at that time. Freed memory is poisoned."""
FALSE += ["R04: an option followed by a word that is no number was expected to give that word for a resource that is a number; the times of the table file were those of the real clock (a run was not repeatable)."]
OPEN += ["EtcTable: a line with the wrong number of words is said to be ignored but is kept; ResourceMgr::set before the first look-up is overridden by the files."]
