#!/usr/bin/env python3
"""Generates properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))
S, C, I, H, F, G, CF = "schedules", "crash_points", "inputs", "histories", "fault_sequences", "programs", "configurations"
B = "src/eckit/"

# ---------------------------------------------------------------- threads
p("T01", "Locks exclude, recursive locks nest, and no condition wake-up is lost",
  "At any moment at most one thread holds a given lock; a recursive lock is released only when every nested acquisition by its owner has been released, and a try-lock never blocks and never succeeds while another thread holds it. "
  "A thread waiting on a condition resumes, holding the lock, after a signal (one waiter) or broadcast (all waiters) sent while it was waiting, and a timed wait reports a timeout only once its deadline has passed on the clock. "
  "Initialise-once objects are constructed exactly once and per-thread objects exactly once per thread, no matter how many threads race for them.",
  [S, F, H], "every interleaving of lock/try-lock/unlock/wait/timed wait/signal/broadcast by several threads, including spurious wake-ups and clock jumps",
  "The unit tests run a handful of OS-chosen interleavings on real threads; a lost wake-up or an exclusion hole needs a preemption at one particular instruction.",
  [B+"thread/Mutex.cc", B+"thread/MutexCond.cc", B+"thread/StaticMutex.cc", B+"thread/AutoLock.h", B+"thread/Once.h", B+"thread/ThreadSingleton.h"],
  [("recursive pthread mutex", B+"thread/Mutex.cc"), ("mutex and condition pair with absolute deadline", B+"thread/MutexCond.cc"), ("pthread_once guarded initialisation", B+"thread/StaticMutex.cc"), ("thread-specific storage with pthread_once key", B+"thread/ThreadSingleton.h")],
  ["values protected by the lock", "return value of timed wait", "constructor counters"])
p("T02", "A thread pool runs every task exactly once and its waits mean what they say",
  "Every task handed to a thread pool, one at a time or as a list, is run exactly once and destroyed exactly once, by some worker, whatever the pool size and however the pool is resized while tasks run. "
  "Waiting for the tasks returns once, and only once, every task pushed before has finished; waiting for the threads (or destroying the pool) returns only after all queued tasks ran and all workers ended, and reports an error if any task failed. "
  "No call hangs.",
  [S, I, F], "every interleaving of pushers, waiters, resizes and workers, for every pool size, task count and pattern of failing tasks",
  "tests/thread exercises one pool with sleeps; start-up races (waiting before any worker has been counted, pushing while workers start) never happen there.",
  [B+"thread/ThreadPool.cc", B+"thread/ThreadPool.h", B+"thread/ThreadControler.cc"],
  [("task queue under a condition-mutex", B+"thread/ThreadPool.cc"), ("running/active task counters", B+"thread/ThreadPool.cc")],
  ["task run/delete counters", "return of wait and waitForThreads"])
p("T03", "Starting a controlled thread hands over exactly once and stop/join terminate",
  "Starting a controlled thread returns only when the new thread is under way, its body is run exactly once, and its object is destroyed exactly once when it is owned by the controller. "
  "After a stop request the body observes it in bounded time, waiting for the thread returns only after the body ended, and a failing body never prevents a waiter from returning. ",
  [S, F], "every interleaving of starter, body, stopper and waiter, including thread-creation failure",
  "Tests start threads and wait for them under whatever schedule the kernel picks, practically always the same one.",
  [B+"thread/ThreadControler.cc", B+"thread/Thread.cc", B+"thread/Thread.h"],
  [("running flag handshake under a condition-mutex", B+"thread/ThreadControler.cc"), ("stop flag under mutex", B+"thread/Thread.cc")],
  ["body invocation counters", "join return"])
p("T04", "The bounded queue is a linearizable FIFO with clean close and interrupt",
  "The bounded blocking queue never holds more than its capacity, delivers every element exactly once in an order consistent with the order of completed pushes, and blocks producers only while full and consumers only while empty. "
  "After close, consumers receive everything already accepted and then the end indication, and as it drains nobody stays blocked; after an interrupt every blocked or later caller receives the interrupting error. ",
  [S, H, I], "every interleaving of any number of producers, consumers, closers, interrupters and resizers, with spurious wake-ups",
  "The queue tests use few threads and check totals; ordering, over-capacity, a missed notification on close, or a consumer left behind need a specific interleaving.",
  [B+"container/Queue.h"],
  [("bounded queue with mutex and two condition variables", B+"container/Queue.h")],
  ["pop/push results", "completion of all callers"])
p("T05", "A producer/consumer pipeline delivers each payload once, in order, or fails",
  "A producer/consumer run delivers to the consumer exactly the payloads produced, each once and in production order, and returns after the last one is consumed. "
  "If either side fails, the run ends by raising an error to the caller, without hanging and without the consumer seeing a payload that was never produced. ",
  [S, F, I], "every interleaving of the two sides, for every buffer count, payload count and failure position",
  "Tests run it once with a working pair; the error paths on both sides and single-slot configurations are not scheduled.",
  [B+"runtime/ProducerConsumer.h"],
  [("ring of payload slots with ready flags and per-slot conditions", B+"runtime/ProducerConsumer.h")],
  ["sequence of payloads seen by the consumer", "exception reaching the caller"])
p("T06", "Reference-counted objects shared between threads die exactly once, last",
  "An object shared by reference counting between threads is destroyed exactly once, after the last owner let go and never while any owner still holds it. "
  "Shared buffers keep their contents intact for every holder until then. ",
  [S, H], "every interleaving of copies, assignments and releases by several threads",
  "Existing tests count references on one thread.",
  [B+"memory/Counted.h", B+"io/SharedBuffer.h", B+"io/SharedBuffer.cc"],
  [("locked reference count", B+"memory/Counted.h")],
  ["destructor counters", "buffer contents"])

p("T07", "A dispatcher handles every request exactly once and never stalls",
  "Every request pushed on a dispatcher is picked by exactly one of its threads, handled once and deleted once afterwards, or removed by an explicit dequeue; picking excludes other pickers and goes in the order of pushing. "
  "No more threads handle requests at once than configured. Requests are all handled eventually as long as threads are configured, whatever a handler picks or leaves, when handlers fail, and while the number of threads grows or is reconfigured. ",
  [S, H, CF], "every interleaving of pushing, picking, handling, sleeping, reconfiguring and dequeuing",
  "No test uses the dispatcher; its stalls need a thread between looking into the queue and going to sleep.",
  [B+"runtime/Dispatcher.h", B+"config/Configurable.cc", B+"thread/MutexCond.h", B+"thread/ThreadControler.cc"],
  [("template over a handler; queue under a condition", B+"runtime/Dispatcher.h")],
  ["order and number of picks, handlings and deletions"])
p("T08", "The exceptions known of a thread are those made in it that still exist",
  "Whether a thread is said to be throwing, and the stack of exceptions printed for it, reflect exactly the exceptions created (or copied) in that thread that still exist, however they are nested, copied, assigned, rethrown, kept, or handed to another thread and destroyed there in any order. "
  "An exception keeps its type, text and content wherever it is caught, and asking for the stack never touches an exception that is gone. ",
  [S, H], "every interleaving of throwing, keeping, handing over, rethrowing, copying and destroying exceptions in several threads",
  "Tests throw and catch in one thread, in order.",
  [B+"exception/Exceptions.cc", B+"exception/Exceptions.h", B+"os/SignalHandler.cc", B+"thread/ThreadSingleton.h"],
  [("stack of exceptions of each thread", B+"exception/Exceptions.cc")],
  ["throwing(), exceptionStack(), what()"])
# ---------------------------------------------------------------- io
p("I01", "An asynchronous write handle writes every byte once, in order, or reports",
  "Bytes written through an asynchronous handle reach the underlying handle exactly once, in order and unmodified, and are all there once flush or close has returned without error. "
  "If the underlying write fails or is short, an error is raised no later than the close, and neither writing, flushing, closing nor destroying the handle ever hangs. ",
  [S, F, I], "every interleaving of caller and background writer, every split into writes, every buffer configuration, every position of a failing or short underlying write",
  "Tests copy one file through the handle with no failures.",
  [B+"io/AsyncHandle.cc", B+"io/AsyncHandle.h"],
  [("queue of buffers with a background thread and a condition-mutex", B+"io/AsyncHandle.cc")],
  ["bytes in the underlying handle", "exceptions from write/flush/close"])
p("I02", "The kernel asynchronous-I/O handle writes every byte once or reports",
  "A file written through the kernel asynchronous-I/O handle contains, after a close without error, exactly the bytes written, in order, whatever the completion order of the individual requests. "
  "A failed, short or cancelled request raises an error no later than the close. ",
  [S, F, I], "every completion order and delay of outstanding requests, every split into writes, every position of failing or short completions",
  "Real kernels complete these requests quickly, in order and without error in tests.",
  [B+"io/AIOHandle.cc", B+"io/AIOHandle.h"],
  [("fixed array of aiocb slots, suspend and reap", B+"io/AIOHandle.cc")],
  ["file contents", "exceptions"])
p("I03", "A double-buffered copy is exact or fails loudly, and honours restarts",
  "A threaded double-buffered copy transfers exactly the source's bytes, in order, and reports their number; if reading or writing fails, or the source delivers fewer or more bytes than announced, the copy raises an error and never hangs. "
  "When the writer asks to restart from an offset, the destination finally holds exactly the bytes of the source from the restart point on. ",
  [S, F, I], "every interleaving of reader and writer, every buffer count and size, every fault and restart position",
  "Tests copy small files without faults or restarts.",
  [B+"io/DblBuffer.cc", B+"io/DblBuffer.h", B+"io/DataHandle.cc"],
  [("ring of buffers with ready flags", B+"io/DblBuffer.cc"), ("restart request carried from writer to reader", B+"io/DblBuffer.cc")],
  ["destination bytes", "returned length", "exceptions"])
p("I04", "Saving one handle into another is complete and exact, or it raises an error",
  "Copying a data handle into another one (saving, copying) yields at the destination exactly the bytes of the source and reports their number, even when reads return fewer bytes than asked. "
  "A failing read or write, a source that ends before its announced length (or, when saving, goes beyond it), or a short write makes the copy raise an error: it never reports success for incomplete data. Comparing two handles that announce the same length, or an unknown one, says equal exactly when their contents are equal. ",
  [I, F], "every source length, buffer size, sequence of short reads and position of a read/write/open/close failure or restart request",
  "Real files give full-length reads and never fail in tests.",
  [B+"io/DataHandle.cc", B+"io/HandleHolder.cc"],
  [("copy loop with estimate check", B+"io/DataHandle.cc")],
  ["destination bytes", "returned length", "exceptions"])
p("I05", "Reading through any stack of handles equals reading the plain bytes",
  "Reading, skipping, seeking and rewinding through any composition of data handles (buffered, concatenated, partial, peeking, seekable, shared, counting, memory) returns exactly the bytes, positions and lengths that the same operations give on the plain byte sequence they denote. "
  "A source that legally returns fewer bytes than asked never makes data disappear, move or repeat, and a failing source read is reported, not taken for the end of data. ",
  [I, H, F], "every composition, every operation sequence, every pattern of short reads and read failures underneath",
  "Tests use files and memory, which never give short reads before the end.",
  [B+"io/MultiHandle.cc", B+"io/PartHandle.cc", B+"io/PartFileHandle.cc", B+"io/BufferedHandle.cc", B+"io/PeekHandle.cc", B+"io/SeekableHandle.cc", B+"io/SharedHandle.cc", B+"io/StatsHandle.cc", B+"io/MemoryHandle.cc"],
  [("per-handle position bookkeeping", B+"io")],
  ["bytes, return values and positions of each operation"])
p("I06", "Writing through any stack of handles stores exactly the written bytes",
  "Data written through buffered, concatenating, duplicating, counting or memory handles is, once flushed or closed without error, stored exactly once and in order in the handles underneath, with positions reported accordingly. "
  "A failed or short write underneath is reported no later than the close. ",
  [I, H, F], "every composition, every split into writes, every pattern of short or failing writes underneath",
  "Files in tests accept every write in full.",
  [B+"io/BufferedHandle.cc", B+"io/TeeHandle.cc", B+"io/MultiHandle.cc", B+"io/StatsHandle.cc", B+"io/MemoryHandle.cc"],
  [("write buffering and fan-out", B+"io")],
  ["bytes in the underlying handles", "exceptions"])
p("I07", "File data acknowledged by flush or close survives a crash",
  "Once flushing or closing a file handle or file stream opened for writing or appending returned without error, a crash at any later moment leaves the file present with all bytes written before, and appending never damages bytes that were there before. "
  "An I/O error while writing, syncing or closing (including a full disk) is reported to the caller no later than the close; nothing is silently dropped. ",
  [C, F, I, H], "every crash point with every admissible subset of unsynchronised effects, and every short write, disk-full, write-error or sync-error position",
  "No test crashes a machine or fills a disk.",
  [B+"io/FileHandle.cc", B+"io/FDataSync.cc", B+"filesystem/LocalPathName.cc", B+"serialisation/FileStream.cc", B+"io/StdFile.cc"],
  [("fsync of file and parent directory at flush/close", B+"io/FileHandle.cc"), ("write loop with disk-full retry", B+"io/FileHandle.cc")],
  ["file contents in the post-crash image", "exceptions"])
p("I08", "A file pool lends each file to one user at a time and wakes whoever waits",
  "A pool of open files lends a given file to at most one user at a time, keeps no more idle files open than its limit, and returns data written through a lent file to the file. "
  "A user waiting for a file obtains it once it is given back, whatever other files are being waited for, and nobody waits forever when files are given back. ",
  [S, F, H], "every interleaving of borrowers of several files under every pool limit, with failing opens and closes",
  "The test borrows from one or two threads on one file.",
  [B+"io/FilePool.cc", B+"io/FilePool.h"],
  [("in-use map and idle cache under a condition-mutex", B+"io/FilePool.cc")],
  ["set of lent files", "progress of waiting borrowers"])
p("I09", "Pooled readers of one file do not disturb each other",
  "Readers that share pooled descriptors or handles of the same file each see exactly the file's bytes at their own positions, whatever the other readers do in between. "
  "The shared underlying file stays open while any reader has it open and is closed when the last one is gone. ",
  [H, S, F], "every interleaving of operations of several readers over several files, with short reads underneath",
  "Tests read with few readers, mostly one after the other.",
  [B+"io/PooledFile.cc", B+"io/PooledHandle.cc", B+"io/PooledFileDescriptor.cc"],
  [("pool of reference-counted shared entries", B+"io/PooledHandle.cc")],
  ["bytes and positions seen by each reader", "open/close counts of the underlying file"])
p("I10", "The circular byte buffer returns the bytes put in, in order",
  "The growable circular buffer returns, for any sequence of writes, reads and clears from any number of threads, exactly the bytes written and not yet read, in order, and its reported length is their number. "
  "A write that exceeds its capacity is refused with an error and changes nothing. ",
  [S, H, I], "every operation sequence and interleaving",
  "The tests run a few fixed sequences on one thread.",
  [B+"io/CircularBuffer.cc", B+"io/CircularBuffer.h"],
  [("ring with growth under a mutex", B+"io/CircularBuffer.cc")],
  ["bytes read", "reported length"])

p("I11", "A message reader yields each message of a stream whole, once, in order",
  "Reading messages from any handle, whatever pieces its reads return, gives each message exactly once, in order, with its bytes and offset, and then the end; a stream that fails or is torn gives an error and never a made-up message or a premature end. "
  "A message stays what it is for each of its holders, however it is copied and assigned, and is decoded by the decoder of its kind, also when threads read, decode and register kinds at the same time; its content is released once, with its last holder. ",
  [S, H, I], "every stream, fragmentation, fault and interleaving",
  "No test reads messages: the readers' formats come from other packages.",
  [B+"message/Reader.cc", B+"message/Splitter.cc", B+"message/Decoder.cc", B+"message/Message.cc", B+"io/PeekHandle.cc", B+"io/BufferedHandle.cc"],
  [("peek-ahead buffer over a buffered handle", B+"io/PeekHandle.cc"), ("registries under locks", B+"message/Decoder.cc")],
  ["messages read", "decoded bytes", "exceptions"])

# ---------------------------------------------------------------- storage, multi-process
p("S01", "A file lock or named semaphore admits one process and dies with its owner",
  "At most one process at a time holds a given lock file or named semaphore, and inside a process re-acquisition of a semaphore by its holder nests. "
  "When a holder crashes at any point, the lock becomes available to the others; a waiter is granted it in bounded time once it is free, and a signal interrupting the wait never lets a second holder in. ",
  [S, C, F], "every interleaving of several processes acquiring and releasing, crashes of holders at any point, interrupted system calls",
  "Tests use one process, where such locks never conflict.",
  [B+"io/FileLock.cc", B+"io/FileLocker.cc", B+"os/Semaphore.cc", B+"os/SemLocker.cc"],
  [("fcntl record locks", B+"io/FileLocker.cc"), ("System V semaphore with undo", B+"os/Semaphore.cc")],
  ["holder set", "progress of waiters"])
p("S02", "Shared arrays and counters are initialised once and lose no update",
  "Processes opening the same shared array or shared counter concurrently all see one array, initialised exactly once, and updates made under its lock are never lost, torn or reset by another process opening, closing or crashing. "
  "A process crashing at any point, including during the very first initialisation, leaves an array that can be opened again, with every update completed under the lock before. ",
  [S, C, F], "every interleaving of openers and updaters in several processes and every crash point of any of them",
  "Tests open the array from one process with no crash.",
  [B+"container/MappedArray.cc", B+"container/SharedMemArray.cc", B+"os/SharedInt.cc"],
  [("header with magic, length checked under lock", B+"container/MappedArray.cc")],
  ["array contents seen by each process", "successful re-open"])
p("S03", "Transactions begun and not ended are recovered after a crash, exactly once",
  "After a process crash at any point, recovery presents each transaction whose begin completed and whose end did not, exactly once, with its last completed update and in order of its identifier, and never one that was ended. "
  "Identifiers are never used twice, even across processes, threads and crashes, and an interrupted operation leaves each transaction in its state before or after that operation. ",
  [C, S, F, H], "every history of begin, update, end and recover by several workers, every crash point of a process, every failing system call",
  "The transaction log has no crash test at all.",
  [B+"transaction/TxnLog.cc", B+"transaction/TxnLog.h", B+"transaction/TxnEvent.h"],
  [("one file per active transaction, written aside and renamed", B+"transaction/TxnLog.cc"), ("mapped identifier counter under a semaphore", B+"transaction/TxnLog.cc")],
  ["transactions presented by recovery", "identifiers handed out"])
p("S04", "The on-disk B-tree behaves like a sorted map, across processes and reopens",
  "For any history of insertions, replacements, look-ups and range queries, by one process or by several taking the tree's lock, the on-disk tree answers exactly like a sorted map, in key order and without duplicates, before and after closing and reopening. "
  "Once a flush has returned, another opener sees the data. ",
  [H, S, I, F], "every operation history with every page size, interleaving of locked processes, reopen point, and interrupted or short system calls",
  "Tests insert a few fixed key sets from one process and mostly look up keys that are present.",
  [B+"container/BTree.cc", B+"container/BTree.h"],
  [("page cache, split and locking", B+"container/BTree.cc")],
  ["results of get/range/count against the reference map"])
p("S05", "A shared file cache never exposes a partial file and survives crashes",
  "Whatever processes ask a shared file cache for the same or different entries at the same time, each of them receives a path whose file holds the complete content produced by one run of the creator for that key. "
  "If a creator fails or its process crashes at any point, no incomplete file ever becomes visible under the entry's name and a later request creates the entry normally. A cache with a lock creates an entry only once, and a cache with a size limit discards the entries least recently asked for, never the one just asked for, until the rest fits. ",
  [S, C, F], "every interleaving of requesting processes, every crash point and failure of a creator, with and without eviction and locking",
  "Tests request entries one after the other from one process.",
  [B+"container/CacheManager.cc", B+"container/CacheManager.h"],
  [("stage to a unique name, then rename", B+"container/CacheManager.cc"), ("per-entry lock", B+"container/CacheManager.cc")],
  ["content of returned paths", "directory listing at every step"])
p("S06", "A record that was torn, truncated or corrupted is never read as valid",
  "A record written through the record encoder reads back with exactly the written metadata and data, whatever short reads or writes the channel makes. "
  "If the writing process or the machine crashed part-way, or one contiguous stretch of the stored bytes of a checksummed record was altered or lost, reading each item either raises an error or returns exactly what was written, never different data, also with several threads reading under one session. ",
  [C, F, I], "every crash point and every admissible loss of unsynchronised writes, every byte corruption, every short read/write pattern",
  "Tests corrupt a record at a couple of fixed offsets.",
  [B+"codec/RecordWriter.cc", B+"codec/Record.cc", B+"codec/RecordItemReader.cc", B+"codec/Data.cc"],
  [("section markers, lengths and checksums", B+"codec/Record.cc")],
  ["decoded values", "exceptions"])
p("S07", "Unique names are unique and directory creation tolerates races",
  "Names obtained as unique, and temporary files and directories, are never given to two living requesters nor when they exist already, whatever threads and processes (also forked ones) ask at the same time and however the clock moves. "
  "Creating a directory path succeeds for every caller that creates it concurrently, and all intermediate directories exist afterwards; a real failure to create it is reported. ",
  [S, F, CF], "every interleaving of requesters in several threads and processes, clock jumps, identifiers reused after a crash",
  "Two requests within the same clock second from two processes never race in a test.",
  [B+"filesystem/LocalPathName.cc", B+"filesystem/TmpFile.cc", B+"filesystem/TmpDir.cc"],
  [("counter seeded with the process id, host and time", B+"filesystem/LocalPathName.cc"), ("mkdir tolerating existing directories", B+"filesystem/LocalPathName.cc")],
  ["names handed out", "directories present"])

# ---------------------------------------------------------------- network
p("S08", "Values put in a shared recycler are taken out whole, once, by one of its users",
  "A recycler file used at the same time by several threads and processes behaves like one stack: each value pushed can be popped, complete, by exactly one caller; a batch goes in and comes out together and in order; a pop delivers all it can up to what was asked. Nothing comes between the calls a user makes while it holds the lock. A caller waits for its turn instead of failing. "
  "A push that fails leaves nothing behind, and whatever a process that died in the middle of a push left never makes the recycler unusable or shows as a value. ",
  [S, F, CF], "every interleaving of pushes and pops by threads and processes, short and failed reads and writes, crash at any system call",
  "A test uses the recycler from one thread and never dies in a push.",
  [B+"container/Recycler.h"],
  [("record lock around every operation", B+"container/Recycler.h")],
  ["values popped", "errors", "history"])

p("N01", "A TCP connection delivers the exact byte stream or reports failure",
  "Bytes sent over a connected socket are received exactly once and in order; a read or write reports success for a request only if all of it was transferred, and a broken connection or an error is reported rather than taken for data. "
  "Partial transfers, delays and interrupted calls never lose, duplicate or reorder bytes, also when the stream is striped over several sockets. ",
  [F, S, I], "every fragmentation, delay, reset and close position, and every interleaving of both ends",
  "Loopback in tests delivers whole, prompt segments and never resets.",
  [B+"net/TCPSocket.cc", B+"net/TCPServer.cc", B+"net/TCPStream.cc", B+"net/MultiSocket.cc", B+"io/TCPSocketHandle.cc"],
  [("read and write loops over partial transfers", B+"net/TCPSocket.cc")],
  ["received bytes versus sent bytes", "return values and exceptions"])
p("N02", "Connecting and accepting retry as asked, time out, and do not give up early",
  "Connecting to a server succeeds once the server accepts connections within the allowed retries, and otherwise fails with an error after the allowed number of refused attempts, waiting between attempts as configured; an unreachable network is waited out. "
  "Accepting returns a connection that a client made, tolerates interruptions, and with a timeout raises an error no earlier than the timeout and within bounded time after it. ",
  [F, S, CF], "every server start time, refused or reset attempt pattern, interrupted call and retry/timeout setting, in simulated time",
  "Tests connect to a server that is already there; retry delays are too long for tests to wait.",
  [B+"net/TCPClient.cc", B+"net/TCPServer.cc", B+"io/Select.cc"],
  [("retry loop with delay", B+"net/TCPClient.cc"), ("select with timeout", B+"io/Select.cc")],
  ["outcome and simulated time of connect/accept"])
p("N03", "Cached connections never deliver a reply to the wrong request",
  "A call made over a cached node connection either raises an error or returns the reply to that very call: after a failure in the middle of a request or reply, leftover bytes are never taken for the answer to a later call. "
  "After a failed exchange a later call uses a fresh connection and succeeds when the node is healthy again, and answers remembered from earlier calls are the answers to identical requests. ",
  [F, H, S], "every position of resets and partial transfers across sequences of calls",
  "There is no test of this layer with a failing peer.",
  [B+"net/Connector.cc", B+"io/cluster/NodeInfo.cc"],
  [("connection reset on error and retry", B+"net/Connector.cc"), ("memoised requests", B+"net/Connector.cc")],
  ["replies versus requests"])
p("N04", "Distributed work reaches workers whole and once, and failures end the run",
  "Every work message a producer sends is received whole, unmodified, by at most one worker, and by exactly one if no worker is lost; each worker lost costs at most the one message it had been handed. "
  "After the last message every remaining worker is told to shut down, its final report reaches the producer, and the producer's run ends; with no worker left it ends with an error. ",
  [S, F, C], "every interleaving of producer and workers, message sizes, fragmentation, and worker crash or disconnect points",
  "There is no automated test of this transport.",
  [B+"distributed/tcp/TCPTransport.cc", B+"distributed/Producer.cc", B+"distributed/Consumer.cc", B+"distributed/Message.cc"],
  [("ready/work/shutdown protocol over sockets with select", B+"distributed/tcp/TCPTransport.cc")],
  ["messages received per worker", "end of the producer's run"])
p("N05", "Objects sent over a stream arrive intact or the receiver gets an error",
  "A sequence of values and objects written to a stream is read back equal and in order over any channel, however it fragments the bytes. "
  "If the channel is cut short, fails, or the reader asks for a value of another kind, the reader gets an error and never a made-up value; the end is announced only after everything sent was read. A file stream that was closed without an error holds everything written to it. ",
  [I, F], "every value sequence, fragmentation and truncation point over files, memory, handles, pipes and sockets",
  "Tests use memory or whole files.",
  [B+"serialisation/Stream.cc", B+"serialisation/FileStream.cc", B+"serialisation/HandleStream.h", B+"serialisation/MemoryStream.cc", B+"net/TCPStream.cc"],
  [("type tag before each value", B+"serialisation/Stream.cc")],
  ["decoded values", "exceptions"])

# ---------------------------------------------------------------- fam
p("F01", "Elements of a fabric-memory list arrive once, intact, and leave once",
  "When any number of threads and processes insert at the two ends of a fabric-memory list at the same time, the list afterwards contains exactly the inserted elements, each once and unmodified, its size is their number, and traversing it visits all of them. "
  "Elements inserted at the front by one inserter appear in reverse order of insertion and those inserted at the back in order of insertion; traversals running at the same time terminate and see only elements that were inserted. "
  "Removing elements at the ends or by position, also while others insert or remove, takes out exactly one element per removal, and a removed element is not met again. ",
  [S, H, C], "every interleaving of inserters and readers in several threads and processes",
  "The concurrency tests fork a few processes and check counts under one real schedule.",
  [B+"io/fam/FamList.cc", B+"io/fam/FamListIterator.cc", B+"io/fam/FamObject.cc", B+"io/fam/FamRegion.cc"],
  [("compare-and-swap of end links", B+"io/fam/FamList.cc")],
  ["final traversal in both directions", "size"])
p("F02", "The fabric-memory map keeps every entry and its count under concurrent use",
  "When threads and processes insert and erase different keys of a fabric-memory map concurrently, every key inserted and not erased is found afterwards with its own value, no erased key is, and the size equals the number of entries. "
  "Opening the same map concurrently, and creating the same bucket concurrently, yields one shared map and loses no entry. A look-up never misses an entry that is being replaced, entries of one key used by several tasks are each counted once, and the lock of the map has one holder until its lease expires. ",
  [S, H, C], "every interleaving of openers, inserters, look-ups and erasers in several threads and processes",
  "The tests run one schedule with few collisions.",
  [B+"io/fam/FamMap.cc", B+"io/fam/FamMapIterator.cc", B+"io/fam/FamList.cc"],
  [("bucket creation claimed by compare-and-swap with a sentinel", B+"io/fam/FamMap.cc")],
  ["find/count/size after the run"])

# ---------------------------------------------------------------- runtime services
p("R01", "Log lines come out whole, once and in order, across threads and rotations",
  "Every line a thread logs, through any chain of prefix, indentation, time-stamp, tee, callback and rotating-file targets, appears in each of its destinations exactly once, complete, decorated as its chain says, and in the order that thread wrote them; lines that different threads write to one rotating log never mix within a line (unless a thread flushes an incomplete line). "
  "With date-based rotation each line goes to the file of a day on which it was being written, and changing files loses and repeats nothing. "
  "Disk errors may cost or damage lines written while they last, but lines logged afterwards are in the log. Messages for the user of a thread reach it one by one with their kind, none lost or repeated. ",
  [S, H, F], "every interleaving of logging threads, line lengths and splits, failing disks, with time passing over day boundaries",
  "Tests log from one thread within one day.",
  [B+"log/RotationTarget.cc", B+"log/LineBasedTarget.cc", B+"log/ChannelBuffer.cc", B+"log/Channel.cc", B+"log/PrefixTarget.cc", B+"log/WrapperTarget.cc", B+"log/TeeTarget.cc", B+"log/TimeStampTarget.cc", B+"log/TimeStamp.cc", B+"log/UserChannel.cc"],
  [("per-thread channel buffers", B+"log/ChannelBuffer.cc"), ("locked shared stream per file", B+"log/RotationTarget.cc")],
  ["contents of the log files", "lines seen by the callback", "messages seen by the user"])
p("R02", "Every monitored task owns its own slot and slots of dead tasks are reused",
  "Live tasks of any number of processes and threads registered in the shared monitor each own a distinct slot, and what a task publishes appears in its own slot only. "
  "A slot whose process ended or crashed is reused when others need it, so registration fails only when as many tasks as slots are really alive. ",
  [S, C, H], "every interleaving of registering, ending and crashing processes",
  "No test fills the monitor or crashes a monitored process.",
  [B+"runtime/Monitor.cc", B+"runtime/TaskInfo.cc"],
  [("slot search under the array lock with liveness check", B+"runtime/Monitor.cc")],
  ["slot numbers of live tasks", "slot contents"])
p("R03", "The cluster registry offers a node exactly while it is alive and on line",
  "A node in the shared cluster registry counts as available exactly when it is on line and was last refreshed within the configured time, and selection by type and attributes only ever returns such a node carrying those attributes, with the address of its last refresh. "
  "Refreshes and look-ups from several processes keep exactly one entry per node and type. ",
  [S, H, F], "every interleaving of refreshes, take-downs, look-ups and clean-ups by several processes as simulated time passes",
  "No test covers the registry over time or with more than one process.",
  [B+"io/cluster/ClusterNodes.cc", B+"io/cluster/NodeInfo.cc", B+"container/MappedArray.cc"],
  [("mapped array of entries under a lock, last-seen time", B+"io/cluster/ClusterNodes.cc")],
  ["answers of look-up, any and available against the reference model"])

p("R04", "Every thread gets the configured value of a resource, complete, from first use",
  "A resource takes its value from the command line option, else from the environment variable, else from the most specific entry for it in the configuration files (where later files and lines override earlier ones), else its default; every thread that asks, also when several ask for the first time at once, gets exactly that value, and the same one until it is reconfigured. "
  "Entries of any length are read whole and an invalid line or comment affects no other; a value set at run time is that of every resource first used afterwards. A look-up in a configuration table that is being reloaded gives a line of the old or of the new table, and the configuration of a library is the same for all its users.",
  [S, I], "every content of command line, environment and configuration files, and every interleaving of threads using, setting and reloading them",
  "Tests read a few short entries from one thread; first uses of one resource by several threads never coincide, and no entry is longer than the buffers.",
  [B+"config/ResourceBase.cc", B+"config/Resource.h", B+"config/ResourceMgr.cc", B+"config/EtcTable.cc", B+"config/Configurable.cc", B+"system/Library.cc"],
  [("lazy initialisation of a shared resource", B+"config/ResourceBase.cc"), ("table of entries under a lock, read at the first look-up", B+"config/ResourceMgr.cc"), ("table reloaded under a lock", B+"config/EtcTable.cc")],
  ["value of the resource at each use", "words of the line looked up"])

p("R05", "A file space offers exactly the configured file systems and selects as told",
  "A file space consists of the file systems its configuration file lists (comments and blank lines of any length aside) and of the disks the cluster's registry offers for it, from the first call after either changes, whichever way it changes; a failed reading is an error and is made up for later. Whatever strategy is asked for selects a file system that is in the space and available, the one its rule names, each in turn, or each with its share; if there is none it says so. "
  "The registry has each disk once, with the node that announced it last, offers those of no node that was forgotten, and names the node of every file on them; its table can be used again and again. All this holds for any number of threads and processes.",
  [S, I], "every history of configurations, announcements and sizes, every interleaving of threads and processes asking meanwhile, and every failing read",
  "Tests select from a fixed list in one thread; no test changes a configuration, uses the registry, or has two threads ask.",
  [B+"filesystem/FileSpace.cc", B+"filesystem/FileSpaceStrategies.cc", B+"io/cluster/ClusterDisks.cc"],
  [("reload when the configuration changes", B+"filesystem/FileSpace.cc"), ("weighted and round-robin selection among candidates", B+"filesystem/FileSpaceStrategies.cc"), ("sorted table shared by processes", B+"io/cluster/ClusterDisks.cc")],
  ["file system selected", "disks offered", "node named", "errors raised"])

# ---------------------------------------------------------------- not applicable (pure)
p("X01", "Geometry, grid and projection computations are mathematically consistent",
  "Grid point counts, iteration order, bounding boxes, projections and nearest-neighbour searches agree with their mathematical definitions: forward and inverse projections invert each other, and searches return the true nearest points.",
  [I], "every grid specification, point and area", "Only sampled grids are compared with stored values.",
  [B+"geo", B+"geometry", B+"container/KDTree.h"], [("numerical algorithms", B+"geo")])
p("X02", "Parsers and formatters round-trip and reject malformed text",
  "Parsing JSON, YAML, requests and SQL yields the document's value, printing and re-parsing gives an equal value, and malformed text is rejected with an error.",
  [I], "every document", "Tests parse example documents.",
  [B+"parser", B+"sql", B+"value"], [("recursive descent parsers", B+"parser")])
p("X03", "Linear algebra back ends agree with each other",
  "Dense and sparse products and decompositions give, up to rounding, the mathematically defined result for every back end.",
  [I, CF], "every matrix and back end", "Tests use small fixed matrices.",
  [B+"linalg"], [("back-end dispatch", B+"linalg")])
p("X04", "Compression, hashing and text encodings are faithful",
  "Decompressing compressed data and decoding encoded data give back the original for every input, and digests equal the published algorithms.",
  [I], "every byte sequence", "Tests use a few strings.",
  [B+"utils", B+"io/Base64.cc"], [("codec wrappers", B+"utils")])
p("X05", "Date, time and unit arithmetic follows the calendar",
  "Date and time values convert, compare and add according to the proleptic calendar rules for every representable value, and invalid values are rejected.",
  [I], "every date, time and difference", "Tests check chosen dates.",
  [B+"types"], [("julian day conversion", B+"types/Date.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
