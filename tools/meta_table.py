m("T04", "eckit::Queue, std::mutex/condition_variable from libstdc++", "Non-trivial: at least five queue calls in the history.", "hash of the sequence of call kinds and outcomes")
m("T02", "eckit::ThreadPool, ThreadControler, Thread, MutexCond, AutoLock, Monitor calls", "Non-trivial: at least two tasks.", "number of tasks, pool size and largest number of tasks running together")
m("T03", "eckit::ThreadControler, Thread, Mutex, MutexCond", "Non-trivial: every run starts at least one controller.", "outcome of each controller (run, stopped)")
m("T01", "eckit::Mutex, StaticMutex, MutexCond, AutoLock, Once, ThreadSingleton", "Non-trivial: every run uses at least two threads or one waiter.", "kind of run with its numbers of threads, acquisitions or signals")
m("T05", "eckit::ProducerConsumer, ThreadControler, MutexCond", "Non-trivial: some run has at least two payloads.", "numbers produced and consumed and outcome of each run")
m("T06", "eckit::Counted, SharedBuffer, Buffer, Value and its contents, message::Message", "Non-trivial: every run shares an object between threads.", "kind of object and numbers of threads and objects")
m("I01", "eckit::AsyncHandle, ThreadControler, MutexCond, Buffer", "Non-trivial: at least two writes.", "operations, outcome and closing of each cycle")
m("I02", "eckit::AIOHandle, Buffer", "Non-trivial: at least two writes.", "number of writes, opening mode and outcome of each cycle, number of requests", fs=True)
m("I03", "eckit::DblBuffer, ThreadControler, MutexCond, AutoClose, Progress, Metrics", "Non-trivial: more than one buffer full of data.", "reads, writes, restarts and outcome of each copy, number of buffers")
m("I04", "eckit::DataHandle (saveInto, copyTo, compare), AutoClose, FileHandle, PathName, Progress, Metrics", "Non-trivial: more than 64 bytes of data.", "operation, kinds of handles, outcome and numbers of reads and writes", fs=True)
m("I05", "eckit::BufferedHandle, MultiHandle, PartHandle, PartFileHandle, PooledHandle, PeekHandle, SeekableHandle, SharedHandle, StatsHandle, MemoryHandle, FileHandle, RawFileHandle, MMappedFileHandle, EmptyHandle", "Non-trivial: more than 32 bytes and more than three operations.", "shape of the stack of handles and outcome", fs=True)
m("I06", "eckit::BufferedHandle, TeeHandle, MultiHandle, StatsHandle, SharedHandle, MemoryHandle, FileHandle, HandleBuf", "Non-trivial: more than 16 bytes in more than two writes.", "shape of the stack of handles and outcome", fs=True)
m("I07", "eckit::FileHandle, BufferedHandle, FileStream, Stream, StdFile, AutoCloser, PathName::syncParentDirectory, eckit::fsync; the page cache and crash image are the simulator's model", "Non-trivial: more than 40 bytes acknowledged.", "kind of writer, opening mode, outcome and kind of crash of each round", fs=True)
m("I08", "eckit::FilePool, CacheLRU, FileHandle, PathName, MutexCond", "Non-trivial: at least three files lent.", "capacity, numbers of files, users, lends of each file and contended lends", fs=True)
m("I09", "eckit::PooledFile, PooledFileDescriptor, PooledHandle, FileHandle, PathName", "Non-trivial: more than four steps of readers.", "kinds of readers and their operations, numbers of files and threads", fs=True)
m("I10", "eckit::CircularBuffer, Mutex, AutoLock", "Non-trivial: more than two writes.", "sizes of the buffer and of the operations with their outcome")
m("S01", "eckit::FileLock, FileLocker, Semaphore, SemLocker, PathName, Mutex; fcntl record locks and System V semaphores are the simulator's model of the kernel", "Non-trivial: more than one locker and more than two acquisitions.", "kind of lock, numbers of processes, threads, acquisitions and errors", fs=True)
m("S02", "eckit::MappedArray, SharedMemArray, SharedInt, Semaphore, Padded, PathName; System V semaphores and their undo on exit are the simulator's model of the kernel", "Non-trivial: more than one process and more than one update.", "kind of array, numbers of processes, crashing processes, updates, errors and repaired elements", fs=True)
m("S03", "eckit::TxnLog, TxnEvent, RecoverThread, MappedArray, Semaphore, FileStream, Stream, Reanimator, PathName, ThreadControler", "Non-trivial: more than two transactions begun.", "rounds, crashing processes, transactions begun, ended and recovered, errors", fs=True)
m("S04", "eckit::BTree with both locking policies, BTreeLock, PooledFileDescriptor, PooledFile, FixedString, Padded; fcntl and flock locks are the simulator's model of the kernel", "Non-trivial: more than eight keys in one process, more than four concurrent operations, or more than three keys left by several sessions.", "mode, key order, numbers of keys, operations, processes and reopenings", fs=True)
m("S05", "eckit::CacheManager with its three locking policies, BTree, FileLock, Semaphore, PathName, FileHandle, MD5; fcntl locks and System V semaphores are the simulator's model of the kernel", "Non-trivial: more than one process and a creator that ran, or more than two entries created under a size limit.", "numbers of processes, entries, creations, requests served, errors and crashes", fs=True)
m("S06", "eckit::codec (RecordWriter, RecordReader, RecordItemReader, Record, Session, Data, Stream, FileStream), FileHandle, PooledHandle, MemoryHandle, PartFileHandle, Compressor, Hash, YAML parser; the page cache and crash image are the simulator's model", "Non-trivial: more than 600 bytes of records, several threads or several streams.", "kind of damage and crash, numbers of records, items, good and failed reads", fs=True)
m("S07", "eckit::PathName and LocalPathName (unique, mkdir, unlink, rmdir, children, touch), TmpFile, TmpDir, StaticMutex, TimeStamp", "Non-trivial: more than two names, or several processes creating more than one directory.", "kind of request, numbers of processes, names, directories and errors", fs=True)
m("S08", "eckit::Recycler, AutoLock, Mutex, PathName; record locks and files are the simulator's model of the kernel", "Non-trivial: more than three calls and more than one value popped.", "numbers of processes, threads, calls, popped values, calls cut by a crash or refused", fs=True)
m("N01", "eckit::net::TCPSocket, TCPClient, TCPServer, ProxiedTCPServer, MultiSocket, TCPStream, eckit::TCPHandle, TCPSocketHandle, SockBuf, Select; the TCP stack is the simulator's model of the kernel", "Non-trivial: the connection was made and some bytes arrived.", "kind of connection, bytes sent and received and how each direction ended", net=True)
m("N02", "eckit::net::TCPClient, TCPServer, EphemeralTCPServer, TCPSocket, NetService, NetUser, eckit::Select, ThreadControler; the TCP stack, alarm signals and sleeping are the simulator's model of the kernel", "Non-trivial: some attempt was refused or timed out, some accept timed out before or after a connection, or several clients were served.", "retries, refusals and outcome of each connect; numbers of clients, connections and timeouts", net=True)
m("N03", "eckit::net::Connector, TCPClient, TCPServer, TCPStream, TCPSocket, eckit::NodeInfo, ClusterNodes, BufferCache, Stream, ThreadSingleton, AutoLock; the TCP stack is the simulator's model of the kernel", "Non-trivial: more than two calls were answered.", "kind of call and its outcome, numbers of failures and of answers from memory so far", net=True, fs=True)
m("R03", "eckit::ClusterNodes, NodeInfo, MappedArray, Semaphore, MemoryStream, ResourceMgr; System V semaphores are the simulator's model of the kernel", "Non-trivial: more than four operations.", "kinds and outcomes of the operations", fs=True)

m("R05", "eckit::FileSpace, FileSpaceStrategies, ClusterDisks, NodeInfo, MappedArray, Semaphore, PathName, LocalPathName, Resource, MemoryStream; the file systems of other nodes (scheme marsfs) and statvfs are the scenario's", "Non-trivial: more than three selections checked exactly and more than three configurations.", "numbers of configurations, reads, exact checks and refusals", fs=True)
m("R04", "eckit::Resource, LibResource, ResourceBase, ResourceMgr, Configurable, ClassExtent, EtcTable, Library, YAMLConfiguration, PathName", "Non-trivial: several threads and entries, or several versions of a table.", "numbers of resources, entries, threads and versions", fs=True)
m("N04", "eckit::distributed (Producer, Consumer, Actor, Message, Transport, TCPTransport), TCPClient, TCPServer, TCPStream, TCPSocket, Select, Stream, CmdArgs; the TCP stack is the simulator's model of the kernel", "Non-trivial: more than three messages were received.", "message, worker and number of messages that worker received so far", net=True)
m("N05", "eckit::Stream, FileStream, HandleStream, FstreamStream, IfstreamStream, MemoryStream, ResizableMemoryStream, PipeStream, TCPStream, Streamable, Reanimator and the stream codecs of values, handles, names, numbers and matrices; the TCP stack and files are the simulator's model of the kernel; PipeStream runs over a simulated connection", "Non-trivial: more than three items were read.", "numbers of items planned and read, how reading ended", net=True, fs=True)
m("R02", "eckit::Monitor, TaskInfo, MappedArray, SharedMemArray, Semaphore, ThreadSingleton, JSON, ResourceMgr; System V semaphores, shared memory names and the process table are the simulator's models of the kernel", "Non-trivial: more tasks than slots registered in the run.", "slot, number of refusals and processes alive at each registration", fs=True)

m("F01", "eckit::FamList, FamListIterator, FamObject, FamRegion, FamRegionName, FamSession, FamSessionManager and the repository's OpenFAM mock (one lock per fabric-memory operation); its shared memory and robust mutex are the simulator's models", "Non-trivial: more than three insertions.", "number of elements and size at each quiescent point")
m("F02", "eckit::FamMap, FamMapIterator, FamMapEntry, FamList, FamObject, FamRegion, FamSession and the repository's OpenFAM mock (one lock per fabric-memory operation); its shared memory and robust mutex are the simulator's models", "Non-trivial: more than three insertions.", "number of entries, size and buckets in use at each quiescent point")

m("R01", "eckit::Channel, ChannelBuffer, Log, UserChannel, RotationTarget, TeeTarget, CallbackTarget, LineBasedTarget, WrapperTarget, PrefixTarget, IndentTarget, TimeStampTarget, TimeStamp, PathName, StaticMutex, ThreadSingleton, ResourceMgr", "Non-trivial: more than three lines or messages.", "numbers of threads, files, lines seen and lines exempted, kind of run", fs=True)

m("T07", "eckit::Dispatcher, DispatchTask, DispatchInfo, ThreadControler, Thread, MutexCond, Configurable, Resource, ResourceMgr, ClassExtent, Monitorable, Monitor", "Non-trivial: more than one request.", "numbers of producers, threads, requests, failures, dequeued requests and handlers at once, kind of picking")

m("T08", "eckit::Exception and derived classes, SavedStatus, ThreadSingleton, Monitor", "Non-trivial: more than two exceptions.", "numbers of threads, exceptions and exceptions handed over")

m("I11", "eckit::message (Reader, Splitter, SplitterFactory, Message, MessageContent, MessageDecoder), Counted, PeekHandle, BufferedHandle, MultiHandle, FileHandle, Mutex; the message formats, splitters and decoders are the scenario's", "Non-trivial: more than four messages.", "numbers of threads, messages, streams read to the end and errors", fs=True)
