#!/usr/bin/env python3
"""Writes known-findings.txt: the repaired defects (from the fix: commits in /repo and FIX below) and the recorded ones."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject (start) -> property
FIX = [
 ("Monitor", "R02"), ("TaskInfo", "R02"), ("FamList", "F01"), ("FamMap", "F02"), ("FamSession", "F02"),
 ("ThreadPool", "T02"), ("ProducerConsumer", "T05"), ("AsyncHandle", "I01"), ("AIOHandle", "I02"), ("DblBuffer", "I03"),
 ("DataHandle::compare", "I04"), ("AutoClose", "I04"), ("FileHandle opened for append", "I07"), ("FileHandle reports a failed read", "I05"),
 ("FileHandle does not use its stream", "I08"), ("MultiHandle does not lose", "I05"), ("PooledHandle reports", "I05"), ("PooledHandle tries", "I05"),
 ("BufferedHandle reports", "I05"), ("PartHandle", "I05"), ("MultiHandle can be written", "I06"), ("BufferedHandle", "I06"), ("HandleBuf", "I06"),
 ("MemoryHandle", "I06"), ("a StdFile", "I07"), ("FileStream", "I07"), ("a failing close", "I07"), ("FilePool", "I08"), ("CacheLRU", "I08"),
 ("FileHandle closes", "I08"), ("syncParentDirectory", "I07"), ("readers in several threads", "I09"), ("FileLock", "S01"),
 ("a Recycler", "S08"), ("shared arrays", "S02"), ("TxnLog", "S03"), ("BTree", "S04"), ("a BTree", "S04"), ("PooledFileDescriptor", "S05"), ("CacheManager", "S05"),
 ("a codec", "S06"), ("failing to close a written record", "S06"), ("a PooledHandle can", "S06"), ("the last codec session", "S06"), ("an empty codec", "S06"), ("unique names", "S07"), ("a temporary file", "S07"), ("PathName::mkdir", "S07"),
 ("a node refused by ClusterNodes", "R03"), ("ClusterNodes", "R03"), ("BufferCache", "N03"), ("a memoized Connector", "N03"), ("a second call in memoized", "N03"), ("Connector", "N03"),
 ("TCPTransport", "N04"), ("HandleStream", "N05"), ("Stream:", "N05"), ("PipeStream", "N05"), ("URLHandle", "N05"),
 ("the start of a long line", "R01"), ("the targets of a rotating", "R01"), ("each line written to the user channel", "R01"), ("a failed write to a rotating", "R01"), ("a log target that fails", "R01"), ("time stamps in formats", "R01"),
 ("a message that is assigned", "I11"), ("ClusterDisks", "R05"), ("FileSpace", "R05"), ("several threads using one FileSpace", "R05"), ("the turns of FileSpaceStrategies", "R05"),
 ("long lines and long names", "R04"), ("blanks after the dots", "R04"), ("a table is read whole", "R04"), ("a resource first used", "R04"),
 ("Dispatcher", "T07"), ("Exception:", "T08"),
 ("TCPClient::connect", "N02"), ("TCPSocketHandle", "N01"), ("TCPSocket lost", "N01"), ("MultiSocket", "N01"), ("seeking forward", "N01"), ("TCPSocket::stillConnected", "N01"),
]
exec(open(os.path.join(V, "tools", "findings_table.py")).read()) if os.path.exists(os.path.join(V, "tools", "findings_table.py")) else None
log = subprocess.run(["git", "-C", os.environ.get("DST_REPO", "/repo"), "log", "--format=%h %s", "--reverse"], stdout=subprocess.PIPE, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = max(((len(k), p) for k, p in FIX if s.startswith(k)), default=None)
    assert p, "no property for: " + s
    out.append((p[1], "fixed: property=%s %s %s" % (p[1], h, s)))
out.sort(key=lambda x: x[0])
KNOWN = globals().get("KNOWN", [])
with open(os.path.join(V, "known-findings.txt"), "w") as f:
    f.write("# known: property=<id> id=<finding> <what fails>   (genuine, not repaired: reported as KNOWN-FINDING)\n"
            "# fixed: property=<id> <commit in /repo> <what was repaired>   (suppresses nothing)\n")
    for p, i, what in KNOWN: f.write("known: property=%s id=%s %s\n" % (p, i, what))
    for _, l in out: f.write(l + "\n")
print(len(out), "fixed", len(KNOWN), "known")
