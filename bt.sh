#!/bin/bash
# dev: backtraces where the latest replay of a property throws or aborts
cd "$(dirname "$0")"; f=${2:-$(ls -t replays/$1-*|head -1)}
cat > /tmp/bt.gdb <<G
set breakpoint pending on
set follow-fork-mode child
b abort
b __cxa_throw
run
G
for i in 1 2 3 4 5 6 7 8; do echo "bt 25"; echo c; done >> /tmp/bt.gdb
gdb -q -batch -x /tmp/bt.gdb --args env DST_CHILD=1 HOME=/dev/shm TZ=UTC LC_ALL=C build/$1.exe --replay $f -v 2>&1 | grep -a "^#\|^Thread\|Continuing" | cut -c1-180 | tail -${3:-40}
