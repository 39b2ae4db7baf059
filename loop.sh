#!/bin/bash
# dev: run and show the notes of the violation
cd "$(dirname "$0")"; ./t.sh $1 ${2:-8} > /tmp/o.$1 2>&1; grep -v '^$' /tmp/o.$1 | tail -${3:-12}
f=$(grep -o 'replay=.*' /tmp/o.$1 | head -1 | cut -d= -f2); [ -n "$f" ] && build/$1.exe --replay $f -v 2>&1 | tail -${4:-25}
