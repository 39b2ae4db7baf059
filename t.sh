#!/bin/bash
# t.sh ID seconds: build and explore quickly (development helper)
cd "$(dirname "$0")" && DST_SECONDS=${2:-10} python3 check.py $1 quick
