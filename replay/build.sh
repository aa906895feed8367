#!/bin/bash
set -e
cd "$(dirname "$0")"
mkdir -p ../build
OUT=../build/replay
if [ -x $OUT ] && [ $OUT -nt replay.cpp ]; then exit 0; fi
g++ -O1 -g -std=c++17 -rdynamic -w -o $OUT.tmp replay.cpp -ldl
mv $OUT.tmp $OUT
