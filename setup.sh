#!/bin/bash
# Builds the I/O fault injector; everything else is plain Python.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
gcc -O2 -Wall -shared -fPIC -o build/iofault.so.tmp.$$ shim/iofault.c -ldl
mv build/iofault.so.tmp.$$ build/iofault.so
