#!/bin/bash
# Nothing to install: make sure compiler and interpreter are usable.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/msdst.XXXXXX) || exit 1
trap 'rm -rf -- "$T"' EXIT
gcc -O2 -shared -fPIC -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 1
/opt/venv/bin/python -c 'import numpy, pandas, numba, tables, psutil' || exit 1
echo setup ok
