#!/bin/sh
# Checks build what they need themselves; this only shows that the tools work.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -O1 -shared -fPIC -o "$d/shim.so" sim/shim.c -ldl
gcc -O1 -o "$d/simcc" sim/simcc.c
/opt/venv/bin/python -c 'import numpy, scipy, sympy, pandas'
echo ready
