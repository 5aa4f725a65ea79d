#!/bin/bash
# Checks that the tools the checks use are there; nothing has to be built beforehand.
set -e
cd "$(dirname "$0")/.."
for t in clang++ g++ python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3, mpmath, numpy'
mkdir -p build evidence
echo setup ok
