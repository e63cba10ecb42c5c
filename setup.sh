#!/bin/bash
# builds the symbolic engine once (checks rebuild it themselves if it is missing)
cd "$(dirname "$0")" || exit 1
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
mkdir -p build evidence
g++ -std=c++17 -w -O2 -g0 -I"$Z/include" -c engine/sym.cpp -o build/sym.o
