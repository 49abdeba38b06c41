#!/bin/bash
# builds the symbolic executor into $1; links the z3 5.x that comes with the Python tools (several times faster than the system's 4.8.12)
set -e
B=$1; D=$(cd "$(dirname "$0")" && pwd); mkdir -p $B
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 2>/dev/null | head -1)
if [ -n "$Z" ] && [ -e $Z/lib/libz3.so ] && [ -e $Z/include/z3.h ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; else ZI=; ZL=-lz3; fi
for f in expr poly solver symx; do
  g++ -std=c++17 -O2 -w $(llvm-config --cxxflags | sed 's/-std=c++17//') -fexceptions -frtti $ZI -c $D/$f.cpp -o $B/$f.o & p="$p $!"
done
for x in $p; do wait $x; done
g++ $B/expr.o $B/poly.o $B/solver.o $B/symx.o -o $B/symx.new $(llvm-config --ldflags --libs core irreader bitreader support) $ZL && mv $B/symx.new $B/symx
