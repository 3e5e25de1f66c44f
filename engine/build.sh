#!/bin/bash
# builds the engine into $1 (default /verif/.build)
cd "$(dirname "$0")"
B=${1:-/verif/.build}
mkdir -p $B
I="-std=c++17 -w -I/usr/lib/llvm-18/include"
/usr/bin/g++ -O2 $I -c expr.cpp -o $B/expr.o & p1=$!
/usr/bin/g++ -O2 $I -c kse.cpp -o $B/kse.o & p2=$!
/usr/bin/g++ -O1 $I instrument.cpp -o $B/kse-instr.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 & p3=$!
wait $p1 || exit 1; wait $p2 || exit 1; wait $p3 || exit 1
/usr/bin/g++ $B/kse.o $B/expr.o -o $B/kse.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 || exit 1
mv $B/kse-instr.tmp $B/kse-instr && mv $B/kse.tmp $B/kse
