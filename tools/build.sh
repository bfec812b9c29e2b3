#!/bin/bash
# builds the analyser; usage: build.sh OUTDIR
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
if [ ! -x "$O/vga" ] || [ "$D/vga.cpp" -nt "$O/vga" ] || [ "$D/terms.h" -nt "$O/vga" ] || [ "$D/refine.h" -nt "$O/vga" ]; then
clang++-18 -std=c++17 -O2 -g0 -ffp-contract=off -Wno-everything -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions "$D/vga.cpp" -o "$O/vga.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lpthread
mv "$O/vga.tmp" "$O/vga"; fi
if [ ! -x "$O/irq" ] || [ "$D/irq.cpp" -nt "$O/irq" ]; then
clang++-18 -std=c++17 -O1 -g0 -Wno-everything -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions "$D/irq.cpp" -o "$O/irq.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$O/irq.tmp" "$O/irq"; fi
