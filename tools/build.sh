#!/bin/bash
# builds irdump (needs the installed LLVM 18 development files only)
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
OUT=${1:-./irdump}
/usr/bin/clang++-18 -O1 -std=c++17 -fno-exceptions -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS irdump.cpp -o "$OUT.tmp.$$" -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv "$OUT.tmp.$$" "$OUT"
