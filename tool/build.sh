#!/bin/bash
# builds /verif/build/mpx (the extractor)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ! -x ../build/mpx ] || [ mpx.cpp -nt ../build/mpx ]; then
  g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    mpx.cpp -o ../build/mpx.tmp.$$ -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv ../build/mpx.tmp.$$ ../build/mpx
fi
