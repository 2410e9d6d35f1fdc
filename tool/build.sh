#!/bin/bash
# Builds the exporter into $1 (offline; clang 18 headers and shared libraries of the sandbox).
set -e
here=$(cd "$(dirname "$0")" && pwd)
L=/usr/lib/llvm-18
clangcpp=$(ls $L/lib/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
llvm=$(ls $L/lib/libLLVM-18.so $L/lib/libLLVM.so* 2>/dev/null | head -1)
tmp="$1.tmp.$$"
g++ -O1 -w -std=c++17 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE \
    -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS "$here/export.cpp" -o "$tmp" "$clangcpp" "$llvm"
mv "$tmp" "$1"
