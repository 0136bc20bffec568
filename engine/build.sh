#!/bin/bash
# usage: build.sh OUTPUT
set -e
d=$(cd "$(dirname "$0")" && pwd)
clang++ -O1 -std=c++17 -fno-rtti -w -I"$d" "$d/coan.cpp" $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//; s/-O[0-9]//') -o "$1" -L"$(llvm-config-18 --libdir)" -lLLVM-18
