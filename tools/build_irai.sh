#!/bin/sh
# builds /verif/build/irai and /verif/build/irlint when they are missing or
# older than their sources
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
CFG=$(command -v llvm-config-18 || command -v llvm-config)
B="$D/build/irai"
if [ ! -x "$B" ] || [ "$D/tools/irai.cpp" -nt "$B" ] || [ "$D/tools/irai_exec.inc" -nt "$B" ]; then
  clang++ -O2 -std=c++17 $($CFG --cxxflags) -fexceptions -w -I"$D/tools" "$D/tools/irai.cpp" -o "$B.tmp.$$" $($CFG --ldflags --libs core irreader support)
  mv "$B.tmp.$$" "$B"
fi
B="$D/build/irlint"
if [ ! -x "$B" ] || [ "$D/tools/irlint.cpp" -nt "$B" ]; then
  clang++ -O1 -std=c++17 $($CFG --cxxflags) -fexceptions -w "$D/tools/irlint.cpp" -o "$B.tmp.$$" $($CFG --ldflags --libs core irreader analysis support)
  mv "$B.tmp.$$" "$B"
fi
