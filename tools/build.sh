#!/bin/bash
# builds the fact exporter into /verif/build (git-ignored)
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$D/build"
exec 9>"$D/build/.lock"; flock 9
H=$(sha1sum "$D/tools/tqfacts.cpp" | cut -c1-16)
if [ -x "$D/build/tqfacts" ] && [ "$(cat "$D/build/tqfacts.sha" 2>/dev/null)" = "$H" ]; then exit 0; fi
clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS \
  "$D/tools/tqfacts.cpp" -o "$D/build/tqfacts.tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$D/build/tqfacts.tmp" "$D/build/tqfacts"
echo "$H" > "$D/build/tqfacts.sha"
