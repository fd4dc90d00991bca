#!/bin/bash
# build.sh OUT: compiles factdump, the shim overlay and the precompiled system prelude.
set -e
H=$(cd "$(dirname "$0")" && pwd)
OUT=${1:?}
mkdir -p "$OUT"
LC=llvm-config-18
LIB=$($LC --libdir)
if [ ! -x "$OUT/factdump" ] || [ "$H/factdump.cpp" -nt "$OUT/factdump" ]; then
  clang++ -O1 $($LC --cxxflags | sed 's/-std=[^ ]*//') -std=c++17 -fno-rtti -w "$H/factdump.cpp" \
    -o "$OUT/factdump.tmp" "$LIB/libclang-cpp.so.18.1" -L"$LIB" -lLLVM-18
  mv "$OUT/factdump.tmp" "$OUT/factdump"
fi
"$H/../shim/make_shim.sh" "$OUT/shim"
DEFS="-DFITORIA_HAS_FMT -DFITORIA_HAS_ZLIB -DFITORIA_HAS_BROTLI -DFITORIA_HAS_OPENSSL -DBOOST_ASIO_HAS_IO_URING"
if [ ! -f "$OUT/prelude.pch" ] || [ "$H/prelude.hpp" -nt "$OUT/prelude.pch" ]; then
  clang++ -std=c++20 -I/repo/include -isystem "$OUT/shim" $DEFS -w -Xclang -fpch-instantiate-templates \
    -x c++-header "$H/prelude.hpp" -o "$OUT/prelude.pch.tmp"
  mv "$OUT/prelude.pch.tmp" "$OUT/prelude.pch"
fi
