#!/bin/bash
# make_shim.sh OUT: overlay of the two Boost >= 1.85 facilities fitoria uses that
# Boost 1.83 (the one installed) lacks, so that every header can be type-checked.
set -e
OUT=${1:?}
SRC=${BOOST_INC:-/usr/include}
mkdir -p "$OUT/boost/beast/http"
sed -e 's/^\( *\)processing *= 102,/&\n\1early_hints = 103,/' \
    -e 's/^\( *\)failed_dependency *= 424,/&\n\1too_early = 425,/' \
    "$SRC/boost/beast/http/status.hpp" > "$OUT/boost/beast/http/status.hpp"
cp "$(dirname "$0")/fitoria_boost_compat.hpp" "$OUT/fitoria_boost_compat.hpp"
