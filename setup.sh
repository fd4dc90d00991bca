#!/bin/bash
# builds the analysis engine (fact extractor, header overlay, precompiled system headers)
set -e
H=$(cd "$(dirname "$0")" && pwd)
bash "$H/engine/build.sh" "$H/build"
