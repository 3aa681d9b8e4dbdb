#!/bin/bash
# Usage: check.sh Cxx   builds the engine when absent or stale, then decides the property.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
./build.sh || exit 2
exec ./bin/engine check "$1"
