#!/bin/bash
# tools/check.sh <property> [quick|thorough]: rebuild from /repo and explore one property.
cd "$(dirname "$0")/.."
export MC_ROOT="$PWD"
[ -n "$2" ] && export VERIF_TIER="$2"
bash tools/build.sh || exit 2
exec target/release/mc check "$1"
