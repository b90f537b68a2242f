#!/bin/bash
# check.sh ID TIER: runs one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_engine >&2 || { echo "check error: engine does not build" >&2; exit 2; }
exec ./engine/target/release/amuck check "$1" "${2:-quick}"
