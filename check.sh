#!/bin/bash
# check.sh <property> [tier]: builds the program from /repo's working tree and
# the simulator, then decides the property.
cd "$(dirname "$0")" || exit 2
./build.sh "$1" || { echo "error: build failed"; exit 2; }
s=target/sim/release/sim
case "$1" in
  P27|P31) [ -x target/simh/release/sim ] && s=target/simh/release/sim;;
  P32) [ -x target/simi/release/sim ] && s=target/simi/release/sim;;
  P33) [ -x target/simk/release/sim ] && s=target/simk/release/sim;;
esac
exec $s check "$1" "${2:-${VERIF_TIER:-quick}}"
