#!/bin/bash
# run.sh <property> quick|thorough [--only SECTION INDEX]   (run from /verif)
cd /verif || exit 2
. ./env.sh
prop=$1; tier=$2
bash tools/build.sh "$prop" || { echo "build failed" >&2; exit 2; }
case "$prop" in
  C21) exec ./target/debug/sched "$@" ;;
  C22|C24|C25|C26) exec ./target/debug/raster "$@" ;;
  *) exec ./target/debug/harness "$@" ;;
esac
