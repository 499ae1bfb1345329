#!/bin/bash
# Warm the build cache; every check builds what it needs by itself as well.
cd "$(dirname "$0")" || exit 1
for p in $(ls harness/seq/src/bin | sed 's/\.rs//' | tr a-z A-Z); do BUILD_ONLY=1 ./run.sh "$p" || exit 1; done
[ -x conc.sh ] && { for p in P01 P02; do BUILD_ONLY=1 ./run.sh $p || exit 1; done; }
exit 0
