#!/bin/bash
# check.sh <property> [further options of simcheck]: rebuilds from /repo's working tree and
# searches for violations of the property. VERIF_SEED and VERIF_TIER choose seed and depth.
here=$(cd "$(dirname "$0")" && pwd)
log=$(bash "$here/tools/build.sh" 2>&1) || { echo "$log" | tail -40; echo "the simulator could not be built"; exit 2; }
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUST_LOG
p=$1; shift
exec "$here/.build/simcheck" check --property "$p" --dir "$here" --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" "$@"
