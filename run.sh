#!/bin/bash
# usage: run.sh PROPERTY TIER  -- runs one check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec_dir=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
export MPLCONFIGDIR="$exec_dir/mpl" VERIF_SCRATCH="$exec_dir/scratch"
mkdir -p "$MPLCONFIGDIR" "$VERIF_SCRATCH"
if [ "$1" = "--replay" ]; then "$PY" -m mc.core --replay "$2"; rc=$?
else "$PY" -m mc.core "$1" "${2:-${VERIF_TIER:-quick}}"; rc=$?; fi
rm -rf -- "$exec_dir"
exit $rc
