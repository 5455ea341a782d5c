#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--replay FILE]
# Rebuilds the extensions from /repo's working tree, then runs the monitors of
# one property in worker processes on that tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
. /opt/vp/env.sh
export VERIF_TIER=$tier
# the property of building belongs to no check: a tree that does not build gives
# no answer (exit 3)
log=$(mktemp /tmp/vf_build.XXXXXX)
if ! bash /opt/vp/build.sh >"$log" 2>&1; then
    echo "INCONCLUSIVE property=$prop: /repo does not build"; tail -5 "$log"; rm -f "$log"; exit 3
fi
rm -f "$log"
cd "$here" || exit 3
exec "$PY" -W ignore -m vf.run "$prop" "$tier" "$@"
