#!/bin/bash
# usage: catch.sh <bug id> [property]...   applies a planted bug to /repo, runs the check of
# its property (or those named), undoes it
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
props=$@
[ -z "$props" ] && props=$(/usr/bin/python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$here/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
    out=$(cd "$here" && VERIF_SEED=${VERIF_SEED:-1} bash check.sh $p quick 2>&1); rc=$?
    case $rc in 1) r=CAUGHT;; 0) r=MISSED;; *) r="rc=$rc";; esac
    echo "$id $p: $r  $(grep -A1 'quick:' <<<"$out" | tail -1 | cut -c1-200)"
done
