#!/bin/bash
# usage: plant.sh <bug id>...   confirms planted bugs in scratch copies of /repo:
# the patch applies, builds, passes the stable tests; demo.sh exits 0 without and
# nonzero with it.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    d=$here/seeded/$id
    w=$(mktemp -d /tmp/plant_XXXXXX)
    cp -a /repo "$w/repo"
    for s in build test; do sed "s#/repo#$w/repo#g; s#/opt/vp/build.sh#$w/build.sh#; s#^unset.*##" /opt/vp/$s.sh > "$w/$s.sh"; done
    sed -i "s#PYTHONPATH=/opt/vp/plugins#PYTHONPATH=$w/repo/src:/opt/vp/plugins#" "$w/test.sh"
    sed -i "s#^cd / .*#true#" "$w/build.sh"
    mkdir "$w/demo"; cp "$d"/* "$w/demo/"
    (cd "$w/repo" && bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1); clean=$?
    (cd "$w/repo" && git apply "$d/patch.diff") || { echo "$id: does not apply"; rm -rf "$w"; continue; }
    bash "$w/build.sh" >"$w/build.log" 2>&1 || { echo "$id: does not build"; tail -5 "$w/build.log"; }
    (cd "$w/repo" && bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1); bug=$?
    if [ -z "$NOTEST" ]; then
        bash "$w/test.sh" "$w/out.json" >"$w/test.log" 2>&1
        t=$(/usr/bin/python3 -c "
import json
o=json.load(open('$w/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(sorted(set(b['stable'])-set(o['passed'])) or 'pass')")
    else t=skipped; fi
    ok=BAD; [ $clean = 0 ] && [ $bug != 0 ] && { [ "$t" = pass ] || [ "$t" = skipped ]; } && ok=OK
    echo "$ok $id: demo clean=$clean bug=$bug tests=$t"
    [ $ok = BAD ] && { tail -5 "$w/clean.log"; tail -5 "$w/bug.log"; }
    rm -rf "$w"
done
