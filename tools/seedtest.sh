#!/bin/bash
# usage: tools/seedtest.sh ID... : tries planted bugs in a scratch copy of
# /repo: applies, builds, passes the stable tests, demonstration, check.
. /opt/vp/env.sh
export GOSUMDB=off
verif=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    d=$verif/seeded/$id
    m=$(mktemp -d /tmp/seedXXXXXX)
    cp -a /repo "$m/repo"
    r=$m/repo
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    mkdir "$m/demo"; cp -a "$d"/. "$m/demo/"; rm -f "$m"/demo/*.diff "$m"/demo/meta.json
    (cd "$r" && timeout 300 bash "$m/demo/demo.sh" > "$m/out0" 2>&1); clean=$?
    git -C "$r" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$m"; continue; }
    (cd "$r" && go build ./... ) || { echo "$id: no build"; rm -rf "$m"; continue; }
    (cd "$r" && timeout 300 bash "$m/demo/demo.sh" > "$m/out1" 2>&1); bad=$?
    sed -e "s,/repo,$r,g" -e "s,^\. /opt/vp/env.sh,. /opt/vp/env.sh; WORK=$m," /opt/vp/test.sh > "$m/test.sh"
    bash "$m/test.sh" "$m/res.json" > "$m/testlog" 2>&1
    tests=$(python3 - "$m/res.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(x[k])
p=names(r); s=names(b)
print('ok' if s and s<=p else 'FAIL %s'%sorted((s or set())-(p or set()))[:5])
P
)
    t0=$(date +%s)
    "$verif/bin/gosym" -verif "$verif" -repo "$r" check "$prop" quick > "$m/chk" 2>&1; rc=$?
    echo "$id ($prop): demo clean=$clean patched=$bad tests=$tests check=$rc $(($(date +%s)-t0))s $(grep -m1 -B1 '^VIOLATION' "$m/chk" | head -1 | cut -c1-150)"
    [ $clean = 0 ] || tail -5 "$m/out0"
    [ -n "$KEEP" ] || rm -rf "$m"
done
