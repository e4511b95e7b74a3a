#!/bin/bash
# usage: bugs.sh [ID...]  -- runs the check of each planted bug's property against the bug.
# Applies each patch to /repo and undoes it straight afterwards.
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
    prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    s=$(date +%s)
    out=$(./check ${PROP:-$prop} quick 2>&1)
    rc=$?
    git -C /repo checkout -q -- .
    echo "$id ${PROP:-$prop} exit=$rc $(($(date +%s) - s))s $(grep -m1 'native:' <<< "$out" | cut -c1-150)"
done
