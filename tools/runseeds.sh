#!/bin/bash
# runseeds.sh [ID...]: plants each bug of seeded/ in /repo in turn, runs the check of its property and undoes it.
cd "$(dirname "$(realpath "$0")")/.." || exit 2
[ $# = 0 ] && set -- $(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
    prop=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    for p in $prop; do
        start=$SECONDS
        out=$(./check $p 2>&1); rc=$?
        echo "$id $p rc=$rc $((SECONDS - start))s $(grep -m1 VIOLATION <<<"$out" | cut -c1-120)"
        [ $rc = 0 ] || [ $rc = 1 ] || tail -5 <<<"$out"
    done
    git -C /repo checkout -q -- .
done
