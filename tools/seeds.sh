#!/bin/bash
# tools/seeds.sh [ID...]: run the check of each planted bug's property (or those in $CHECKS) against a scratch copy of /repo with the bug
# applied; works on a scratch copy of the committed /verif, so that editing can go on
cd "$(dirname "$0")/.."
W=$(mktemp -d /tmp/seedrun.XXXXXX)
trap 'rm -rf "$W"' EXIT
git clone -q . "$W/verif"
cp -a /repo "$W/repo"
git -C "$W/repo" checkout -q -- .
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C "$W/repo" apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
    for c in ${CHECKS:-$p}; do
        t0=$(date +%s)
        out=$(cd "$W/verif" && VERIF_REPO="$W/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check "$c" 2>&1); rc=$?
        echo "$d ($p) $c rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -v VIOLATION | tail -2 | head -1 | cut -c1-170)"
    done
    git -C "$W/repo" checkout -q -- .
done
