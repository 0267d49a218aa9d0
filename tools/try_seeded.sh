#!/bin/bash
# try_seeded.sh [-a] [id ...]: apply each planted bug to /repo, run its property's check (-a: all checks), undo.
cd "$(dirname "$0")/.." || exit 2
ALL=; [ "$1" = -a ] && { ALL=1; shift; }
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  list=$p; [ -n "$ALL" ] && list=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  out=""
  for q in $list; do
    s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh $q > /tmp/try.$q.txt 2>&1; c=$?
    if [ -z "$ALL" ] || [ $c != 0 ]; then out="$out $q=$c($(( $(date +%s) - s ))s)"; fi
  done
  git -C /repo checkout -q -- .
  echo "$id [$p]$out"
done
