#!/bin/bash
# development aid: tools/mut.sh PATCH ID [ID...]  -- run checks against a scratch copy of /repo with PATCH applied
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -r -f -- "$D"' EXIT
git -C /repo archive HEAD | tar -x -C "$D" || exit 3
( cd "$D" && git init -q . && git apply "$P" ) || { echo "patch does not apply"; exit 3; }
export VERIF_REPO=$D VERIF_WORK=${VERIF_WORK:-/tmp/mutwork}
unset VERIF_FACTS_FILE
first=1
for id in "$@"; do
  python3 /verif/run.py "$id" | cut -c1-400
  export VERIF_FACTS_FILE=$VERIF_WORK/facts-kuadrant_filter/kuadrant_filter.json
done
