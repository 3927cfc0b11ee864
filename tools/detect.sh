#!/bin/bash
# detect.sh ID...: run the check of a planted change's property against it (applies it to /repo and undoes it)
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /opt/venv/bin/python harness/run.py "$p" --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c "^VIOLATION property=$p ") $(echo "$out" | grep first: | cut -c1-160)"
done
