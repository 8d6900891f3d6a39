#!/bin/bash
# tools/runseeds.sh [ID...]: which checks report which planted changes (scratch copy; /repo is not touched)
cd "$(dirname "$0")/.."
mkdir -p /tmp/w
W=$(mktemp -d /tmp/w/seedrun.XXXX); cp -a /repo "$W/repo"
for d in ${@:-$(ls seeded)}; do
  git -C "$W/repo" checkout -q -- . ; git -C "$W/repo" apply "$PWD/seeded/$d/patch.diff" || echo "no apply $d"
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  t=$(date +%s)
  o=$(VERIF_REPO=$W/repo VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p 2>&1); rc=$?
  echo "$d rc=$rc $(( $(date +%s)-t ))s $(echo "$o" | grep -c no-failing-input) :: $(echo "$o" | grep -v VIOLATION | head -1 | cut -c1-140)"
done
rm -rf "$W"
