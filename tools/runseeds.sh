#!/bin/bash
# runseeds.sh [NAME...] : runs the check of each planted change's property against it; prints caught or MISSED.
# Works on /repo's working tree, which it restores.
cd /verif || exit 3
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
names=("$@"); [ $# -gt 0 ] || names=($(ls seeded))
for n in "${names[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  grep -q "\"property\": \"$p\"\|\"id\": \"$p\"" MANIFEST.json || { echo "$n: not claimed"; continue; }
  git -C /repo apply "/verif/seeded/$n/patch.diff" || { echo "$n: does not apply"; continue; }
  t=$(date +%s)
  timeout 900 ./check.sh "$p" quick >/tmp/seed.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  if [ $r = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seed.out; then s=caught; else s="MISSED ($r)"; fi
  echo "$n: $s $(($(date +%s)-t))s $(grep -v VIOLATION /tmp/seed.out | grep -i "fail\|lane" | head -1 | cut -c1-150)"
done
