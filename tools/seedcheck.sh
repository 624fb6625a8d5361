#!/bin/bash
# seedcheck.sh [ID...]: runs each planted bug's property check against it (in a scratch copy of /repo) and prints the verdict.
cd "$(dirname "$0")/.."; ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seed_XXXXXX); git clone -q --shared /repo "$w/repo"
  git -C "$w/repo" apply "$PWD/seeded/$i/patch.diff" || { echo "$i PATCH"; rm -r "$w"; continue; }
  mkdir -p "$w/v"; ln -s "$PWD/contracts" "$PWD/replay" "$PWD/KNOWN_FINDINGS" "$w/v/"
  s=$(date +%s.%N)
  bin/gov -prop "$p" -verif "$w/v" -repo "$w/repo" > "$w/out" 2>&1; rc=$?
  e=$(date +%s.%N)
  printf '%-28s %s rc=%s %.0fs %s\n' "$i" "$p" "$rc" "$(echo "$e-$s"|bc)" "$(grep -h VIOLATION "$w/out" | sed 's/replay=[^ ]*//' | head -1) $(grep -h REPLAY-FAIL "$w/out" | head -1 | cut -c1-120) $(grep -h 'failed obl' "$w/out" | head -1 | cut -c19-120)"
  rm -r "$w"
done
