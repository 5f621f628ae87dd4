#!/bin/bash
# usage: tools/tryseed.sh ID...   apply each planted bug to a scratch copy of /repo and run the check of its property there
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  tmp=$(mktemp -d /tmp/tryseed.XXXXXX)
  git clone -q "${PADS_REPO:-/repo}" "$tmp/repo" && git -C "$tmp/repo" apply "$d/patch.diff" || echo "$id: patch does not apply"
  out=$(cd "$V" && PADS_REPO="$tmp/repo" VERIF_EVIDENCE="$tmp/ev" bash run.sh "$prop" quick 2>&1)
  code=$?
  echo "$id $prop exit $code  $(echo "$out" | grep -A3 '^VIOLATION' | tr '\n' ' ' | cut -c1-220)"
  rm -rf "$tmp"
done
