#!/bin/bash
# usage: runseeds.sh [id...]   applies each seeded change to a scratch copy of
# /repo, runs its property's quick check on it, and prints whether it was
# caught. (TIER, VERIF_SEED from the environment.)
v=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/rs.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
mkdir "$w/verif"
(cd "$v" && cp -a check.sh harness known_findings.json data "$w/verif/" 2>/dev/null)
sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
for id in ${@:-$(ls "$v/seeded")}; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$v/seeded/$id/meta.json")
  git -C "$w/repo" checkout -q -- .
  git -C "$w/repo" apply "$v/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  t0=$SECONDS
  out=$(UAXVERIF_REPO="$w/repo" "$w/verif/check.sh" $p ${TIER:-quick} 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "$id CAUGHT $((SECONDS-t0))s $(grep -o 'replay=.*' <<<"$out" | head -1 | cut -c1-100)"
  else echo "$id MISSED rc=$rc $((SECONDS-t0))s $(tail -3 <<<"$out" | cut -c1-200)"; fi
done
