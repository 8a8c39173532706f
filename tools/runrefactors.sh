#!/bin/bash
# usage: runrefactors.sh [id...]   runs the quick checks on scratch copies with
# each behaviour-preserving edit of tools/refactors; they have to stay quiet.
# CHECKS="C01 ..." picks the checks.
v=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/rf.XXXXXX)
trap 'rm -rf "$w"' EXIT
for id in ${@:-$(cd "$v/tools/refactors" && ls *.diff | sed 's/.diff//')}; do
  rm -rf "$w/repo" "$w/verif"
  cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$v/tools/refactors/$id.diff" || { echo "$id DOES NOT APPLY"; continue; }
  mkdir "$w/verif"
  (cd "$v" && cp -a check.sh harness known_findings.json data "$w/verif/" 2>/dev/null)
  sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
  for c in ${CHECKS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
    out=$(UAXVERIF_REPO="$w/repo" "$w/verif/check.sh" $c quick 2>&1); rc=$?
    [ $rc = 0 ] || echo "$id $c rc=$rc $(grep -v KNOWN <<<"$out" | tail -5 | cut -c1-400)"
  done
  echo "$id done"
done
