#!/bin/bash
# usage: check.sh ID [quick|thorough]    decides one property
#        check.sh --replay FILE          runs one replay file again
#        check.sh --setup                builds once, to see that the tools work
# Builds the harness against /repo's working tree, in a scratch directory, and
# runs it. Exit 0: held. Exit 1: violated, with a VIOLATION line. 2: no answer.
verif=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
unset UAXVERIF_COVBIN GOCOVERDIR GORACE GODEBUG GOEXPERIMENT GOMAXPROCS GOGC GOMEMLIMIT UAXVERIF_TABLE UAXVERIF_UCD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
replay=()
if [ "$id" = --replay ]; then
  replay=(-replay "$(realpath "$2")")
  id=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
  tier=quick
fi
work=$(mktemp -d "${TMPDIR:-/tmp}/uaxverif.XXXXXX") || exit 2
pid=
cleanup() {
  [ -n "$pid" ] && kill -9 "$pid" 2>/dev/null
  rm -rf "$work"
}
trap cleanup EXIT
trap 'exit 2' INT TERM HUP
export TMPDIR="$work"
export UAXVERIF_HARNESS="$verif/harness"
cd "$verif/harness" || exit 2
m=github.com/clipperhouse/uax29/v2
flags=()
args=()
guided=
case $id in
--setup) ;;
C13) flags=(-race) ;;
C15) guided=1 ;;
C16) ;;
C18)
  flags=(-tags c18)
  guided=1
  ;;
C19) args=(-workers 7) ;;
C[0-9][0-9]) guided=1 ;;
*)
  echo "usage: check.sh ID" >&2
  exit 2
  ;;
esac
# the same program with counters in the repository's packages
cover() {
  local pk
  pk=$(go list "${flags[@]}" -deps ./cmd/uaxverif | grep "^$m" | grep -v "^$m/zverif" | paste -sd,) || return 1
  go build "${flags[@]}" -cover -covermode=atomic "-coverpkg=$pk,$m/zverif/cmd/uaxverif" -o "$1" ./cmd/uaxverif
}
mkdir "$work/cov"
export GOCOVERDIR="$work/cov"
ok=1
if [ "$id" = C16 ]; then
  cover "$work/uaxverif" || ok=
else
  if [ -n "$guided" ]; then
    export UAXVERIF_COVBIN="$work/uaxverif-cov"
    cover "$UAXVERIF_COVBIN" &
    pid=$!
  fi
  go build "${flags[@]}" -o "$work/uaxverif" ./cmd/uaxverif || ok=
  if [ -n "$pid" ]; then
    wait "$pid" || ok=
    pid=
  fi
fi
if [ -z "$ok" ]; then
  echo "the harness does not build against /repo" >&2
  exit 2
fi
[ "$id" = --setup ] && exit 0
"$work/uaxverif" -prop "$id" -tier "$tier" -seed "$seed" -dir "$verif" "${args[@]}" "${replay[@]}" &
pid=$!
wait "$pid"
rc=$?
pid=
exit $rc
