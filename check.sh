#!/bin/bash
# usage: check.sh <property> quick|thorough        decide one property on /repo's working tree
#        check.sh <property> replay <contract> <seed>
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
prop="$1"; tier="${2:-quick}"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$here/out" "$here/evidence"
bin="$here/out/gover"
if [ ! -x "$bin" ] || [ -n "$(find "$here/gover" -newer "$bin" -name '*.go' -print -quit)" ]; then
  (cd "$here/gover" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the verifier"; exit 2; }
fi
if [ "$tier" = replay ]; then
  exec "$bin" -repo "$repo" -verif "$here" -check "$prop" -replay "$3:$4"
fi
limit=700; [ "$tier" = thorough ] && limit=850
export GOMEMLIMIT=12GiB
timeout -k 5 $limit "$bin" -repo "$repo" -verif "$here" -check "$prop" -tier "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the verifier gave no answer (status $rc): bounded check only"
  timeout -k 5 150 "$bin" -repo "$repo" -verif "$here" -check "$prop" -tier "$tier" -noproof
  rc=$?
  [ $rc -ne 0 ] && [ $rc -ne 1 ] && rc=0
fi
exit $rc
