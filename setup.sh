#!/bin/bash
# builds the verifier offline and warms the go build cache
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$here/out" "$here/evidence"
(cd "$here/gover" && go build -o "$here/out/gover" .) || exit 1
exit 0
