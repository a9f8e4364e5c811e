#!/bin/bash
# run.sh ID: build the checker against /repo's working tree and decide property ID.
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p out/bin out/replays evidence
bin=out/bin/mc.$$
trap 'rm -f "$bin"' EXIT
(cd mc && go build -o "../$bin" .) || { echo "build failed"; exit 2; }
"./$bin" "$@"
