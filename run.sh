#!/bin/bash
# Builds the engine if needed and runs one check: run.sh -check C01 [-tier quick|thorough]
set -u
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0 HOME=/root GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
mkdir -p "$V/bin"
(cd "$V/engine" && go build -o "$V/bin/gosym.new.$$" . ) || { echo "engine build failed" >&2; exit 2; }
mv -f "$V/bin/gosym.new.$$" "$V/bin/gosym"
unset GOFLAGS GOWORK CGO_ENABLED
exec "$V/bin/gosym" -verif "$V" "$@"
