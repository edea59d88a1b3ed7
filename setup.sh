#!/bin/bash
# Checks that the toolchain can build the harness against /repo; fills the build cache.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$here/evidence"
cd "$here/harness" && go build -tags verif -o /dev/null .
