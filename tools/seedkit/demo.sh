#!/bin/bash
# Runs the program beside this file against the tree in the current directory.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
R="$(pwd)"; D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D"/*.go "$T"/ && cp "$R/go.sum" "$T/" || exit 2
sed -e 's#^module .*#module demo#' "$R/go.mod" > "$T/go.mod"
printf 'require github.com/Bren2010/katie v0.0.0\nreplace github.com/Bren2010/katie => %s\n' "$R" >> "$T/go.mod"
cd "$T" && go build -race=${RACE:-false} -tags verif -o demo . && timeout 240 ./demo
