#!/bin/bash
# run.sh <property> <quick|thorough> [flags]: builds the harness against /repo's
# working tree and runs the check of one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"; shift; shift
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export LC_ALL=C
race=""
case "$prop" in P13|P24|P25) race="-race" ;; esac
bin="$(mktemp -d /tmp/kcheck-bin.XXXXXX)" || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/harness" && go build $race -tags "verif $prop" -o "$bin/kcheck" .) >"$bin/build.log" 2>&1; then
	cat "$bin/build.log" >&2
	echo "ERROR: build failed" >&2
	exit 2
fi
case "$prop" in P14|P15)
	if ! (cd "$here/harness" && go build -race -tags "verif $prop" -o "$bin/kcheck-race" .) >"$bin/build.log" 2>&1; then
		cat "$bin/build.log" >&2
		exit 2
	fi
	export KCHECK_RACE="$bin/kcheck-race"
esac
if [ "$prop" = P31 ]; then
	(cd /repo && go build -o "$bin/generate-keys" ./cmd/generate-keys) >"$bin/build.log" 2>&1 || { cat "$bin/build.log" >&2; exit 2; }
	export KCHECK_GENKEYS="$bin/generate-keys"
fi
"$bin/kcheck" -prop "$prop" -tier "$tier" -out "$here/evidence" -findings "$here/known_findings.txt" "$@"
