#!/bin/bash
# Warms the build cache: builds the program, its race build and the harness once.
export HOME=/root LANG=C.UTF-8 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
VERIF="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d /tmp/vhs.XXXXXX)" || exit 1
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$VERIF/evidence" && cp -r "$VERIF/harness/." "$T/src/" || exit 1
( cd "$T/src" && go build -o "$T/vh" ./vh && go build -race -o "$T/api" ./api && go test -c -o "$T/vt" ./vt ) || exit 1
( cd /repo/src && go build -buildvcs=false -o "$T/w" . && go build -buildvcs=false -race -o "$T/wr" . ) || exit 1
echo setup done
