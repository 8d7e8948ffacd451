#!/bin/bash
# run.sh ID quick|thorough: builds the program from /repo's working tree and the harness, runs one check.
ID="${1:?}"; TIER="${2:-quick}"
export HOME=/root LANG=C.UTF-8 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VH_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$TIER" VH_VERIF="$VERIF" VH_REPO="$REPO"
mkdir -p "$VERIF/evidence"
TMP="$(mktemp -d /tmp/vh.XXXXXX)" || exit 3
trap 'chmod -R u+rwx "$TMP" 2>/dev/null; rm -rf "$TMP"' EXIT
export VH_TMP="$TMP"
# The harness sources are built in the scratch directory, so that the build leaves /verif and /repo as they are.
mkdir -p "$TMP/src" && cp -r "$VERIF/harness/." "$TMP/src/" || exit 3
[ "$REPO" = /repo ] || ( cd "$TMP/src" && go mod edit -replace wiki2book="$REPO/src" ) || exit 3
( cd "$TMP/src" && go build -o "$TMP/vh" ./vh ) || { echo "harness build failed" >&2; exit 3; }
( cd "$REPO/src" && go build -buildvcs=false -o "$TMP/wiki2book.bin" . ) || { echo "program build failed" >&2; exit 3; }
export VH_BIN="$TMP/wiki2book.bin"
for n in $("$TMP/vh" needs "$ID"); do
  case "$n" in
    race) ( cd "$REPO/src" && go build -buildvcs=false -race -o "$TMP/wiki2book.race" . ) || { echo "race build failed" >&2; exit 3; }
          export VH_BIN_RACE="$TMP/wiki2book.race" ;;
    # The in-process drivers use the program's packages. If they do not fit this tree, the rest of the check decides.
    api)  ( cd "$TMP/src" && go build -race -o "$TMP/vhapi" ./api ) && export VH_API="$TMP/vhapi" ;;
    vt)   ( cd "$TMP/src" && go test -c -o "$TMP/vhvt" ./vt ) && export VH_VT="$TMP/vhvt" ;;
    # The program with a standard library whose file operations can be made to fail.
    fs)   mkdir -p "$TMP/fsov" && OV="$("$TMP/vh" fsoverlay "$TMP/fsov")" && ( cd "$REPO/src" && go build -buildvcs=false -overlay "$OV" -o "$TMP/wiki2book.fs" . ) || { echo "build with file faults failed" >&2; exit 3; }
          export VH_BIN_FS="$TMP/wiki2book.fs" ;;
  esac
done
"$TMP/vh" check "$ID" "$TIER"
exit $?
