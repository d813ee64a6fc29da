#!/bin/bash
# check.sh <property>: builds the harness against /repo's working tree and runs the check of a property.
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here="$(cd "$(dirname "$0")" && pwd)"
export XV_VERIF="$here"
tmp="$(mktemp -d /tmp/xv-build-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/harness" && go build -o "$tmp/xv" .) || { echo "the harness doesn't build" >&2; exit 2; }
"$tmp/xv" check "$1"
