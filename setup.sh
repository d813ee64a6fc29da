#!/bin/bash
# setup.sh: checks that everything the checks need is there; warms the build cache.
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/xv-setup-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/harness" && go build -o "$tmp/xv" .) || exit 1
cp "$here"/spec/*.tla "$tmp"/ || exit 1
cd "$tmp" || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >sany.out 2>&1 ||
    { cat sany.out; exit 1; }
done
echo "setup: ok"
