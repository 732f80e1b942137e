#!/bin/bash
# builds the obligation generator and warms the Go build cache for the harness
set -e
cd "$(dirname "$0")"
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p build evidence
(cd govc && go build -o ../build/govc .)
d=$(mktemp -d)
VERIF_SETUP=1 ./run_harness.sh NONE "$d" quick 1 1 >/dev/null 2>&1 || true
rm -rf "$d"
echo setup done
