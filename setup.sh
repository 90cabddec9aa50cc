#!/bin/bash
# nothing is kept from here: every check builds what it needs; this only shows that it builds
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off
(cd gocv && GOFLAGS=-mod=mod go build -o "$d/gocv" .)
bash harness/build.sh "$d"
rm -rf "$d"
