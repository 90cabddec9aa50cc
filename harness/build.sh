#!/bin/bash
# build.sh OUTDIR: compiles the harness against /repo's working tree into OUTDIR/harness
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="$1"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off
cp "$here/../tools/helium.mod" "$here/../tools/helium.sum" "$out/"
export GOFLAGS="-mod=mod -modfile=$out/helium.mod"
{
  echo '{"Replace":{'
  for f in "$here"/*.go; do echo "\"/repo/verifharness/$(basename "$f")\":\"$f\","; done
  echo "\"/repo/zz_verif_shim.go\":\"$here/shim/zz_verif_shim.go\"}}"
} > "$out/ov_shim.json"
{
  echo '{"Replace":{'; first=1
  for f in "$here"/*.go; do [ $first = 1 ] || echo ","; first=0; echo "\"/repo/verifharness/$(basename "$f")\":\"$f\""; done
  echo '}}'
} > "$out/ov.json"
cd /repo
if go build -tags verifshim -overlay "$out/ov_shim.json" -o "$out/harness" ./verifharness 2> "$out/build.err"; then exit 0; fi
go build -overlay "$out/ov.json" -o "$out/harness" ./verifharness 2>> "$out/build.err"
