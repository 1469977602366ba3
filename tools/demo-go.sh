#!/bin/bash
# Builds main.go.txt as a program of the module and runs it on the files beside this script.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOFLAGS="-mod=readonly -buildvcs=false" TZ=UTC
cp "$d/main.go.txt" "$w/main.go"
echo "{\"Replace\":{\"$PWD/cmd/verifdemo/main.go\":\"$w/main.go\"}}" >"$w/overlay.json"
go build -overlay "$w/overlay.json" -o "$w/tool" ./cmd/verifdemo || exit 2
for f in "$d"/*.gz; do [ -e "$f" ] && gzip -dc "$f" >"$w/$(basename "$f" .gz)"; done
mkdir "$w/logs"
cd "$w" && timeout 60 ./tool "$w"
