#!/bin/bash
# Runs the tool on the files beside this script and compares the statements with expected.txt.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOFLAGS="-mod=readonly -buildvcs=false" TZ=UTC
go build -o "$w/tool" ./cmd/db-recovery || exit 2
for f in "$d"/*.gz; do gzip -dc "$f" >"$w/$(basename "$f" .gz)"; done
mapfile -t args < <(sed "s#@#$w/#g" "$d/args")
mkdir "$w/logs"
timeout 60 "$w/tool" "${args[@]}" --LogPath="$w/logs" --LogLevel=error >"$w/out" 2>"$w/err"
echo "exit $?" >"$w/got"
grep -aiE '^(replace|insert|update) ' "$w/out" >>"$w/got"
[ "$1" = record ] && { cp "$w/got" "$d/expected.txt"; exit 0; }
cmp -s "$w/got" "$d/expected.txt" && exit 0
diff -a "$d/expected.txt" "$w/got" | cut -c1-200 | head -20
exit 1
