# Sourced by the scripts: the offline Go environment.
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
VMC_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VMC_ROOT
