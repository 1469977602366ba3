#!/bin/bash
# Builds the model checker against /repo's current tree and runs it.
#   run.sh check ID [quick|thorough] | replay FILE | list
. "$(dirname "$0")/env.sh"
mkdir -p "$VMC_ROOT/.build"
build() { # build what the checks need; a tree that does not build is an error of the check
	(cd "$VMC_ROOT/mc" && go build -o "$VMC_ROOT/.build/vmc.$$" ./cmd/vmc) || exit 3
	mv "$VMC_ROOT/.build/vmc.$$" "$VMC_ROOT/.build/vmc"
	(cd /repo && GOFLAGS="-mod=readonly -buildvcs=false" go build -o "$VMC_ROOT/.build/db-recovery.$$" ./cmd/db-recovery) || exit 3
	mv "$VMC_ROOT/.build/db-recovery.$$" "$VMC_ROOT/.build/db-recovery"
}
build
[ "$1" = build ] && exit 0
case "$*" in *C27*) # with a point for the scheduler before every statement of the packages
	O="$VMC_ROOT/.build/sched.$$"
	trap 'rm -rf "$O"' EXIT
	(cd "$VMC_ROOT/mc" && go run ./cmd/instr "$O" && go build -tags sched -overlay "$O/overlay.json" -o "$VMC_ROOT/.build/vmc-sched.$$" ./cmd/vmc) || exit 3
	mv "$VMC_ROOT/.build/vmc-sched.$$" "$VMC_ROOT/.build/vmc-sched"
	rm -rf "$O"
	exec "$VMC_ROOT/.build/vmc-sched" "$@"
esac
exec "$VMC_ROOT/.build/vmc" "$@"
