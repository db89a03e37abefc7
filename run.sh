#!/bin/bash
# usage: run.sh --setup | run.sh <property>...
# Builds the static checker (once) and runs it over /repo's working tree. Exit 0, or 1 with a VIOLATION line.
cd "$(dirname "$0")" || exit 1
V=$PWD
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.27.3
[ -x "$GOROOT/bin/go" ] || unset GOROOT
[ -z "$GOROOT" ] || export PATH="$GOROOT/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off CGO_ENABLED=0 GOFLAGS=
export GOCACHE="$V/.build/gocache" GOTMPDIR="$V/.build/tmp" GOMAXPROCS="${GOMAXPROCS:-8}"
mkdir -p "$GOCACHE" "$GOTMPDIR"
build() {
	(
		flock 9
		sum=$(cat checker/*.go checker/go.mod | sha256sum)
		if [ ! -x .build/bccheck ] || [ "$(cat .build/sum 2>/dev/null)" != "$sum" ]; then
			(cd checker && GOFLAGS=-mod=vendor go build -o "$V/.build/bccheck.new" .) || exit 1
			mv "$V/.build/bccheck.new" "$V/.build/bccheck"
			echo "$sum" > .build/sum
		fi
	) 9> .build/lock
}
if ! build; then
	echo "the checker does not build"
	exit 2
fi
[ "$1" = --setup ] && exit 0
BC_OUT="$V" exec .build/bccheck "$@"
