#!/bin/bash
# usage: check.sh build | check.sh PROPERTY [quick|thorough] | check.sh --replay FILE
# Exit 0: the property held; 1 and a VIOLATION line: it is broken; else: no answer.
verif=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR=$verif
bin=$verif/.build
mkdir -p "$bin" || exit 2

build() { # build NAME FLAGS...
	local name=$1
	shift
	(cd "$verif/harness" && go build "$@" -o "$bin/$name" ./cmd/tw) 2>"$bin/$name.log" || {
		cat "$bin/$name.log"
		echo "ERROR: the harness does not build"
		exit 2
	}
}

case "$1" in
build)
	build tw
	build tw-race -race
	;;
--replay)
	[ -f "$2" ] || { echo "no file $2"; exit 2; }
	build tw
	prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
	if [ "$("$bin/tw" race "$prop")" = true ]; then
		build tw-race -race
		exec "$bin/tw-race" replay "$2"
	fi
	exec "$bin/tw" replay "$2"
	;;
C[0-9]*)
	build tw
	if [ "$("$bin/tw" race "$1")" = true ]; then
		build tw-race -race
		exec "$bin/tw-race" run "$1" "${2:-${VERIF_TIER:-quick}}"
	fi
	exec "$bin/tw" run "$1" "${2:-${VERIF_TIER:-quick}}"
	;;
*)
	echo "usage: check.sh build | PROPERTY [quick|thorough] | --replay FILE"
	exit 2
	;;
esac
