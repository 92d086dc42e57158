#!/bin/bash
# check.sh ID: builds the harness against /repo's working tree and runs one check.
# check.sh --setup: builds everything once (warms the build caches).
# Exit 0: held; 1: violation; anything else: the check could not run.
set -u
cd "$(dirname "$0")" || exit 3
VERIF=$PWD
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off VERIF_DIR=$VERIF
unset VERIF_PERCENT GODEBUG GORACE GOGC GOMEMLIMIT GOMAXPROCS
mkdir -p out evidence
TMP=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 3
trap 'rm -rf -- "$TMP"' EXIT

build() { # output, flags...
	local o=$1
	shift
	(cd harness && go build "$@" -o "$o" .)
}

if [ "${1:-}" = --setup ]; then
	build "$TMP/h" || exit 2
	build "$TMP/hr" -race || exit 2
	exit 0
fi

ID=${1:?usage: check.sh ID}
FLAGS=()
case $ID in
C14) FLAGS=(-race) ;;
esac
build "$TMP/h" "${FLAGS[@]}" || { echo "check.sh: the build failed" >&2; exit 2; }
"$TMP/h" run "$ID"
