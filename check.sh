#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the executor and decides one property on /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
D=$(mktemp -d /tmp/symgo-bin.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
export GOPROXY=off GOTOOLCHAIN=local SYMGO_VERIF="$PWD"
(cd symgo && GOFLAGS=-mod=mod go build -o "$D/symgo" .) || { echo "cannot build the executor"; exit 2; }
"$D/symgo" check "$1" "${2:-quick}"
