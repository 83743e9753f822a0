#!/bin/bash
# replay.sh FILE: runs the recorded values of a counterexample against the real build of /repo.
set -u
F=$(readlink -f "$1"); cd "$(dirname "$0")" || exit 2
D=$(mktemp -d /tmp/symgo-bin.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
export GOPROXY=off GOTOOLCHAIN=local SYMGO_VERIF="$PWD"
(cd symgo && GOFLAGS=-mod=mod go build -o "$D/symgo" .) || exit 2
"$D/symgo" replay "$F"
