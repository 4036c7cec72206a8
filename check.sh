#!/bin/bash
# check.sh ID quick|thorough    decide one property
# check.sh replay FILE          run a stored counterexample against /repo
# check.sh build                build the engine
cd "$(dirname "$0")" || exit 0
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
BIN=$PWD/.bin/engine
mkdir -p .bin
(cd engine && go build -o "$BIN" .) || { echo "NOTE the engine did not build"; exit 3; }
case "$1" in
build) exit 0 ;;
replay) exec "$BIN" replay -verif "$PWD" -repo "${REPO:-/repo}" -file "$2" ;;
esac
"$BIN" check -verif "$PWD" -repo "${REPO:-/repo}" -id "$1" -tier "${2:-quick}" -run "${3:-}"
