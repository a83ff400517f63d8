#!/bin/bash
# run.sh PROPERTY quick|thorough   runs the check of a property
# run.sh replay FILE               runs a saved case again
# run.sh warm                      builds every variant of the worker
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
ulimit -c 0
mkdir -p build
bin=$(mktemp build/orch.XXXXXX) || exit 2
trap 'rm -f "$VERIF_ROOT/$bin"' EXIT
(cd harness && go build -o "$VERIF_ROOT/$bin" ./orch) || exit 2
case "$1" in
warm) "$bin" -warm ;;
replay) "$bin" -replay "$(realpath "$2")" ;;
*) "$bin" -prop "$1" -tier "${2:-quick}" "${@:3}" ;;
esac
