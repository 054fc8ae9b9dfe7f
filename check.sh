#!/bin/bash
# check.sh <property> [--thorough] | check.sh replay <file>: builds the verifier if needed, then decides the property
cd "$(dirname "$0")" || exit 1
export GOPROXY=off GOFLAGS= GOTOOLCHAIN=local
build() {
	mkdir -p .bin
	(cd gover && GOFLAGS=-mod=mod go build -o "../.bin/gover.$$" .) && mv ".bin/gover.$$" .bin/gover
}
newer() { [ ! -x .bin/gover ] || [ -n "$(find gover -newer .bin/gover -name '*.go' | head -1)" ]; }
if newer; then build || { echo "the verifier does not build"; exit 1; }; fi
case "$1" in
setup) exit 0 ;;
replay) exec .bin/gover replay "$2" ;;
esac
exec .bin/gover check -tier "${VERIF_TIER:-quick}" "$1"
