#!/bin/bash
# Builds the verifier once to show that the toolchain works offline; every check builds it again by itself.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cd govc && go build -o "$tmp/govc" . && z3 --version && cvc5 --version | head -1
