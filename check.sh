#!/bin/bash
# check.sh <property> [quick|thorough]: builds the verifier from /verif/govc and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd govc && go build -o "$tmp/govc" .) || exit 2
"$tmp/govc" check -prop "$1" -tier "${2:-quick}" -root "$PWD"
