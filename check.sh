#!/bin/bash
# check.sh PROPERTY [further flags of sim/cmd/check]: decides one property of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
export HOME="${HOME:-/root}"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
(cd "$here/sim" && go build -o "$tmp/check" ./cmd/check) || { echo "ERROR cannot build the checker"; exit 2; }
prop=$1; shift
"$tmp/check" -root "$here" -repo "${VERIF_REPO:-/repo}" -prop "$prop" "$@"
