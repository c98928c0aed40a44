#!/bin/bash
# check.sh PROPERTY [engine flags]: builds the engine and decides one property on /repo's tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1; shift
export HOME=${HOME:-/root}
T=$(mktemp -d /tmp/vcheck-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 /opt/veriftools/go1.27.3/bin/go build -o "$T/vsym" .) || exit 2
TIER=${VERIF_TIER:-quick}
SECS=${VERIF_SECS:-55}
[ "$TIER" = thorough ] && SECS=${VERIF_SECS:-660}
"$T/vsym" -check "$P" -tiername "$TIER" -t "$SECS" -seed "${VERIF_SEED:-1}" -verif "$V" -w "$(nproc)" "$@"
