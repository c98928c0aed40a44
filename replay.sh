#!/bin/bash
# replay.sh FILE: re-runs a stored counterexample natively against /repo's current tree.
F=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
V=$PWD
T=$(mktemp -d /tmp/vreplay-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 /opt/veriftools/go1.27.3/bin/go build -o "$T/vsym" .) || exit 2
"$T/vsym" -replay "$F" -verif "$V"
