#!/bin/bash
# Builds the engine and the native replay binary once, offline, so that tool or source problems show early.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
T=$(mktemp -d /tmp/vsetup-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 /opt/veriftools/go1.27.3/bin/go build -o "$T/vsym" .) || exit 2
command -v z3-new >/dev/null || { echo "z3-new is missing"; exit 2; }
echo ready
