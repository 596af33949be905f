#!/bin/bash
# Usage: run.sh PROPERTY — builds the analyser and decides PROPERTY from /repo's current source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
bin="$(mktemp -d)"
trap 'rm -rf -- "$bin"' EXIT
(cd "$here/tool" && go build -o "$bin/sa" .) || { echo "cannot build the analyser"; exit 3; }
timeout 850 "$bin/sa" -prop "$1" -repo "${REPO:-/repo}" -verif "$here"
