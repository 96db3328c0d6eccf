#!/bin/bash
# run.sh <property> [quick|thorough]: builds the harness and runs one check.
# run.sh replay <file>: repeats a replay file.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
tmp=$(mktemp -d /tmp/vrun.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
export HOME=${HOME:-$tmp}
export GOCACHE=${GOCACHE:-${HOME}/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$tmp/gocache
export GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local DOTNET_CLI_HOME=$tmp DOTNET_NOLOGO=1 DOTNET_CLI_TELEMETRY_OPTOUT=1
(cd "$here/harness" && go build -o "$tmp/vh" .) || exit 3
if [ "$1" = replay ]; then
    "$tmp/vh" replay "$2"
else
    "$tmp/vh" check "$1" "${2:-${VERIF_TIER:-quick}}"
fi
