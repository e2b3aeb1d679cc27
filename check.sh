#!/bin/bash
# check.sh <property> <quick|thorough>: builds the symbolic executor and decides the property on /repo's current tree.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
export HOME=${HOME:-/root}
bin="$root/.bin/gosym"
mkdir -p "$root/.bin" || exit 2
(cd "$root/gosym" && go build -o "$bin" .) || exit 2
exec "$bin" -root "$root" "$1" "${2:-quick}"
