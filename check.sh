#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [engine flags]
# Builds the engine from the committed sources when needed and decides one property on /repo's current tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
: "${HOME:=/root}"; export HOME
h=$(cat "$here"/engine/*.go "$here"/engine/go.mod | sha256sum | cut -c1-16)
bin="$here/.build/engine-$h"
if [ ! -x "$bin" ]; then
  mkdir -p "$here/.build"
  (cd "$here/engine" && go build -mod=vendor -o "$bin.tmp.$$" . && mv "$bin.tmp.$$" "$bin") || { echo "ERROR engine build failed"; exit 2; }
fi
[ "$prop" = build ] && exit 0
exec "$bin" -prop "$prop" -tier "$tier" -verif "$here" -repo /repo "$@"
