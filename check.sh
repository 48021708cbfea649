#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the engine if needed and decides one property of /repo's current tree.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GOPROXY=off GOTOOLCHAIN=local
B="$V/bin/gosym"
if [ ! -x "$B" ] || [ -n "$(find "$V/engine" -name '*.go' -newer "$B" -print -quit)" ]; then
  mkdir -p "$V/bin"
  (cd "$V/engine" && go build -o "$B.$$" . && mv "$B.$$" "$B") || { echo "the engine does not build" >&2; exit 2; }
fi
[ "${1:-}" = setup ] && exit 0
exec "$B" check -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -verif "$V"
