#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   (decides one property on /repo's current tree)
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export GOPATH="${GOPATH:-/root/go}" HOME="${HOME:-/root}"
prop="$1"; tier="${2:-quick}"
bin="$here/gosym/bin/gosym"
if [ ! -x "$bin" ] || [ -n "$(find "$here/gosym" -maxdepth 1 -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p "$here/gosym/bin"
  (cd "$here/gosym" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "cannot build gosym" >&2; exit 2; }
fi
shift; shift 2>/dev/null
exec "$bin" -repo /repo -verif "$here" -prop "$prop" -tier "$tier" "$@"
