#!/bin/bash
# check.sh PROPERTY [tier]   decide a property on /repo's current tree
# check.sh replay PROPERTY FILE   replay a failing input
# check.sh build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
bin="$here/.build/govc"
build() {
  mkdir -p "$here/.build"
  newest="$(find "$here/govc" -name '*.go' -newer "$bin" 2>/dev/null | head -1)"
  if [ ! -x "$bin" ] || [ -n "$newest" ]; then
    (cd "$here/govc" && GOFLAGS=-mod=mod go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || exit 2
  fi
}
build
mkdir -p "$here/evidence"
case "${1:-}" in
  build) exit 0 ;;
  replay) shift; exec "$bin" replay -verif "$here" "$@" ;;
  "") echo "usage: check.sh PROPERTY" >&2; exit 2 ;;
  *) exec "$bin" check -verif "$here" "$@" ;;
esac
