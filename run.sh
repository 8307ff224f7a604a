#!/bin/bash
# usage: run.sh ID...   builds the analyser if needed and runs the checks of
# these properties against /repo's current source.
dir=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
bin=$dir/sa/bin/gpsa
stale=0
[ -x "$bin" ] || stale=1
if [ $stale = 0 ]; then
  for f in "$dir"/sa/*.go "$dir"/sa/*.json "$dir"/sa/*.cjs "$dir"/sa/go.mod; do [ "$f" -nt "$bin" ] && stale=1; done
fi
if [ $stale = 1 ]; then
  mkdir -p "$dir/sa/bin"
  (cd "$dir/sa" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "analyser does not build"; exit 2; }
fi
[ "$1" = --build ] && exit 0
GPSA_VERIF=$dir exec "$bin" check "$@"
