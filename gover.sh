#!/bin/bash
# gover.sh check C01 | replay CONTRACT CASE | fuzz N | build
# Builds the verifier from /verif/gover (offline) when needed and runs it.
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/build/gover
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
build() {
  mkdir -p "$here/build"
  if [ ! -x "$bin" ] || [ -n "$(find "$here/gover" -newer "$bin" -name '*.go' -print -quit)" ]; then
    (cd "$here/gover" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || exit 1
  fi
}
build
case "$1" in
build) ;;
check) shift; p=$1; shift; exec "$bin" -verif "$here" -prop "$p" "$@" ;;
replay) exec "$bin" -verif "$here" -replay "$2" -case "$3" ;;
fuzz) exec "$bin" -verif "$here" -fuzz "$2" ;;
esac
