#!/bin/bash
# Builds the analyser (offline; needs only the installed Go toolchain and module cache).
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$V/bin" "$V/evidence"
if [ ! -x "$V/bin/ndcheck" ] || [ -n "$(find "$V/engine" -name '*.go' -newer "$V/bin/ndcheck" | head -1)" ]; then
  (cd "$V/engine" && go build -o "$V/bin/ndcheck.$$" . && mv "$V/bin/ndcheck.$$" "$V/bin/ndcheck") || return 2 2>/dev/null || exit 2
fi
