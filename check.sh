#!/bin/bash
# check.sh <property id>: builds the checker if needed and decides one property on /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
bin="$PWD/bin/braidcheck"
if [ ! -x "$bin" ] || [ -n "$(find checker -maxdepth 1 \( -name '*.go' -o -name go.mod \) -newer "$bin" -print -quit)" ]; then
  mkdir -p bin
  (cd checker && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "the checker does not build"; exit 2; }
fi
[ "${1:-}" = --build ] && exit 0
# the source is read with the toolchain that builds it
for d in /opt/veriftools/go1.23.12/bin; do [ -x "$d/go" ] && export PATH="$d:$PATH"; done
unset GOROOT
exec "$bin" -dir /repo -prop "$1" -out "$PWD/evidence" -known "$PWD/known_findings.txt"
