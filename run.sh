#!/bin/bash
# usage: run.sh ID quick|thorough [scenario|path]
# Builds the checker of property ID from the working tree of /repo and runs it.
# The third argument replays one execution instead.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1 tier=${2:-quick} replay=${3:-}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export VERIF_DIR=$here VERIF_GOROOT=/opt/veriftools/go1.27.3 VERIF_TIER=$tier
for f in go.mod go.sum; do
  [ -f /repo/$f ] || cp /opt/vp/gomod/$f /repo/$f || exit 3
done
tmp=$(mktemp -d /tmp/verif-XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp VERIF_BIN=$tmp
cd "$here/harness" || exit 3

n=${id#C}; n=$((10#$n))
build() { # build with one retry: a cold cache on a busy machine must not decide anything
  "$@" 2>"$tmp/build.log" || "$@" 2>"$tmp/build.log" || { cat "$tmp/build.log" >&2; exit 3; }
}
prog=psdcheck
case $n in
  14) GOOS=js GOARCH=wasm build go build -o "$tmp/psdwasm.wasm" ./cmd/psdwasm ;;
  17|18|19|20|21|22|23) prog=blendcheck ;;
  24|25|26|27|28|29|30|31|32) prog=compcheck ;;
esac
[ $n = 32 ] && build go build -o "$tmp/psdexporter" github.com/oov/psd/psdexporter
build go build -ldflags=-checklinkname=0 -o "$tmp/check" ./cmd/$prog
case $n in
  7|22|25|26|27) # a binary whose goroutines the scheduler controls
    pkg=github.com/oov/psd
    case $n in 22) pkg=$pkg/blend ;; 25|26|27) pkg=$pkg/composite ;; esac
    mkdir "$tmp/overlay" && build go build -o "$tmp/instrument" ./cmd/instrument
    if "$tmp/instrument" -out "$tmp/overlay" $pkg && go build -overlay "$tmp/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$tmp/check-sched" ./cmd/$prog; then
      export VERIF_SCHED_BIN=$tmp/check-sched
    else
      echo "note: $pkg cannot be instrumented, only the schedules of the runtime are seen" >&2
    fi ;;
esac
case $n in
  7|22|23|27|33)
    build go build -race -ldflags=-checklinkname=0 -o "$tmp/check-race" ./cmd/$prog
    export VERIF_RACE_BIN=$tmp/check-race ;;
esac

if [ -n "$replay" ]; then
  "$tmp/check" -p "$id" -tier "$tier" -replay "$replay"
else
  "$tmp/check" -p "$id" -tier "$tier"
fi
exit $?
