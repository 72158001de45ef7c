#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
for f in go.mod go.sum; do [ -f /repo/$f ] || cp /opt/vp/gomod/$f /repo/$f || exit 1; done
cd "$here/harness" && go vet -composites=false ./... || exit 1
for p in psdcheck blendcheck compcheck; do
  go build -ldflags=-checklinkname=0 -o /dev/null ./cmd/$p && go build -race -ldflags=-checklinkname=0 -o /dev/null ./cmd/$p || exit 1
done
go build -o /dev/null github.com/oov/psd/psdexporter
