#!/bin/bash
# Builds the Go binding's harness from /repo's working tree into $1/gosim. Usage: build_go.sh OUTDIR
set -e
V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}; B=$(mkdir -p "$1"; cd "$1"; pwd); G=$B/gosrc
mkdir -p $G; cp -u $V/sim/go/* $G/
printf 'module gosim\n\ngo 1.24\n\nrequire github.com/Toyz/concordia v0.0.0\n\nreplace github.com/Toyz/concordia => %s\n' "$R" > $G/go.mod.new
cmp -s $G/go.mod.new $G/go.mod || mv $G/go.mod.new $G/go.mod
# cgo does not see changes of the C sources the binding includes: their hash is part of the flags
H=$(cat $(ls $R/include/*.h $R/src/vm/*.[ch]) | sha256sum | cut -c1-15)
cd $G
HOME=$B GOPATH=$B/gopath GOCACHE=$B/gocache GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1 GOTELEMETRY=off \
CGO_CFLAGS="-g -O2 -I$R/include -DVP_SRC_HASH=0x$H" CGO_LDFLAGS="-g -O2 -lm" \
go build -buildvcs=false -ldflags='-extldflags "-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc"' -o $B/gosim .
