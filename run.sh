#!/bin/bash
# run.sh PROPERTY: one check against the current tree of /repo.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export VERIF_DIR="$PWD"
b="$PWD/bin/symgo"
need=0
[ -x "$b" ] || need=1
if [ $need = 0 ] && [ -n "$(find engine -name '*.go' -newer "$b" -print -quit)" ]; then need=1; fi
if [ $need = 1 ]; then
	mkdir -p bin
	(cd engine && GOFLAGS=-mod=mod go build -o "$b.$$" . && mv "$b.$$" "$b") || exit 2
	(cd engine && GOFLAGS=-mod=mod go build -o ../bin/goyacc golang.org/x/tools/cmd/goyacc) 2>/dev/null
fi
[ "$1" = --build ] && exit 0
exec "$b" check "$@"
