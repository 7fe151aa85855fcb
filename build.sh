#!/bin/bash
# bash build.sh DIR [race|newer|cover]: builds DIR/vh from /repo's working tree, and DIR/vhr with the race detector, or by a
# newer Go release if there is one (its compiler and collector place and move memory differently).
# Nothing is written in /repo or /verif.
set -e
here=$(cd "$(dirname "$0")" && pwd)
dir=$1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p "$dir/src"
cp "$here"/harness/*.go "$dir/src/"
{
	echo 'module vh'
	echo 'go 1.21'
	echo 'require github.com/kazu/skiplistmap v0.0.0'
	echo 'replace github.com/kazu/skiplistmap => /repo'
	sed -n '/^require/,$p' /repo/go.mod
} >"$dir/src/go.mod"
cp /repo/go.sum "$dir/src/go.sum"
overlay() { # overlay FILE: fixed process hash seed
	local alg
	alg=$(go env GOROOT)/src/runtime/alg.go
	sed 's/uintptr(bootstrapRand())/uintptr(0x9E3779B97F4A7C15 * uint64(i+1))/; s/key\[i\] = bootstrapRand()/key[i] = 0x9E3779B97F4A7C15 * uint64(i+1)/' "$alg" >"$1.go.x"
	echo "{\"Replace\": {\"$alg\": \"$1.go.x\"}}" >"$1.json"
}
overlay "$dir/ov"
cd "$dir/src"
cover=
if [ "$2" = cover ]; then # counts executed blocks of statements
	cover="-cover -covermode=atomic -coverpkg=./...,github.com/kazu/..."
fi
go build $cover -overlay "$dir/ov.json" -o "$dir/vh" . &
p1=$!
if [ "$2" = race ]; then
	CGO_ENABLED=1 go build -race -gcflags=all=-d=checkptr=0 -overlay "$dir/ov.json" -o "$dir/vhr" .
fi
wait $p1
if [ "$2" = newer ]; then
	for d in /opt/veriftools/go1.26*; do [ -x "$d/bin/go" ] && PATH=$d/bin:$PATH; done
	overlay "$dir/ovn"
	go build -overlay "$dir/ovn.json" -o "$dir/vhr" .
fi
