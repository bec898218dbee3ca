#!/bin/bash
# build.sh REPO OUT: builds the simulator with REPO's current tree into OUT/sim.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$1 out=$2
. "$here/env.sh"
mkdir -p "$out" "$GOCACHE"
# The module file names /repo; the copy used here names the tree under test.
mkdir -p "$out/mod"
sed "s#=> /repo#=> $repo#" "$here/sim/go.mod" >"$out/mod/go.mod"
cp "$here/sim/go.sum" "$out/mod/go.sum"
cd "$here/sim"
go build -o "$out/instr" ./instr
attempt() {
	rm -rf "$out/src"
	INSTR_PLAIN=$1 "$out/instr" "$(go env GOROOT)" "$repo" "$out" &&
		go build -modfile "$out/mod/go.mod" -overlay "$out/overlay.json" -o "$out/sim" .
}
if ! attempt 0; then
	# a construct the instrumentation does not know: stream calls remain yield points
	attempt 1
	echo "note: the library was built without statement-level yield points"
fi
