#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property for the current tree of /repo.
#
# Builds the simulator together with an instrumented copy of the library in a
# scratch directory, runs it, and removes the scratch directory.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: trouble.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}
. "$here/env.sh"
out=$(mktemp -d "${TMPDIR:-/tmp}/winres-sim.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
if ! "$here/build.sh" "$repo" "$out" >"$out/build.log" 2>&1; then
	echo "simulator trouble: the simulator does not build from $repo"
	tail -40 "$out/build.log"
	exit 2
fi
grep '^note:' "$out/build.log"
TMPDIR=$out "$out/sim" check "$prop" "$tier" "$seed" "$here"
