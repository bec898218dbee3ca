#!/bin/bash
# replay.sh FILE [-v]: executes a replay file written by a check, on the current
# tree of /repo. Exit 1 if the violation is there again, 0 if not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
. "$here/env.sh"
file=$(realpath "$1")
shift
out=$(mktemp -d "${TMPDIR:-/tmp}/winres-sim.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
"$here/build.sh" "$repo" "$out" >"$out/build.log" 2>&1 || { tail -40 "$out/build.log"; exit 2; }
TMPDIR=$out "$out/sim" replay "$file" "$@"
