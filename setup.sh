#!/bin/bash
# Builds the simulator once, which fills the build cache the checks use.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d "${TMPDIR:-/tmp}/winres-sim.XXXXXX")
trap 'rm -rf "$out"' EXIT
"$here/build.sh" "${VERIF_REPO:-/repo}" "$out"
"$out/sim" hashes C01 1 0 3 >/dev/null
