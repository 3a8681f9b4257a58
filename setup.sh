#!/bin/bash
# Checks that what the checks need is installed, and that the monitor builds.
# The checks themselves build everything again from /repo's current tree.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
repo=/repo
. "$verif/lib.sh"
for t in go ragel make python3; do
    command -v $t > /dev/null || { echo "missing: $t" >&2; exit 1; }
done
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX") || exit 1
trap 'rm -rf "${scratch:?}"' EXIT
build_monitor C01
