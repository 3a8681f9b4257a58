#!/bin/bash
# check.sh PROPERTY [TIER]: builds the monitor of a property against /repo's
# working tree and runs it. Exit 0: the property held on all that was
# observed; 1 with a VIOLATION line: it does not hold; anything else: no
# answer. VERIF_SEED gives the seed, VERIF_TIER the default tier.
set -u
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in *[!0-9]*|'') seed=1;; esac
verif=$(cd "$(dirname "$0")" && pwd)
repo=/repo
. "$verif/lib.sh"
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop-XXXXXX") || exit 2
trap 'rm -rf "${scratch:?}"' EXIT
mkdir -p "$verif/evidence" "$verif/replays"
build_monitor "$prop"
case $? in
0) ;;
3)
    "$scratch/monitor" fail -prop "$prop" -tier "$tier" -seed "$seed" -repo "$repo" -verif "$verif" -scratch "$scratch" -what "$scratch/what"
    exit ;;
*) echo "cannot build the monitor of $prop" >&2; exit 2 ;;
esac
export TMPDIR=$scratch
"$scratch/monitor" drive -prop "$prop" -tier "$tier" -seed "$seed" -repo "$repo" -verif "$verif" -scratch "$scratch"
