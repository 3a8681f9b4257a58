#!/bin/bash
# replay.sh FILE: runs the case of a replay file again. Exit 1: it still
# violates its property, 0: it does not.
set -u
file=$(realpath "${1:?replay file}")
verif=$(cd "$(dirname "$0")" && pwd)
repo=/repo
. "$verif/lib.sh"
get() { python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get(sys.argv[2],""))' "$file" "$1"; }
prop=$(get property)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-replay-XXXXXX") || exit 2
trap 'chmod -R u+rwX "${scratch:?}" 2>/dev/null; rm -rf "${scratch:?}"' EXIT
build_monitor "$prop" || { echo "cannot build the monitor of $prop" >&2; exit 2; }
if [ -z "$(get stream)" ]; then
    # a race or a crash of the whole process: only the whole workload shows it
    get what
    "$scratch/monitor" drive -prop "$prop" -tier "$(get tier)" -seed "$(get seed)" -repo "$repo" -verif "$scratch" -scratch "$scratch"
    exit
fi
"$scratch/monitor" one -prop "$prop" -tier "$(get tier)" -seed "$(get seed)" -stream "$(get stream)" -index "$(get index)" \
    -repo "$repo" -verif "$scratch" -scratch "$scratch"
rc=$?
[ $rc -gt 2 ] && rc=1 # the case ends the process
exit $rc
