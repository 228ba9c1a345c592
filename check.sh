#!/bin/bash
# check.sh ID [TIER]: decides property ID on /repo's current tree.
cd "$(dirname "$0")"
V="$(pwd)"
export GOVER_VERIF="$V"
./setup.sh >&2 || exit 2
exec bin/gover check -p "$1" -tier "${2:-${VERIF_TIER:-quick}}"
