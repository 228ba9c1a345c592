#!/bin/bash
# seedrun.sh SEED [ID]: applies a planted bug to /repo, runs the check of its property, undoes it.
S=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply "$S/patch.diff" || exit 3
t0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh "$P" > /tmp/seedrun.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $P rc=$rc $(($(date +%s)-t0))s $(grep -h '^VIOLATION' /tmp/seedrun.out | head -2)"
