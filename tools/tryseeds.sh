#!/bin/bash
# tryseeds.sh [ID...]: applies each planted change to /repo, runs its property's quick check, undoes it.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	for q in ${CHECKS:-$p}; do
		out=$(./run.sh check $q quick 2>&1); rc=$?
		git_v=$(grep -a "^VIOLATION property=$q " <<<"$out" | head -1)
		echo "$id $q rc=$rc $([ -n "$git_v" ] && echo CAUGHT || echo MISSED) $(tail -1 <<<"$out" | grep -ao '[0-9.]*s$')"
	done
	git -C /repo checkout -q -- .
done
