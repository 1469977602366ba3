#!/bin/bash
# rebase-seeds.sh: carries planted changes that no longer apply over to /repo's HEAD (patch with fuzz), if their lines are still the original ones.
for d in /verif/seeded/*/; do
	git -C /repo apply --check "$d/patch.diff" 2>/dev/null && continue
	rm -rf /tmp/rebase-seed; git clone -q /repo /tmp/rebase-seed
	if (cd /tmp/rebase-seed && patch -s -F3 -p1 <"$d/patch.diff" && find . -name '*.orig' -delete && go build ./...); then
		git -C /tmp/rebase-seed diff >"$d/patch.diff"; echo "rebased $(basename "$d")"
	else echo "FAILED $(basename "$d")"; fi
done
rm -rf /tmp/rebase-seed
