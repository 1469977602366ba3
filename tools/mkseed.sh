#!/bin/bash
# mkseed.sh ID SCENARIO META.json < python edit script (uses rep(path, old, new)): makes and confirms /verif/seeded/ID.
# SCENARIO "-" keeps the demo files that are in place.
. /verif/env.sh
id=$1 sc=$2
D=/verif/seeded/$id; mkdir -p "$D"
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
if [ "$sc" != - ]; then
	(cd /verif/mc && go run ./cmd/seedgen "$D" "$sc") || exit 1
	cp /verif/tools/demo-tool.sh "$D/demo.sh"
	(cd /repo && bash "$D/demo.sh" record) || exit 1
fi
[ -n "$3" ] && echo "$3" >"$D/meta.json"
cat >"$W/edit.py" 
(cd "$W/repo" && { echo 'def rep(p,o,n,c=1):
    s=open(p).read(); assert s.count(o)>=1,(p,o); s=s.replace(o,n,c) if c else s.replace(o,n); open(p,"w").write(s)'; cat "$W/edit.py"; } >"$W/e.py" && python3 "$W/e.py") || exit 1
git -C "$W/repo" diff >"$D/patch.diff"
(cd "$W/repo" && GOFLAGS="-mod=readonly -buildvcs=false" go build ./... && GOFLAGS="-mod=readonly -buildvcs=false" go vet ./... 2>&1 | grep -v '^#' | head -3)
(cd /repo && bash "$D/demo.sh"); a=$?
(cd "$W/repo" && bash "$D/demo.sh" >"$W/demo.out" 2>&1); b=$?
echo "$id: demo unchanged=$a patched=$b"; head -3 "$W/demo.out"
# stable tests on the patched copy
sed "s#cd /repo#cd $W/repo#" /opt/vp/test.sh >"$W/test.sh"; bash "$W/test.sh" "$W/t.json" >/dev/null 2>&1
python3 - "$W/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('stable','passed'):
        if k in x: return set(map(str,x[k]))
    return set()
print("stable tests missing:", passed(b)-passed(t) or "none")
P
