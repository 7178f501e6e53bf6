#!/bin/bash
# developer aid: tools/plant.sh SLOT ID [check...]: confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in a private mount namespace)
slot=$1; id=$2; shift 2
D=/verif/seeded/$id
S=/tmp/plant/$slot
mkdir -p /tmp/plant
[ -d "$S" ] || cp -a /repo "$S"
git -C "$S" checkout -q -f . ; git -C "$S" fetch -q /repo HEAD && git -C "$S" checkout -q -f FETCH_HEAD
demo=$(mktemp -d /tmp/demo.XXXXXX); cp -a "$D"/. "$demo"/; rm -f "$demo"/patch.diff "$demo"/meta.json
( cd /repo && timeout 300 bash "$demo/demo.sh" >/tmp/plant/$id.base.log 2>&1 ); base=$?
unshare -m bash -c '
S=$1; D=$2; demo=$3; id=$4; shift 4
mount --bind "$S" /repo
cd /repo && git checkout -q -f .
git apply "$D/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant/$id.build.log 2>&1 || { echo "$id: DOES NOT BUILD"; grep -m3 error /tmp/plant/$id.build.log; exit 1; }
bash /opt/vp/test.sh /tmp/plant/$id.test.json >/tmp/plant/$id.test.log 2>&1
miss=$(python3 - <<P
import json
a=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); d=json.load(open("/tmp/plant/$id.test.json"))
p=set(d.get("passed",d.get("pass",[])))
print(",".join(sorted(a-p)) or "none")
P
)
timeout 300 bash "$demo/demo.sh" >/tmp/plant/$id.demo.log 2>&1; rc=$?
out=""
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
for c in "$@"; do (cd /verif && python3-vt checks/${c,,}.py >/tmp/plant/$id.$c.log 2>&1); r=$?; out="$out $c=$r"; done
echo "$id: demo base='$base' patched=$rc stable-missing=$miss checks:$out"
git checkout -q -f .
' _ "$S" "$D" "$demo" "$id" "$@"
/bin/rm -rf "$demo"
