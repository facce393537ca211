#!/bin/bash
# verify a seed: run.sh ID [nocheck]
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXX); trap 'rm -rf $w' EXIT
cp -a /repo $w/r; cp -a $d $w/d; rm -f $w/d/patch.diff $w/d/meta.json
cd $w/r
. /opt/vp/env.sh
timeout 300 bash $w/d/demo.sh >$w/o1 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$id NO BUILD"; exit 1; }
go vet . >/dev/null 2>&1 || echo "$id: vet complains"
go test . >$w/t 2>&1 || { echo "$id: TESTS FAIL"; tail -5 $w/t; exit 1; }
timeout 300 bash $w/d/demo.sh >$w/o2 2>&1; b=$?
echo "$id: demo base=$a patched=$b"
[ $a = 0 ] || tail -5 $w/o1
[ $b != 0 ] && tail -2 $w/o2
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$2" ]; then
 VERIF_REPO=$w/r VERIF_SECS=${SECS:-25} timeout 800 /verif/check.sh $p quick >$w/c 2>$w/ce; r=$?
 echo "$id: check $p exit $r: $(grep -v '^VIOLATION\|quick:' $w/c | head -2 | cut -c1-220 | tr '\n' ' ')"; [ $r = 2 ] && tail -3 $w/ce
fi
