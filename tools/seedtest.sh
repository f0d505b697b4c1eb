#!/bin/bash
# seedtest.sh ID [check-ids...]: validates /verif/seeded/ID in a private copy
# of /repo (bind-mounted over /repo in a namespace of its own): the demo
# passes on the unchanged tree and fails with the patch, the stable tests pass
# with it, and says which checks (the property's by default) catch it.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
sd=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
checks=${*:-$prop}
w=$(mktemp -d /tmp/seedt.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/demo" "$w/verif"; cp "$sd"/* "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
(cd "$here" && cp -r run.py gen.py lib harness octave MANIFEST.json properties.jsonl known_findings.txt "$w/verif/")
cat > "$w/in.sh" <<X
mount --bind $w/repo /repo || exit 9
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh >$w/b0.log 2>&1 || { echo "$id: base build failed"; exit 9; }
timeout 300 bash $w/demo/demo.sh >$w/d0.log 2>&1; echo "$id: demo base rc=\$?"
git apply --check $sd/patch.diff && git apply $sd/patch.diff || { echo "$id: patch does not apply"; exit 9; }
bash /opt/vp/build.sh >$w/b1.log 2>&1 || { echo "$id: build failed"; tail -5 $w/b1.log; exit 9; }
timeout 300 bash $w/demo/demo.sh >$w/d1.log 2>&1; echo "$id: demo patched rc=\$?"; tail -2 $w/d1.log
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/test.sh $w/o.json >$w/t.log 2>&1
python3 -c "
import json;d=json.load(open('$w/o.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(d['passed']);print('$id: tests', 'OK' if not m else 'BROKEN %s'%sorted(m)[:4])"
fi
cd $w/verif
for c in $checks; do
VERIF_SEED=1 VERIF_TIER=quick VT_BUILD=/tmp/w/bb timeout 900 python3 run.py check \$c >$w/c.log 2>&1; echo "$id: check \$c rc=\$? \$(grep -m1 VIOLATION $w/c.log)"
done
X
unshare -Urm bash "$w/in.sh"
