#!/bin/sh
# runseed.sh ID [nocheck]: confirms a planted bug in a scratch copy, then runs the property's check against it
ID=$1; S=/verif/seeded/$ID; C=/tmp/seedrun-$ID
rm -rf "$C"; git clone -q /repo "$C"; cd "$C" || exit 9
export DEMO_TARGET=/tmp/seed-target
chmod +x $S/demo.sh
cp -r $S $C-demo; rm -f $C-demo/patch.diff $C-demo/meta.json
sh $C-demo/demo.sh >/tmp/seedrun-$ID.log 2>&1; A=$?
git apply $S/patch.diff || exit 8
export PATH=/root/.cargo/bin:$PATH
VP_REPO=$C VP_DEV=1 python3 /verif/tools/mkws.py $C-t stdext; (cd $C-t && CARGO_TARGET_DIR=/tmp/seed-target cargo test --offline -q -p stdext) >/tmp/seedrun-$ID.t 2>&1; T=$?
sh $C-demo/demo.sh >>/tmp/seedrun-$ID.log 2>&1; B=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
K=-
if [ "$2" != nocheck ]; then
 VP_REPO=$C VP_BUILD=/tmp/seed-build timeout 900 python3 /verif/check.py $P quick >/tmp/seedrun-$ID.check 2>&1; K=$?
fi
echo "$ID $P: demo clean=$A patched=$B stdext-tests=$T check=$K"
[ "$K" = 0 ] || grep -v VIOLATION /tmp/seedrun-$ID.check | head -2 | cut -c1-300
rm -rf "$C" "$C-demo" "$C-t"
