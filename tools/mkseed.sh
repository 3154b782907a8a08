#!/bin/bash
# mkseed.sh NAME PROPERTY NEEDS BREAKS : uses the change in /tmp/plant/repo and /tmp/plant/demo.rs.
# Confirms it (builds, stable tests pass, demo 0 without and nonzero with it) and keeps it in /verif/seeded/NAME.
N=$1; W=/tmp/plant; D=/verif/seeded/$N
mkdir -p $D
git -C $W/repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp $W/demo.rs $D/demo.rs; cp /verif/tools/demo/common.rs /verif/tools/demo/demo.sh $D/
python3 - "$2" "$3" "$4" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
cd $W/repo
bad() { echo "NOT CONFIRMED: $1"; rm -r $D; exit 1; }
(cd $W/repo; timeout 300 bash $D/demo.sh) >/tmp/plant/with.out 2>&1; a=$?
grep -q "does not build" /tmp/plant/with.out && { grep -A7 "^error" /tmp/plant/with.out | head -30; bad "demo build"; }
(cd /repo; timeout 300 bash $D/demo.sh) >/tmp/plant/without.out 2>&1; b=$?
[ $a -ne 0 ] || bad "demo passes with the change"
[ $b -eq 0 ] || { tail -5 /tmp/plant/without.out; bad "demo fails without the change"; }
(cd $W/repo && timeout 300 cargo test --offline --quiet >/tmp/plant/test.out 2>&1) || { tail -20 /tmp/plant/test.out; bad "tests fail"; }
echo "confirmed $N: $(tail -3 /tmp/plant/with.out | tr '\n' ' ' | cut -c1-200)"
git -C $W/repo checkout -q -- .
