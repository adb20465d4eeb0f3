#!/bin/bash
# dev helper: seed.sh ID -> confirm the planted bug in a scratch copy, and see which checks catch it
# usage: seed.sh ID [check...]   (checks default to the property in meta.json)
id=$1; shift
d=/verif/seeded/$id
S=/tmp/seedscratch.$$
mkdir -p $S; git -C /repo archive HEAD | tar x -C $S
build() { cmake -S $S -B $S/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >$S/log 2>&1 && ninja -C $S/_build >>$S/log 2>&1 || { tail -20 $S/log; echo "BUILD FAILED"; }; }
demo() { D=$(mktemp -d /tmp/demo.XXXX); cp -r $d/. $D; rm -f $D/*.diff $D/meta.json; (cd $S && timeout 300 bash $D/demo.sh >$S/demo.log 2>&1); r=$?; rm -rf $D; return $r; }
build; demo; echo "demo unchanged: $?"; [ -n "$V" ] && tail -5 $S/demo.log
(cd $S && git init -q . 2>/dev/null && git add -A >/dev/null 2>&1; git apply $d/patch.diff) || echo "APPLY FAILED"
build; demo; echo "demo patched: $?"; tail -3 $S/demo.log
mkdir -p $S/tmp; (cd $S/_build && TEMP=$S/tmp ctest -j1 2>&1 | grep -E "tests passed|tests failed")
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in "$@"; do (cd /verif && SV_REPO=$S python3 check.py $c 2>&1 | tail -${T:-4} | cut -c1-300; echo "check $c: ${PIPESTATUS[0]}"); done
rm -rf /tmp/seedscratch.$$
