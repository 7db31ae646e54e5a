#!/bin/bash
# plant.sh ID PROPERTY : takes /tmp/w's diff against HEAD (edits made there) as seeded bug ID; needs /verif/seeded/ID/{demo.cpp,meta.json}
id=$1; S=/verif/seeded/$id; H=/verif/tools/plant
[ -f $S/demo.sh ] || cp $H/demo.sh $S/demo.sh; [ -f $S/demo.cpp ] && cp $H/demo.h $S/demo.h; grep -q demotar.h $S/demo.cpp 2>/dev/null && cp $H/demotar.h $S/; chmod +x $S/demo.sh
cd /tmp/w || exit 2
[ -n "$(git diff)" ] || { git apply $S/patch.diff || exit 2; }
git diff > $S/patch.diff
b() { ninja -C _build > /tmp/w.b 2>&1 || { echo "$id: BUILD FAILED"; tail -20 /tmp/w.b; git checkout -q -- .; exit 2; }; }
b
ctest --test-dir _build -j8 --timeout 120 > /tmp/w.t 2>&1
f=$(sed -n '/The following tests FAILED/,$p' /tmp/w.t | grep -c " - ")
timeout 300 bash $S/demo.sh > /tmp/w.d1 2>&1; r1=$?
git checkout -q -- . ; b
timeout 300 bash $S/demo.sh > /tmp/w.d0 2>&1; r0=$?
echo "$id: tests failed=$f demo patched=$r1 clean=$r0 $(tail -1 /tmp/w.d1 | cut -c1-150)"
[ $r0 = 0 ] || tail -5 /tmp/w.d0
[ $f = 0 ] || sed -n '/The following tests FAILED/,$p' /tmp/w.t | head
