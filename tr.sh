#!/bin/bash
# dev helper: tr.sh PROP INDEX [SEED] -> minimised trace
E=$(python3 /verif/build.py | tail -1)
$E index --prop $1 --seed ${3:-1} --index $2 --choices-out /tmp/ch.txt > /tmp/r.json
CLS=$(python3 -c "import json;print(json.loads(open('/tmp/r.json').read().splitlines()[-1])['cls'])")
$E minimise --prop $1 --choices /tmp/ch.txt --cls "$CLS" --seconds ${SECS:-10} --choices-out /tmp/min.txt >/dev/null 2>&1
$E exec --prop $1 --choices /tmp/min.txt --trace - 2>/tmp/tr.err | cut -c1-220 | grep -v '^    #' | tail -${LINES_:-40}
if grep -q '^    #' /tmp/tr.err; then
 awk '/^$/{n++} n<3' /tmp/tr.err | grep -oP '^    #\d+ .*\+\K0x[0-9a-f]+(?=\))|^freed|^previ|ERROR: AddressSanitizer: \S+|^(READ|WRITE).*' | awk '/^freed|^previ|^ERR|^READ|^WRITE/{print;k=0;next}{if(k++<9)print}' | while read -r a b; do case "$a" in 0x*) echo "   $(addr2line -fCpe $E $a | sed 's/ at .*\// at /' | cut -c1-160)";; *) echo "$a $b";; esac; done
fi
