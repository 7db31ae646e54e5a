#!/bin/bash
# dev helper: leaks.sh PROP CHOICES -> where the leaked allocations of a run come from
E=$(python3 /verif/build.py | tail -1)
setarch -R $E exec --prop $1 --choices $2 --trace - 2>/dev/null | grep '^ <- ' | while read -r l; do
 for a in $(echo "$l" | grep -o "0x[0-9a-f]*"); do addr2line -fCpe $E $(printf "%x" $((a - 0x555555554000))) 2>/dev/null | sed 's/ at .*\// at /' | cut -c1-150; done; echo --; done | head ${3:--60}
