#!/bin/bash
# dev helper: one.sh PROP RUNS
[ -z "$KEEP" ] && unset KEEP
E=$(python3 /verif/build.py | tail -1)
env ${KEEP:+SIM_KEEPGOING=1} ${SYM:+SIM_SYMBOLIZE=1} $E run --prop $1 --seed ${3:-1} --runs $2 --workers 8 --timecap 300 --out /tmp/out.json
python3 - <<'P'
import json
d=json.load(open('/tmp/out.json'))
v=d.pop('violations')
c=d.pop('counters')
print(d); print(c)
from collections import Counter
print(Counter((x['cls'],x['sig']) for x in v))
seen=set()
for x in v:
  k=(x['cls'],x['sig'])
  if k in seen: continue
  seen.add(k); print(x['index'],x['cls'],x['sig'],x['msg'][:600])
P
