#!/bin/bash
# catch.sh [ID...]: applies each seeded bug to a scratch clone (SIM_REPO) and runs its property's check there
rm -rf /tmp/wc; git clone -q ${FROM:-/repo} /tmp/wc
for id in ${@:-$(ls /verif/seeded)}; do
    S=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    git -C /tmp/wc checkout -q -- . ; git -C /tmp/wc apply $S/patch.diff || { echo "$id: does not apply"; continue; }
    t0=$(date +%s)
    (cd /verif && SIM_REPO=/tmp/wc SIM_BUILD=/tmp/wcb VERIF_SEED=${SEED:-1} timeout 900 python3 check.py --prop $p > /tmp/catch.$id.log 2>&1); rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-t0))s $(grep -m1 VIOLATION /tmp/catch.$id.log | cut -c1-120)"
done
rm -rf /tmp/wc /tmp/wcb
