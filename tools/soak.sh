#!/bin/bash
# tools/soak.sh SEED... : run every check with other seeds, from a copy; prints only alarms
D=$(mktemp -d /tmp/soak.XXXX); cp -a /verif/. $D/; cd $D
for s in "$@"; do for p in $(ls checks | grep -o '^p[0-9]*' | sort -u); do P=${p^^}
o=$(VERIF_EVIDENCE_DIR=$D/evidence timeout 1800 python3 run.py $P --seed $s ${SCALE:+--scale $SCALE} 2>&1); r=$?
if [ $r != 0 ]; then echo "ALARM $P seed $s rc $r"; echo "$o" | grep -v VariableM | tail -5 | cut -c1-1200; fi; done; echo "seed $s done $(date)"; done
