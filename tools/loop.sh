#!/bin/bash
# development aid: dev.sh + shrink the K smallest mismatches:  loop.sh ID K N SEED
p=$1; /verif/tools/dev.sh $p --n $3 --seed $4 > /tmp/$p.log 2>&1; head -${HEADN:-1} /tmp/$p.log|cut -c1-600; mkdir -p /tmp/r; rm -f /tmp/r/*; cp /verif/replays/* /tmp/r 2>/dev/null; i=0; for f in $(ls -S -r /tmp/r/ | shuf -n ${2}); do  timeout 300 python3 /verif/tools/shrink.py $p /tmp/r/$f 2>&1 | head -c 2500; done
