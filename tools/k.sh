#!/bin/bash
# development aid: k.sh ID [N] [check args]: run a check, group the mismatches, N examples of each
id=$1; n=${2:-3}; shift; shift; rm -rf /verif/replays; VERIF_MAXREPLAYS=400 /verif/bin/check $id "$@" > /tmp/k.$id 2>&1; grep -v '^  \|^VIOL' /tmp/k.$id | head -${HEADN:-3} | cut -c1-600; [ -d /verif/replays ] && python3 /verif/tools/kinds.py $id $n | cut -c1-${W:-900}
