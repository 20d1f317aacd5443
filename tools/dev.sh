#!/bin/bash
# development aid: run a check on N random cases and show the mismatches
cd /verif; rm -rf /verif/replays; id=$1; shift
VERIF_MAXREPLAYS=${MAXR:-10} bin/check $id "$@" > /tmp/dev.out 2>&1; grep -v '^  \|^VIOL' /tmp/dev.out | cut -c1-1500; [ -d replays ] && python3 tools/show.py $id | head -${LINES_MAX:-220}
