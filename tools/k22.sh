rm -rf /verif/replays; VERIF_MAXREPLAYS=400 /verif/bin/check C22 "$@" > /tmp/k22.out 2>&1; head -1 /tmp/k22.out; [ -d /verif/replays ] && python3 /verif/tools/kinds22.py C22 ${N:-2} $WH
