#!/usr/bin/env python3
"""Development aid: prints the sources and outputs of the replays of a formatter property."""
import json,sys,glob
for f in sorted(glob.glob('/verif/replays/%s-*.json'%sys.argv[1])):
    d=json.load(open(f)); o=d['observed']['obs']
    print('=====',f,d['observed']['st'],d['observed']['msg'][:500])
    for k in ('src','err','err2','fmt','fmt2'):
        if o.get(k): print('--',k); print(o[k])
