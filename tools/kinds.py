#!/usr/bin/env python3
"""development aid: kinds.py ID [N]: replays grouped by verdict, N examples of each"""
import json,glob,sys,collections
g=collections.defaultdict(list)
for p in glob.glob('/verif/replays/%s-*'%sys.argv[1]):
    d=json.load(open(p)); v=d['verdict']; v=v.get('what',v) if isinstance(v,dict) else v
    if v=='panic': v='panic '+str(d['observed'].get('msg',''))[:60] if isinstance(d['observed'],dict) else v
    g[str(v)].append(d)
n=int(sys.argv[2]) if len(sys.argv)>2 else 3
for k,q in sorted(g.items(),key=lambda x:-len(x[1])):
    print('##',len(q),k)
    for d in sorted(q,key=lambda d:len(json.dumps(d['case'])))[:n]:
        c=dict(d['case']); o=dict(d['observed'].get('obs',d['observed']) if isinstance(d['observed'],dict) else {'o':d['observed']})
        for x in (c,o):
            for f in list(x):
                if isinstance(x[f],list) and x[f] and all(isinstance(z,int) and 0<=z<256 for z in x[f]): x[f]=bytes(x[f])
        
        import os
        if os.environ.get('SRC') and 'src' in o:
            print('  ---'); print('\n'.join('   | '+l for l in o['src'].split('\n'))); print('   finds', [tuple(f.values()) for f in o.get('finds',[])]); print('   want', str((d['verdict'] or {}).get('want') if isinstance(d['verdict'],dict) else '')[:1200]); continue
        print('  ',str(c)[:500]); print('    ->',str(o)[:500])
