#!/usr/bin/env python3
"""development aid: kinds22.py ID [N] [what]: replays of C22 grouped by verdict, with sources"""
import json,glob,sys,collections
def r(n):
    t,v,k=n['t'],n['v'],n['k']; R=[r(x) for x in k]
    if t=='id' or t=='num': return v
    if t=='str': return json.dumps(v)
    if t=='call': return R[0]+'('+', '.join(R[1:])+')'
    if t=='dot': return R[0]+'.'+v
    if t=='bin': return '('+R[0]+' '+v+' '+R[1]+')'
    if t=='un': return '('+v+' '+' '.join(R)+')'
    if t=='asg': return R[0]+' '+v+' '+R[1]
    if t=='list': return '['+', '.join(R)+']'
    if t=='dict': return '{'+', '.join(R)+'}'
    if t=='kv': return R[0]+': '+R[1]
    if t in('file',): return '\n'.join(R)
    if t=='block': return '\n'.join('    '+l for x in R for l in x.split('\n'))
    if t=='def': return 'def '+v+'('+R[0]+'):\n'+R[2]
    if t=='params': return ', '.join(R)
    if t=='if': return 'if '+R[0]+':\n'+R[1]
    if t=='for': return 'for '+R[0]+' in '+R[1]+':\n'+R[2]
    return t+'<'+v+'>('+', '.join(R)+')'
g=collections.defaultdict(list)
for p in glob.glob('/verif/replays/%s-*'%sys.argv[1]):
    d=json.load(open(p)); v=d['verdict']; v=v.get('what',v) if isinstance(v,dict) else v
    if v=='panic': v='panic '+str(d['observed'].get('msg',''))[:60]
    g[str(v)].append(d)
n=int(sys.argv[2]) if len(sys.argv)>2 else 3
for k,q in sorted(g.items(),key=lambda x:-len(x[1])):
    print('##',len(q),k)
    if len(sys.argv)>3 and sys.argv[3] not in k: continue
    for d in sorted(q,key=lambda d:len(json.dumps(d['case']['tree'])))[:n]:
        o=d['observed'].get('obs',d['observed'])
        if 'src' not in o: print(str(o)[:800]); continue
        print('--- cats',d['case']['cats'],d['case']['typ'],'left',o['left'],'bad',o['bad'],o['sugbad']); print(o['src']); print('>>> fixed'); print(o['text'])
        try: print('>>> want'); print(r(json.loads(d['verdict']['want'])))
        except Exception as e: print(e)
