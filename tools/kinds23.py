import json,glob,sys,collections
g=collections.defaultdict(list)
for p in glob.glob('/verif/replays/C23-*'):
    d=json.load(open(p)); v=d['verdict']; w=v.get('what',v) if isinstance(v,dict) else v
    g[str(w)].append(d)
for k,q in sorted(g.items(),key=lambda x:-len(x[1])):
    print('##',len(q),k)
    for d in sorted(q,key=lambda d:len(json.dumps(d['case'])))[:int(sys.argv[1])]:
        o=d['observed'].get('obs',d['observed'])
        if 'src' not in o: print(str(o)[:600]); continue
        for f,s in zip(o['files'],o['src']): print('---',f['pkg'],f['name'],f['ok']); print(s)
        print('got',o['macros'],o['alone'],o['deprecated'],o['same']); print('want',d['verdict']['want'] if isinstance(d['verdict'],dict) else '')
