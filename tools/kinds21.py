import json,glob,sys
for p in sorted(glob.glob('/verif/replays/'+sys.argv[1]+'-*'),key=lambda p:len(json.load(open(p))['case']['src']))[:int(sys.argv[2])]:
    d=json.load(open(p)); o=d['observed'].get('obs',{}); c=d['case']
    print('---',d['verdict'].get('what'), 'cats',c['cats'],'fix',c['fix']); print('\n'.join('  %d| '%(i+1)+l for i,l in enumerate(c['src'].split('\n')))); print('  want',d['verdict'].get('want')[:600]); print('  got',[(x['cat'],x['line']) for x in o['got']]); print('  left',o['left'],o['bad'])
    for n in o['nodes']:
        if n['self']['t']!='none' and n['self']!=n['text']: print('  node',json.dumps(n)[:600])
