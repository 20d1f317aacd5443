#!/usr/bin/env python3
"""Development aid: shrinks a failing case (tree or list based) by batches of one-step reductions.
usage: shrink.py ID replay.json"""
import json,sys,os,subprocess,copy,glob,re
pid,f=sys.argv[1:3]
last=f; d0=json.load(open(f)); case=d0['case']
def sig(d):
    o=d['observed']; ob=o['obs']
    return (o['st'], bool(ob.get('err')), bool(ob.get('err2')), re.sub('step \\d+|\\d+ steps','',str(d['verdict'].get('what',''))) if 'steps' in ob else '')
sig0=sig(d0)
import re
def txt(t):
    ls=t.split('\n')
    n=len(ls)
    for w in (n//2,n//4,8,4,2,1):
        if w<1: continue
        for i in range(0,n,max(1,w//2)):
            yield '\n'.join(ls[:i]+ls[i+w:])
    # balanced groups
    st=[]
    for i,c in enumerate(t):
        if c in '([{': st.append(i)
        if c in ')]}' and st:
            j=st.pop(); yield t[:j+1]+t[i:]; yield t[:j]+'x'+t[i+1:]; yield t[:j]+t[i+1:]; yield t[:j]+t[j+1:i]+t[i+1:]
    for m in re.finditer(r'#c\d+\.|[\w.]+ = |, ?|\w+|"[^"]*"|\'[^\']*\'| +|\S', t):
        yield t[:m.start()]+t[m.end():]
def reds(x):
    """all one-step reductions of a JSON value"""
    if isinstance(x,list):
        n=len(x)
        if n>6:
            h=n//2; yield x[:h]; yield x[h:]
        for i in range(n): yield x[:i]+x[i+1:]
        for i in range(n):
            for r in reds(x[i]): yield x[:i]+[r]+x[i+1:]
    elif isinstance(x,dict):
        if 'k' in x and 't' in x:
            if x['t'] in ('list','tuple','dict','call','bin','un','cond','index','slice','comp','lambda','dot','set'):
                for k in x['k']:
                    if not k['c'] and not x['c'] and k['v']!='**' and k['t'] not in ('params','block','forc','ifc','kv','asg','none'): yield k
                yield dict(t='id',v='x',k=[],c=[])
            for r in reds(x['k']):
                if x['t'] in ('list','tuple','dict','block','file','load','params') or (x['t']=='set' and r) or len(r)==len(x['k']) or (x['t']=='call' and r and r[0] is x['k'][0]): yield dict(x,k=r)
            for r in reds(x['c']): yield dict(x,c=r)
        else:
            for key in x:
                if key in ('a','re','types','pkg','dir','fname'): continue
                if key=='lay':
                    if x[key]: yield dict(x,lay=0)
                elif key=='src':
                    for r in txt(x[key]): yield dict(x,src=r)
                elif isinstance(x[key],(list,dict)):
                    for r in reds(x[key]): yield dict(x,**{key:r})
while True:
    seen=[]
    for r in reds(case):
        s=json.dumps(r)
        if s not in seen: seen.append(s)
        if len(seen)>=1500: break
    if not seen: break
    open('/tmp/shr.ndjson','w').write('\n'.join(seen)+'\n')
    subprocess.run('rm -rf /tmp/shr_replays',shell=True)
    env=dict(os.environ,VERIF_MAXREPLAYS='3000')
    o=subprocess.run(['/verif/bin/check',pid,'--cases','/tmp/shr.ndjson'],env=env,capture_output=True,text=True)
    v=[l for l in o.stdout.splitlines() if l.startswith('VIOLATION')]
    if not v:
        if o.returncode==2: print(o.stdout[-2000:])
        break
    path=None
    for l in v:
        q=l.split('replay=')[1]; dd=json.load(open(q))
        if path is None and sig(dd)==sig0: path=q; new=dd['case']; subprocess.run(['cp',q,'/tmp/shrlast.json'])
        os.unlink(q)
    if path is None: break
    path='/tmp/shrlast.json'
    if len(json.dumps(new))>=len(json.dumps(case)): break
    case=new; last=path

subprocess.run(['cp',f if 0 else last,'/tmp/shrunk.json'])
d=json.load(open(last)); 
def sx(n):
    return n if not isinstance(n,dict) or 't' not in n else '('+n['t']+':'+n['v']+(' '+' '.join(n['c']) if n['c'] else '')+''.join(' '+sx(k) for k in n['k'])+')'
print(str(sx(d['case'].get('tree','')))[:700] if isinstance(d['case'],dict) else json.dumps(d['case'])[:900])
d=json.load(open(last));  o=d['observed']['obs']
for k in ('src','err','err2','fmt','fmt2'):
    if o.get(k): print('--',k); print(o[k])
for c,t in zip(d['case'].get('steps',[]) if isinstance(d['case'],dict) else [], o.get('steps',[])):
    print('>>',json.dumps(c)); print('-- code',t.get('code'),t.get('errs'),t.get('out')); print(t.get('src'))
print(json.dumps(d["verdict"])[:1500], d["observed"]["st"], d["observed"]["msg"][:500])
