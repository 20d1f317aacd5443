#!/usr/bin/env python3
"""development aid: render the tree of the last state of a TLC counterexample (variables f, pre, start) in /tmp/mc.out"""
import re,sys
t=open('/tmp/mc.out').read()
states=re.split(r'\nState \d+:',t)[1:]
if not states: states=[t[t.find('Error:'):]]
s=states[-1]
def parse(s):
    pos=0
    def ws():
        nonlocal pos
        while pos<len(s) and s[pos] in ' \n\t': pos+=1
    def val():
        nonlocal pos
        ws()
        if s.startswith('<<',pos):
            pos+=2;r=[];ws()
            while not s.startswith('>>',pos):
                r.append(val());ws()
                if s[pos]==',':pos+=1
                ws()
            pos+=2;return r
        if s[pos]=='{':
            pos+=1;r=[];ws()
            while s[pos]!='}':
                r.append(val());ws()
                if s[pos]==',':pos+=1
                ws()
            pos+=1;return r
        if s[pos]=='[':
            pos+=1;r={};ws()
            while s[pos]!=']':
                m=re.match(r'\s*(\w+)\s*\|->',s[pos:]);pos+=m.end();r[m[1]]=val();ws()
                if s[pos]==',':pos+=1
                ws()
            pos+=1;return r
        if s[pos]=='"':
            m=re.match(r'"((?:[^"\\]|\\.)*)"',s[pos:]);pos+=m.end();return m[1]
        m=re.match(r'[-\w]+',s[pos:]);pos+=m.end();return m[0]
    return val()
def sh(n):
    if not isinstance(n,dict) or 't' not in n or isinstance(n['t'],list): return str(n)
    return '('+n['t']+(':'+n['v'] if n['v'] else '')+(' '+str(n['c']) if n['c'] else '')+''.join(' '+sh(x) for x in n['k'])+')'
for m in re.finditer(r'/\\ (\w+) = ',s):
    try: v=parse(s[m.end():])
    except Exception as e: v='?'
    if isinstance(v,dict) and v.get('t')=='file':
        print(m[1],':')
        for x in v['k']: print('   ',sh(x))
    else: print(m[1],':',str(v)[:600])
