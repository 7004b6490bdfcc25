#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the harness headers, seeded/ and known-findings.txt."""
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
H={}
for f in sorted(glob.glob(V+'/harness/*/*.go')):
    for m in re.finditer(r'((?:^//.*\n)+)func (VF_(C\d+)_\w+)\(',open(f).read(),re.M):
        doc=[l[2:].strip() for l in m[1].splitlines()]
        text=' '.join(l for l in doc if l and not l.startswith('vf:'))
        text=re.sub(r'^'+m[2]+r':?\s*','',text)
        d={k:[l[3+len(k):].strip() for l in doc if l.startswith('vf:'+k)] for k in ('bounds','outside','thorough')}
        H.setdefault(m[3],[]).append((m[2],text,d,'vf:thorough' in ' '.join(doc)))
seeds={}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    x=json.load(open(f)); seeds.setdefault(x['property'],[]).append((os.path.basename(os.path.dirname(f)),x))
notes=json.load(open(V+'/tools/design_notes.json'))
fixed={}
for l in open(V+'/known-findings.txt'):
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',l)
    if m: fixed.setdefault(m[1],[]).append((m[2],m[3].strip('() ')))
o=open(V+'/tools/design_head.md').read().rstrip()+'\n\n## The properties\n'
for p in props:
    i=p['id']
    o+='\n### %s %s\n\n'%(i,p['title'])
    if notes.get(i): o+=notes[i]+'\n\n'
    for n,t,d,th in H.get(i,[]):
        o+='* `%s`%s: %s\n'%(n,' (thorough tier only)' if th else '',t)
        for b in d['bounds']: o+='  - bounds: %s\n'%b
        for b in d['outside']: o+='  - outside: %s\n'%b
    if fixed.get(i):
        o+='\nRepaired: '+'; '.join('%s (%s)'%(re.sub(r'^repaired: ','',t),c) for c,t in fixed[i])+'.\n'
    for n,x in seeds.get(i,[]):
        o+='\nPlanted `%s`: %s (needs %s). %s\n'%(n,x['what_it_breaks'],x['needs'],notes.get('_seeds',{}).get(n,'Caught by %s.'%i))
open(V+'/DESIGN.md','w').write(o)
print(len(o.splitlines()),'lines')
