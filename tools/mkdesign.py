#!/usr/bin/env python3
"""Writes /verif/DESIGN.md and harness/cNN/NOTE from the harness sources, tools/design_*.md and tools/seeds.py."""
import re,glob,json,os
V='/verif'
props={}
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
O={}
exec(open(V+'/tools/design_oracles.py').read())
def harness(i):
    d=f'{V}/harness/{i.lower()}'
    hs=[];pars=[]
    s=''.join(open(f).read() for f in sorted(glob.glob(d+'/*.go')))
    for m in re.finditer(r'((?://[^\n]*\n)+)func (H\w+)\(\) \{(.*?)\n\}\n',s,re.S):
        doc=' '.join(l.strip('/ ').strip() for l in m.group(1).strip().split('\n'))
        doc=doc.split(':',1)[1].strip()
        ps=[f'{a} {b}/{c}' for a,b,c in re.findall(r'sym\.Param\("(\w+)"(?:[^,]*), (\d+), (\d+)\)',m.group(3))]
        hs.append((m.group(2),doc,ps))
    return hs
out=[open(V+'/tools/design_head.md').read()]
out.append('## The properties, one by one\n')
out.append('A bound is written quick/thorough. Functions named H… are the harnesses in `harness/cNN`; every one is an ordinary Go function, run symbolically by the engine and natively for replay. The grammar menus (`gen.Menu` and the `menu`s of the harnesses) carry their own input lengths; `evidence/<id>.json` lists every bound that was in force, with paths, queries and solver time per harness.\n')
for i in sorted(props):
    p=props[i]; oracle,outside=O[i]
    out.append(f'### {i} {p["title"]}\n')
    out.append(f'Oracle: {oracle}\n')
    n=[]
    for h,doc,ps in harness(i):
        out.append(f'- `{h}`: {doc}'+(f' [{", ".join(ps)}]' if ps else ''))
        n.append(h+(' ('+', '.join(ps)+')' if ps else ''))
    out.append(f'\nOutside the bounds: {outside}\n')
    note='Bounded (quick/thorough): '+'; '.join(n)+'. Outside: '+outside
    open(f'{V}/harness/{i.lower()}/NOTE','w').write(note+'\n')
S=[];exec(open(V+'/tools/seeds.py').read())
tail=open(V+'/tools/design_tail.md').read()
rows='\n'.join(f'| {x["id"]} | {x["property"]} | {x["breaks"]} |' for x in S)
out.append(tail.replace('@SEEDS@',rows))
open(V+'/DESIGN.md','w').write('\n'.join(out))
