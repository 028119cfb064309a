#!/usr/bin/env python3
# Generates DESIGN.md from the hand-written parts, the harness comments, KNOWN_FINDINGS and seeded/.
import json,os,re,glob,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R+'/tools')
from design_props import D
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
harn={}
for f in sorted(glob.glob(R+'/harness/*/*.go')):
    src=open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)*)//verif:check (\w+)([^\n]*)\n(?:func )(\w+)',src,re.M):
        doc=' '.join(l[2:].strip() for l in m.group(1).strip().split('\n') if l)
        harn.setdefault(m.group(2),[]).append((m.group(4),m.group(3),doc))
costs={}
if os.path.exists(R+'/tools/costs.json'): costs=json.load(open(R+'/tools/costs.json'))
out=[open(R+'/tools/design_head.md').read().rstrip(),'','## Properties','']
for p in props:
    i=p['id'];how,why,rest=D[i]
    out+=[f"### {i} {p['title']}",'',p['statement'],'',f"*Decision.* {how}",'']
    if why!='-': out+=[f"*Beyond the tests.* {why} {p['why_tests_cant']}",'']
    else: out+=[f"*Beyond the tests.* {p['why_tests_cant']}",'']
    out+=['*Bounds* (one harness per line):','']
    for n,o,d in harn[i]:
        t=' (bit-precise floats)' if 'ieee' in o else ''
        if 'tier=thorough' in o: t+=' (thorough only)'
        out.append(f"* `{n.replace('Verif_','')}`{t}: {d}")
    out.append('')
    if rest!='-': out+=[f"*Left out.* {rest}",'']
    if i in costs:
        c=costs[i]
        out+=[f"*Cost of the quick check* (8 cores): {c['seconds']:.0f} s, {c['paths']} paths, {c['assertions']} assertions, {c['queries']} solver queries."+("" if c['exhaustive'] else f" Not exhaustive within the bounds: {c['open']}."),'']
out+=[open(R+'/tools/design_tail.md').read().rstrip(),'']
out+=['## Planted changes and what catches them','','Each folder of `seeded/` holds a change that compiles and passes the stable tests, with a demonstration. All were run against the quick check of their property.','','| change | property | needs | caught by |','|---|---|---|---|']
caught={}
if os.path.exists(R+'/tools/caught.json'): caught=json.load(open(R+'/tools/caught.json'))
for d in sorted(glob.glob(R+'/seeded/*')):
    m=json.load(open(d+'/meta.json'));b=os.path.basename(d)
    out.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b,'-')} |")
out+=['','## Defects found and repaired','']
for l in open(R+'/KNOWN_FINDINGS'):
    if l.startswith('fixed:'): out.append('* '+l[6:].strip())
    elif l.startswith('finding:'): out.append('* open: '+l[8:].strip())
open(R+'/DESIGN.md','w').write('\n'.join(out)+'\n')
print(len(out),'lines',[p['id'] for p in props if p['id'] not in costs])
