#!/usr/bin/env python3
# Runs the quick (or thorough) checks one after another and writes tools/costs.json.
import json,os,subprocess,sys,time
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier='quick'; ids=[]
for a in sys.argv[1:]:
    if a in('quick','thorough'): tier=a
    else: ids.append(a)
ids=ids or [json.loads(l)['id'] for l in open(R+'/properties.jsonl')]
C=R+'/tools/costs.json'
for i in ids:
    t=time.time()
    p=subprocess.run([R+'/bin/gosym','check',i,'-tier',tier],cwd=R,capture_output=True,text=True)
    s=time.time()-t
    e=json.load(open(R+'/evidence/%s.json'%i)); c=e['coverage']
    op=[]
    for h in c['harnesses']:
        x=[]
        for k,n in (('inconclusive','inconclusive paths'),('unfinished','unfinished paths'),('assertions_undecided','undecided assertions'),('open_branches','undecided branches')):
            if h.get(k): x.append(f"{h[k]} {n}")
        if x or not h['ran']: op.append(h['name'].replace('Verif_','')+' '+(', '.join(x) or 'not run'))
    print(i,'rc',p.returncode,'%.0fs'%s,'exhaustive',c['exhaustive'],'; '.join(op),[l for l in (p.stdout+p.stderr).split('\n') if l.startswith(('NOTE','VIOL'))],flush=True)
    if tier=='quick':
        costs=json.load(open(C)) if os.path.exists(C) else {}
        q=c.get('solver_queries') or c.get('queries') or sum(c['answers_by_engine'].values())
        costs[i]={'seconds':round(s),'paths':sum(h['paths'] for h in c['harnesses']),'assertions':c['assertions'],'queries':q,'exhaustive':c['exhaustive'],'open':'; '.join(op)}
        json.dump(costs,open(C,'w'),indent=1,sort_keys=True)
