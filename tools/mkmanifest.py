#!/usr/bin/env python3
# Generates MANIFEST.json: every property with a harness is claimed.
import json,os,re,glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
harn={}
for f in sorted(glob.glob(R+'/harness/*/*.go')):
    src=open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)*)//verif:check (\w+)([^\n]*)\n(?:func )(\w+)',src,re.M):
        doc=' '.join(l[2:].strip() for l in m.group(1).strip().split('\n') if l)
        harn.setdefault(m.group(2),[]).append((m.group(4),m.group(3),doc))
NA=json.load(open(R+'/tools/not_applicable.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in harn:
        ieee=any('ieee' in h[1] for h in harn[i]); ex=any('ieee' not in h[1] for h in harn[i])
        t="bounded symbolic execution of the real Go code (SSA to SMT, z3/cvc5), "
        t+=("bit-precise floats" if ieee and not ex else "exact arithmetic with rounding-error bounds" if ex and not ieee else "exact and bit-precise floats")
        b='; '.join(h[0].replace('Verif_','')+': '+(h[2] or 'see source') for h in harn[i])
        note="Every path within the bounds is decided by the solver; counterexamples count only when the compiled code reproduces them. Bounds: "+b+" Trusted: go/ssa, the interpreter (each path's model is re-run natively and compared), the solvers. Branches or assertions the solver left open are counted in the evidence."
        checks.append({"property":i,"quick_cmd":f"bin/gosym check {i} -tier quick","thorough_cmd":f"bin/gosym check {i} -tier thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":"model_checking","level_note":note})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"bash tools/build.sh","checks":checks,"not_applicable":na,"notes":"gosym (engine/) executes the functions of /repo symbolically from their SSA form, regenerated from the working tree on every run; harnesses (harness/) are added through a build overlay, so /repo has no hooks. Repairs in /repo are listed in KNOWN_FINDINGS."}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); open(R+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',[x['property'] for x in na])
