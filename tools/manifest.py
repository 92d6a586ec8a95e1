#!/usr/bin/env python3
# Generates MANIFEST.json and harness/bounds.json of the tree it lies in from the tables below.
import json,re,os
B=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="bounded symbolic execution of the Go SSA + SMT (z3, GF(r) theory), native counterexample replay"
ID="group elements are discrete logarithms (generic-group encoding): a statement about points is decided as the equivalent identity or non-identity of exponents over GF(r)"
claims={}
na={}
exec(open(B+'/tools/claims.py').read())
props=[json.loads(l) for l in open(B+'/properties.jsonl')]
checks=[];bounds={}
for p in props:
    i=p['id']
    if i in claims:
        c=claims[i]
        checks.append(dict(property=i,quick_cmd=f"bin/verif check {i} quick",thorough_cmd=f"bin/verif check {i} thorough",
            technique=TECH,level="model_checking",
            level_note="Holds for every value of the symbolic inputs within: "+c['bounds']+". "+c.get('note','')+" Trusted: the encoder (engine/), z3, kilic/bls12-381 as a group of order r, go/ssa."))
        bounds[i]=dict(bounds=c['bounds'],assumptions=c.get('assumptions',[]))
    else:
        assert i in na,i
not_app=[dict(property=p['id'],reason=na[p['id']]) for p in props if p['id'] not in claims]
m=dict(version=1,setup_cmd="bash tools/setup.sh",checks=checks,not_applicable=not_app,
  hooks=dict(guard="none",enable="no hooks: harness files are laid over /repo in memory (go/packages overlay, go test -overlay)",source_commits=[]),
  notes="bin/verif check Pxx quick|thorough; see DESIGN.md. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.")
json.dump(m,open(B+'/MANIFEST.json','w'),indent=1)
json.dump(bounds,open(B+'/harness/bounds.json','w'),indent=1)
print(len(checks),'checks',len(not_app),'not applicable')
