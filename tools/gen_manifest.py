#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has harnesses."""
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have=set()
for f in glob.glob(V+'/harness/*/*.go'):
    have|=set(re.findall(r'^func VF_(C\d+)_',open(f).read(),re.M))
notes=json.load(open(V+'/tools/level_notes.json'))
skip=notes.get('_skip',{})
gen="Bounded symbolic model checking of the repository's Go code (SSA regenerated from /repo on every run, harness overlaid): every value within the bounds printed in the evidence file is covered by an SMT verdict; a counterexample counts only after it is reproduced by running the real code natively. Trusts the engine's Go semantics (cross-checked against native runs of sampled paths), z3, and the models of crypto primitives and library calls listed in DESIGN.md. Nothing is claimed outside the bounds. "
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in skip:
        checks.append({'property':i,'quick_cmd':'./run.sh -check %s'%i,'thorough_cmd':'./run.sh -check %s -tier thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':'symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver (z3), counterexamples replayed natively','level':'model_checking','level_note':gen+notes.get(i,'')})
    else:
        na.append({'property':i,'reason':skip.get(i,'check not built yet')})
m={'version':1,'setup_cmd':'./setup.sh','hooks':{'guard':'verif','enable':'no hooks are needed: harnesses are laid over /repo with go -overlay at check time','source_commits':[]},'checks':checks,'not_applicable':na,
 'notes':'One engine (engine/, Go) and one harness file per property (harness/). run.sh -check ID runs one check; see DESIGN.md.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
