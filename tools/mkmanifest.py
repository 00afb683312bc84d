#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.txt."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
jobs={}
for l in open('/verif/checks.txt'):
    l=l.split('#')[0].split()
    if l: jobs.setdefault(l[0],[]).append(l)
NA=json.load(open('/verif/tools/not_applicable.json'))
NOTE=json.load(open('/verif/tools/level_notes.json'))
gen=("Bounded: holds for every value of the symbolic inputs within the job parameters listed in the evidence file (sizes, steps, "
     "preemptions); larger ones are outside the claim. Trusts the SSA-to-SMT engine in /verif/engine, z3 and the listed stubs; "
     "counterexamples are replayed against the natively compiled code before they are reported.")
m=dict(version=1,setup_cmd="bash /verif/build.sh",checks=[],not_applicable=[],
 notes="Engine: /verif/engine (symbolic execution of go/ssa of /repo's current source, z3 back end). Harnesses: /verif/harness, overlaid on /repo, never written there. Jobs: /verif/checks.txt.")
for p in props:
    i=p['id']
    if i in jobs and i not in NA:
        m['checks'].append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          technique="symbolic execution of the real code's SSA, assertions decided by SMT (z3)",level="model_checking",
          level_note=(NOTE.get(i,'')+' '+gen).strip()))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m['checks']),'claimed',[x['property'] for x in m['not_applicable']])
