#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (checks that exist) and properties.jsonl."""
import json, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS={}
NA={
 'C30':"Functional correctness over runtime values: that induced sorting sorts is outside what a sound static argument in reach can show; its structural necessary conditions are claimed as C09-C16, C18, C20-C22.",
 'C31':"Round-trip equality over runtime values; the repository has no inverse transform to analyse against. The layout needed for inversion is claimed as C07.",
 'C32':"Quantifies over running time; no static cost bound for hash chains and recursion is in reach.",
 'C33':"Quantifies over peak memory at run time.",
 'C34':"Packed arrays, queue blocks and record buffers start uninitialised by design and are updated word-wise; that no stale bit survives depends on which elements were stored, a runtime quantity.",
}
exec(open(os.path.join(R,'tools','checks_data.py')).read())
props=[json.loads(l)['id'] for l in open(os.path.join(R,'properties.jsonl'))]
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[],
       notes='Static analysis of LLVM IR; see DESIGN.md. No hooks in /repo. Known and fixed findings: known_findings.txt.')
for p in props:
    if p in CHECKS:
        t,n=CHECKS[p]
        m['checks'].append(dict(property=p,quick_cmd='python3 check.py %s'%p,thorough_cmd='python3 check.py %s --thorough'%p,
            evidence_file='evidence/%s.json'%p,technique=t,level='other',level_note=n))
    else:
        m['not_applicable'].append(dict(property=p,reason=NA.get(p,'Check not built yet.')))
json.dump(m,open(os.path.join(R,'MANIFEST.json'),'w'),indent=1); open(os.path.join(R,'MANIFEST.json'),'a').write('\n')
