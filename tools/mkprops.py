#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
F='src/flbwt.cpp'; H='src/hashtable.cpp'; PA='src/packed_array.cpp'; Q='src/queue.cpp'
IND=['src/induce%dbit.cpp'%w for w in (32,40,48,56,64)]
SAIS=['src/sais%dbit.cpp'%w for w in (32,40,48,56,64)]
exec(open(os.path.join(os.path.dirname(__file__),'props_data.py')).read())
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
