#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from props import PROPS,NA
with open(V+'/properties.jsonl','w') as f:
    for p in PROPS+NA:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['qtext']),why_tests_cant=p['why'],anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']])))+'\n')
m=dict(version=1,setup_cmd='bash setup.sh',checks=[dict(property=p['id'],quick_cmd='python3-vt engine/check.py '+p['id'],thorough_cmd='VERIF_TIER=thorough python3-vt engine/check.py '+p['id'],evidence_file='evidence/%s.json'%p['id'],technique='contract-based deductive verification of the real code (LLVM IR of /repo, VC generation, z3/cvc5)',level='proof',level_note=p['note']) for p in PROPS],
 not_applicable=[dict(property=p['id'],reason=p['reason']) for p in NA],notes='See DESIGN.md. Known findings: known-findings.txt.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
D=V+'/DESIGN.md'
if os.path.exists(D):
    t=open(D).read(); a='<!-- BEGIN PROPERTIES -->'; b='<!-- END PROPERTIES -->'
    if a in t:
        body='\n'.join('### %s %s\n%s\n\n*Assurance:* %s\n'%(p['id'],p['title'],p['design'],p['note']) for p in PROPS)+'\n### Not applicable\n'+'\n'.join('- **%s %s**: %s'%(p['id'],p['title'],p['reason']) for p in NA)+'\n'
        t=t[:t.index(a)+len(a)]+'\n'+body+t[t.index(b):]
        open(D,'w').write(t)
